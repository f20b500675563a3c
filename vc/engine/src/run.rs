//! Runs a property's contracts, replays refutations at `f64`, writes evidence.
use crate::cx::*;
use crate::poly::Budget;
use crate::state::*;
use rustc_hash::FxHashMap;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// every path, every input: obligations discharged by algebra or a solver
    Proof,
    /// exact arithmetic on this many pseudo-random constant inputs: bounded
    Exact(u32),
    /// the contract evaluated at `f64` on this many pseudo-random inputs: bounded
    Sampled(u32),
    /// machine integers and floats bit for bit: the harness of the same name in /verif/kani,
    /// discharged by Kani (CBMC + z3)
    Bits,
}
#[derive(Clone)]
pub struct Contract {
    pub name: &'static str,
    pub funcs: &'static str,
    pub mode: Mode,
    pub sym: Option<fn()>,
    pub con: Option<fn()>,
    pub thorough: bool,
    pub limit_s: u64,
    pub terms: usize,
}
impl Contract {
    pub fn proof(name: &'static str, funcs: &'static str, sym: fn(), con: fn()) -> Contract {
        Contract { name, funcs, mode: Mode::Proof, sym: Some(sym), con: Some(con), thorough: false, limit_s: 400, terms: 6000 }
    }
    pub fn only_sym(name: &'static str, funcs: &'static str, sym: fn()) -> Contract {
        Contract { name, funcs, mode: Mode::Proof, sym: Some(sym), con: None, thorough: false, limit_s: 400, terms: 6000 }
    }
    pub fn exact(name: &'static str, funcs: &'static str, n: u32, sym: fn(), con: fn()) -> Contract {
        Contract { name, funcs, mode: Mode::Exact(n), sym: Some(sym), con: Some(con), thorough: false, limit_s: 400, terms: 6000 }
    }
    pub fn sampled(name: &'static str, funcs: &'static str, n: u32, con: fn()) -> Contract {
        Contract { name, funcs, mode: Mode::Sampled(n), sym: None, con: Some(con), thorough: false, limit_s: 400, terms: 6000 }
    }
    pub fn bits(name: &'static str, funcs: &'static str, con: fn()) -> Contract {
        Contract { name, funcs, mode: Mode::Bits, sym: None, con: Some(con), thorough: false, limit_s: 400, terms: 6000 }
    }
    pub fn slow(mut self) -> Contract {
        self.thorough = true;
        self
    }
    pub fn limit(mut self, s: u64) -> Contract {
        self.limit_s = s;
        self
    }
    pub fn terms(mut self, t: usize) -> Contract {
        self.terms = t;
        self
    }
}
#[macro_export]
macro_rules! proof {
    ($f:ident, $funcs:expr) => {
        $crate::Contract::proof(stringify!($f), $funcs, || $f::<$crate::Sym>(), || $f::<f64>())
    };
}
#[macro_export]
macro_rules! exact {
    ($f:ident, $n:expr, $funcs:expr) => {
        $crate::Contract::exact(stringify!($f), $funcs, $n, || $f::<$crate::Sym>(), || $f::<f64>())
    };
}
#[macro_export]
macro_rules! bits {
    ($f:ident, $funcs:expr) => {
        $crate::Contract::bits(stringify!($f), $funcs, || $f::<f64>())
    };
}
#[macro_export]
macro_rules! sampled {
    ($f:ident, $n:expr, $funcs:expr) => {
        $crate::Contract::sampled(stringify!($f), $funcs, $n, || $f::<f64>())
    };
}

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

#[derive(Clone, Default)]
pub struct Outcome {
    pub name: String,
    pub paths: u64,
    pub branches: u64,
    pub proved: Vec<(String, [u64; 4])>,
    pub failed: Vec<Oblig>,
    pub nfailed: u64,
    pub queries: u64,
    pub solver: f64,
    pub wall: f64,
    pub evaluations: u64,
    /// concrete failing input found: (obligation, detail, vars, choices, seed)
    pub hit: Option<Hit>,
    pub abandoned: u64,
}
#[derive(Clone, Default)]
pub struct Hit {
    pub oblig: String,
    pub detail: String,
    pub vars: Vec<(String, f64)>,
    pub choices: Vec<(String, usize)>,
    pub seed: u64,
}
pub fn explore(c: &Contract, seed: u64, thorough: bool) -> Outcome {
    let f = c.sym.unwrap();
    let mut o = Outcome { name: c.name.into(), ..Default::default() };
    let t0 = Instant::now();
    with(|s| {
        *s = St::new();
        s.alg.max_terms = c.terms;
        s.seed = seed;
        s.cfg.limit = Duration::from_secs(c.limit_s);
        if thorough {
            s.cfg.proof_ms *= 4;
            s.cfg.limit *= 3;
            s.cfg.max_paths *= 5;
        }
        s.pending = vec![Pending { dec: vec![], wit: None }];
    });
    let rounds = match c.mode {
        Mode::Exact(n) => {
            if thorough {
                n * 5
            } else {
                n
            }
        }
        _ => 1,
    };
    for r in 0..rounds {
        if r > 0 {
            with(|s| {
                s.seed = hash64(seed + r as u64 * 7919);
                s.pending = vec![Pending { dec: vec![], wit: None }];
            });
        }
        while let Some(p) = with(|s| s.pending.pop()) {
            with(|s| s.reset_path(p));
            let r = catch_unwind(AssertUnwindSafe(f));
            o.paths += 1;
            if let Err(e) = r {
                if let Some(Abandon(why)) = e.downcast_ref::<Abandon>() {
                    o.abandoned += 1;
                    if why.starts_with("projection") {
                        // a path left unfinished for want of a machine number is not a path proved
                        with(|s| {
                            let ch = s.choices.clone();
                            s.obligs.push(Oblig {
                                name: "path followed to its end".into(),
                                status: Status::Undecided(why.to_string().into()),
                                model: vec![],
                                choices: ch,
                                detail: String::new(),
                            });
                            *s.failed.entry("path followed to its end".into()).or_default() += 1;
                        });
                    }
                } else if e.downcast_ref::<Budget>().is_some() {
                    with(|s| {
                        let ch = s.choices.clone();
                        s.pending.clear();
                        s.obligs.push(Oblig {
                            name: "within budget".into(),
                            status: Status::Undecided("term, path or time budget exhausted".into()),
                            model: vec![],
                            choices: ch,
                            detail: String::new(),
                        });
                        *s.failed.entry("within budget".into()).or_default() += 1;
                    });
                } else {
                    let msg = LAST.with(|l| l.borrow().clone());
                    let msg = format!("panic: {msg}");
                    with(|s| {
                        // a panic on an unreachable path is no violation
                        s.prove_false("no panic", msg);
                    });
                }
            }
        }
    }
    with(|s| {
        o.branches = s.nbranch;
        o.proved = s.proved.iter().map(|(k, v)| (k.clone(), *v)).collect();
        o.proved.sort();
        o.failed = std::mem::take(&mut s.obligs);
        o.nfailed = s.failed.values().sum();
        o.queries = s.smt.queries;
        o.solver = s.smt.time.as_secs_f64();
        *s = St::new();
    });
    o.wall = t0.elapsed().as_secs_f64();
    o
}
impl St {
    pub fn prove_false(&mut self, name: &str, detail: String) {
        let before = self.obligs.len();
        self.prove(name, &P::B(false));
        for o in &mut self.obligs[before..] {
            o.detail = detail.clone();
        }
    }
}
/// One concrete run. Returns failures (name, detail).
fn concrete(f: fn(), seed: u64, given: FxHashMap<String, f64>, choices: Option<Vec<(String, usize)>>) -> Option<Vec<(String, String)>> {
    fs(|s| s.start(seed, given, choices));
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut fails = fs(|s| s.fails.clone());
    if let Err(e) = r {
        if e.downcast_ref::<Abandon>().is_some() {
            return if fails.is_empty() { None } else { Some(fails) };
        }
        fails.push(("no panic".into(), format!("panic: {}", LAST.with(|l| l.borrow().clone()))));
    }
    Some(fails)
}
fn hit_now(fails: &[(String, String)], want: &dyn Fn(&str) -> bool, seed: u64) -> Option<Hit> {
    let x = fails.iter().find(|x| want(&x.0))?;
    Some(fs(|s| Hit { oblig: x.0.clone(), detail: x.1.clone(), vars: s.log.clone(), choices: s.clog.clone(), seed }))
}
pub fn search(c: &Contract, o: &Outcome, seed: u64, budget: Duration) -> Option<Hit> {
    let f = c.con?;
    let names: Vec<String> = o.failed.iter().map(|x| x.name.clone()).collect();
    let any = names.iter().any(|n| n == "within budget" || n == "termination");
    let want = |n: &str| any || names.iter().any(|x| x == n);
    let t0 = Instant::now();
    for ob in &o.failed {
        for k in 0..4u64 {
            let given: FxHashMap<String, f64> = ob.model.iter().cloned().collect();
            let ch = if ob.choices.is_empty() { None } else { Some(ob.choices.clone()) };
            if let Some(fl) = concrete(f, seed + k, given, ch) {
                if let Some(h) = hit_now(&fl, &want, seed + k) {
                    return Some(h);
                }
            }
        }
    }
    let mut n = 0u64;
    while t0.elapsed() < budget && n < 200_000 {
        n += 1;
        let sd = hash64(seed ^ (n * 1_000_003));
        let ob = o.failed.get(n as usize % o.failed.len().max(1));
        let ch = ob.filter(|_| n % 2 == 0).map(|x| x.choices.clone()).filter(|x| !x.is_empty());
        if let Some(fl) = concrete(f, sd, Default::default(), ch) {
            if let Some(h) = hit_now(&fl, &want, sd) {
                return Some(h);
            }
        }
    }
    None
}
fn sample_run(c: &Contract, seed: u64, n: u32) -> Outcome {
    let f = c.con.unwrap();
    let t0 = Instant::now();
    let mut o = Outcome { name: c.name.into(), ..Default::default() };
    for k in 0..n as u64 {
        let sd = hash64(seed.wrapping_mul(7_777_777) ^ k);
        if let Some(fl) = concrete(f, sd, Default::default(), None) {
            let passed = fs(|s| s.passed);
            o.evaluations += 1;
            if passed == 0 && fl.is_empty() {
                o.abandoned += 1;
            }
            if let Some(h) = hit_now(&fl, &|_| true, sd) {
                o.failed.push(Oblig {
                    name: h.oblig.clone(),
                    status: Status::Refuted("sampled input"),
                    model: h.vars.clone(),
                    choices: h.choices.clone(),
                    detail: h.detail.clone(),
                });
                o.nfailed += 1;
                o.hit = Some(h);
                break;
            }
        } else {
            o.abandoned += 1;
        }
    }
    if o.evaluations == 0 {
        o.failed.push(Oblig { name: "vacuous".into(), status: Status::Undecided("no sample met the precondition".into()), model: vec![], choices: vec![], detail: String::new() });
        o.nfailed += 1;
    }
    o.wall = t0.elapsed().as_secs_f64();
    o
}
fn bits_run(c: &Contract) -> Outcome {
    use std::process::Command;
    let t0 = Instant::now();
    let mut o = Outcome { name: c.name.into(), ..Default::default() };
    let dir = std::env::args().skip_while(|a| a != "--verif").nth(1).unwrap_or_else(|| "/verif".into());
    // Kani calls its solver `z3`; give it the newer release
    let bin = format!("{dir}/vc/target/bin");
    let _ = std::fs::create_dir_all(&bin);
    if let Ok(p) = Command::new("sh").args(["-c", "command -v z3-new"]).output() {
        let _ = std::os::unix::fs::symlink(String::from_utf8_lossy(&p.stdout).trim(), format!("{bin}/z3"));
    }
    let path = format!("{bin}:{}", std::env::var("PATH").unwrap_or_default());
    let out = Command::new("timeout")
        .args([&c.limit_s.to_string(), "cargo", "kani", "--exact", "--harness", &c.name.to_string(), "--no-assertion-reach-checks", "--output-format", "terse"])
        .current_dir(format!("{dir}/kani"))
        .envs([("PATH", path), ("CARGO_NET_OFFLINE", "true".into()), ("CARGO_TARGET_DIR", format!("{dir}/vc/target/bits"))])
        .output();
    let text = out.map(|x| String::from_utf8_lossy(&x.stdout).to_string() + &String::from_utf8_lossy(&x.stderr)).unwrap_or_else(|e| e.to_string());
    let count = text.lines().find_map(|l| {
        let mut w = l.trim().strip_prefix("** 0 of ")?.split_whitespace();
        w.next()?.parse::<u64>().ok()
    });
    o.paths = 1;
    o.queries = 1;
    o.wall = t0.elapsed().as_secs_f64();
    o.solver = text.lines().find_map(|l| l.strip_prefix("Verification Time: ")?.strip_suffix('s')?.parse().ok()).unwrap_or(0.0);
    match count {
        Some(n) if text.contains("VERIFICATION:- SUCCESSFUL") => o.proved.push((c.name.into(), [0, 0, n, 0])),
        _ => {
            let status = if text.contains("VERIFICATION:- FAILED") { Status::Refuted("kani") } else { Status::Undecided("kani gave no answer".into()) };
            let tail: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
            let detail = tail[tail.len().saturating_sub(12)..].join(" | ");
            o.failed.push(Oblig { name: c.name.into(), status, model: vec![], choices: vec![], detail });
            o.nfailed = 1;
        }
    }
    o
}
fn run_one(c: &Contract, seed: u64, thorough: bool) -> Outcome {
    let mut o = match c.mode {
        Mode::Sampled(n) => return sample_run(c, seed, if thorough { n * 10 } else { n }),
        Mode::Bits => bits_run(c),
        _ => explore(c, seed, thorough),
    };
    let total: u64 = o.proved.iter().map(|x| x.1.iter().sum::<u64>()).sum();
    if total == 0 && o.failed.is_empty() {
        o.failed.push(Oblig { name: "vacuous".into(), status: Status::Undecided("the contract generated no obligation".into()), model: vec![], choices: vec![], detail: String::new() });
        o.nfailed += 1;
    }
    if !o.failed.is_empty() {
        o.hit = search(c, &o, seed, Duration::from_secs(8));
    }
    o
}
fn esc(s: &str) -> String {
    let mut r = String::new();
    for ch in s.chars() {
        match ch {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push(' '),
            c => r.push(c),
        }
    }
    r
}
pub struct Info {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
}
const TRUSTED: &[&str] = &[
    "vcengine (/verif/vc/engine): exact rational-function arithmetic, path forking, SMT encoding",
    "z3 5.x / cvc5 1.1.2 answers unsat",
    "rustc: the library's real source compiled and run at the symbolic scalar instead of f64/f32",
    "machine arithmetic treated as exact real arithmetic; a float literal stands for the simplest rational that rounds to it",
    "libm contracts: sqrt(x)>=0 and sqrt(x)^2=x, sin^2+cos^2=1 and angle addition, exp(a+b)=exp(a)exp(b), log(exp x)=x, atan2 polar form, floor/round bounds",
    "zeros are unsigned; 1/0 is +inf; f64::MAX exceeds every finite value; no overflow or underflow",
];
/// Entry point of a property binary.
pub fn main(info: Info, contracts: Vec<Contract>) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
    }));
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let dir = arg("--verif").unwrap_or_else(|| "/verif".into());
    if let Some(f) = arg("--replay") {
        std::process::exit(replay(&f, &contracts));
    }
    let only = arg("--only");
    let verbose = args.iter().any(|a| a == "-v");
    let t0 = Instant::now();
    let list: Vec<Contract> = contracts
        .iter()
        .filter(|c| only.as_ref().is_none_or(|o| c.name.contains(o.as_str())))
        .filter(|c| thorough || !c.thorough || only.is_some())
        .cloned()
        .collect();
    let n = list.len();
    let queue = Arc::new(Mutex::new((0..n).collect::<Vec<_>>()));
    let (tx, rx) = mpsc::channel();
    let workers: usize = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    let list = Arc::new(list);
    let started: Arc<Mutex<FxHashMap<usize, Instant>>> = Default::default();
    for _ in 0..workers.min(n) {
        let (queue, tx, list, started) = (queue.clone(), tx.clone(), list.clone(), started.clone());
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                loop {
                    let Some(i) = ({
                        let mut q = queue.lock().unwrap();
                        if q.is_empty() { None } else { Some(q.remove(0)) }
                    }) else {
                        break;
                    };
                    started.lock().unwrap().insert(i, Instant::now());
                    let o = run_one(&list[i], seed, thorough);
                    started.lock().unwrap().remove(&i);
                    if tx.send((i, o)).is_err() {
                        break;
                    }
                }
            })
            .unwrap();
    }
    let deadline = Duration::from_secs(if thorough { 820 } else { 620 });
    let mut outs: Vec<Option<Outcome>> = vec![None; n];
    let mut got = 0;
    while got < n {
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok((i, o)) => {
                if verbose {
                    let tot: u64 = o.proved.iter().map(|x| x.1.iter().sum::<u64>()).sum();
                    eprintln!(
                        "  {:40} {:6.2}s paths {} branches {} proved {} failed {} queries {} ({:.1}s) eval {} aband {}",
                        o.name, o.wall, o.paths, o.branches, tot, o.nfailed, o.queries, o.solver, o.evaluations, o.abandoned
                    );
                    for f in &o.failed {
                        eprintln!("      FAIL {} {:?} choices {:?} model {:?}\n           {}", f.name, f.status, f.choices, f.model, f.detail);
                    }
                }
                outs[i] = Some(o);
                got += 1;
            }
            Err(_) => {
                if t0.elapsed() > deadline {
                    break;
                }
                // a contract that overruns its own limit by far does not terminate
                let st = started.lock().unwrap();
                let stuck: Vec<usize> = st
                    .iter()
                    .filter(|(i, t)| t.elapsed().as_secs() > list[**i].limit_s * if thorough { 4 } else { 1 } + 60)
                    .map(|x| *x.0)
                    .collect();
                let busy = st.len();
                drop(st);
                if !stuck.is_empty() && stuck.len() >= busy && queue.lock().unwrap().is_empty() {
                    break;
                }
            }
        }
    }
    let mut outs: Vec<Outcome> = outs
        .into_iter()
        .enumerate()
        .map(|(i, o)| {
            o.unwrap_or_else(|| Outcome {
                name: list[i].name.into(),
                nfailed: 1,
                failed: vec![Oblig {
                    name: "termination".into(),
                    status: Status::Undecided("the real code did not finish on some path".into()),
                    model: vec![],
                    choices: vec![],
                    detail: String::new(),
                }],
                ..Default::default()
            })
        })
        .collect();
    // obligations that used to be reached must still be reached
    let bl = format!("{dir}/vc/baseline/{}.txt", info.id);
    if args.iter().any(|a| a == "--write-baseline") {
        let mut s = String::new();
        for (c, o) in list.iter().zip(&outs) {
            if !matches!(c.mode, Mode::Sampled(_)) {
                for (k, _) in &o.proved {
                    s.push_str(&format!("{}\t{}\n", o.name, k));
                }
            }
        }
        let _ = std::fs::create_dir_all(format!("{dir}/vc/baseline"));
        std::fs::write(&bl, s).unwrap();
    } else if let Ok(s) = std::fs::read_to_string(&bl) {
        for l in s.lines() {
            if let Some((c, k)) = l.split_once('\t') {
                if let Some(o) = outs.iter_mut().find(|o| o.name == c) {
                    let known = o.proved.iter().any(|x| x.0 == k) || o.failed.iter().any(|x| x.name == k);
                    if !known && o.failed.is_empty() {
                        o.failed.push(Oblig {
                            name: k.into(),
                            status: Status::Undecided("no path reaches this obligation any more".into()),
                            model: vec![],
                            choices: vec![],
                            detail: String::new(),
                        });
                        o.nfailed += 1;
                    }
                }
            }
        }
    }
    let known = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    let mut viol = vec![];
    let mut knowns = vec![];
    for (c, o) in list.iter().zip(&outs) {
        let mut unknown: Vec<&Oblig> = vec![];
        for f in &o.failed {
            let key = format!("known: property={} contract={} obligation={} ", info.id, c.name, f.name);
            match known.lines().find(|l| l.starts_with(&key)) {
                Some(l) => {
                    let t = format!("KNOWN-FINDING: property={} {}", info.id, &l[key.len()..]);
                    if !knowns.contains(&t) {
                        knowns.push(t);
                    }
                }
                None => unknown.push(f),
            }
        }
        if let Some(f) = unknown.first() {
            viol.push((c, o, (*f).clone()));
        }
    }
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replay"));
    let mut lines = vec![];
    for (k, (c, o, f)) in viol.iter().enumerate() {
        let path = format!("{dir}/evidence/replay/{}-{}.txt", info.id, k);
        let mut s = format!("property {}\ncontract {}\nfunctions {}\n", info.id, c.name, c.funcs);
        for f in &o.failed {
            s.push_str(&format!("failed-obligation {}\n  status {:?}\n  detail {}\n", f.name, f.status, f.detail.replace('\n', " ")));
            for (n, v) in &f.model {
                s.push_str(&format!("  verifier-model {n} = {v:e}\n"));
            }
            for (n, v) in &f.choices {
                s.push_str(&format!("  verifier-case {n} = {v}\n"));
            }
        }
        if let Some(h) = &o.hit {
            s.push_str(&format!("replayed-obligation {}\nreplayed-detail {}\nseed {}\n", h.oblig, h.detail.replace('\n', " "), h.seed));
            for (n, v) in &h.vars {
                s.push_str(&format!("var {n} {}\n", v.to_bits()));
            }
            for (n, v) in &h.vars {
                s.push_str(&format!("# {n} = {v:e}\n"));
            }
            for (n, v) in &h.choices {
                s.push_str(&format!("choice {n} {v}\n"));
            }
            s.push_str(&format!("# replay on the real code: bash {dir}/run.sh {} --replay {path}\n", info.id));
        }
        let _ = std::fs::write(&path, s);
        eprintln!("{}: {} :: {} {:?} {}", info.id, c.name, f.name, f.status, f.detail);
        lines.push(format!(
            "VIOLATION property={} replay={}{}",
            info.id,
            path,
            if o.hit.is_some() { "" } else { " no-failing-input-found" }
        ));
    }
    // concrete failing inputs first
    lines.sort_by_key(|l| l.ends_with("found"));
    let mut by = [0u64; 4];
    let (mut disch, mut failed) = (0u64, 0u64);
    let (mut bdisch, mut evals) = (0u64, 0u64);
    let (mut q, mut st, mut paths) = (0u64, 0.0, 0u64);
    let mut cj = vec![];
    let mut samples = vec![];
    for (c, o) in list.iter().zip(&outs) {
        let tot: u64 = o.proved.iter().map(|x| x.1.iter().sum::<u64>()).sum();
        match c.mode {
            Mode::Proof | Mode::Bits => {
                disch += tot;
                failed += o.nfailed;
                for x in &o.proved {
                    for k in 0..4 {
                        by[k] += x.1[k];
                    }
                }
            }
            _ => {
                bdisch += tot;
                evals += o.evaluations;
            }
        }
        q += o.queries;
        st += o.solver;
        paths += o.paths;
        if samples.len() < 8 {
            samples.push(format!("\"{}: {} obligations named {}\"", esc(c.name), tot, esc(&o.proved.iter().take(6).map(|x| x.0.clone()).collect::<Vec<_>>().join(", "))));
        }
        cj.push(format!(
            "{{\"contract\":\"{}\",\"functions\":\"{}\",\"mode\":\"{}\",\"paths\":{},\"discharged\":{},\"failed\":{},\"evaluations\":{},\"solver_s\":{:.2},\"wall_s\":{:.2}}}",
            c.name,
            esc(c.funcs),
            match c.mode {
                Mode::Proof => "proof".to_string(),
                Mode::Bits => "proof: bit-precise, Kani".to_string(),
                Mode::Exact(n) => format!("bounded: exact arithmetic on {} pseudo-random constant inputs", if thorough { n * 5 } else { n }),
                Mode::Sampled(n) => format!("bounded: contract evaluated at f64 on {} pseudo-random inputs", if thorough { n * 10 } else { n }),
            },
            o.paths,
            tot,
            o.nfailed,
            o.evaluations,
            o.solver,
            o.wall
        ));
    }
    let ev = format!(
        "{{\n \"property\":\"{}\",\n \"tier\":\"{}\",\n \"seed\":{},\n \"level\":\"proof\",\n \"coverage\":{{\n  \"obligations\":{},\n  \"discharged\":{},\n  \"discharged_by\":{{\"exact algebra\":{},\"sign reasoning\":{},\"z3\":{},\"cvc5 or portfolio\":{}}},\n  \"checker_cmd\":\"bash run.sh {}\",\n  \"trusted_base\":[{}],\n  \"paths\":{},\n  \"solver_queries\":{},\n  \"solver_s\":{:.2},\n  \"bounded_exact_obligations\":{},\n  \"bounded_sampled_evaluations\":{},\n  \"samples\":[{}],\n  \"contracts\":[\n   {}\n  ]\n }},\n \"assumptions\":[{}],\n \"wall_s\":{:.2},\n \"violations\":{}\n}}\n",
        info.id,
        if thorough { "thorough" } else { "quick" },
        seed,
        disch + failed,
        disch,
        by[0],
        by[1],
        by[2],
        by[3],
        info.id,
        TRUSTED.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        paths,
        q,
        st,
        bdisch,
        evals,
        samples.join(","),
        cj.join(",\n   "),
        info.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        viol.len()
    );
    if only.is_none() {
        std::fs::write(format!("{dir}/evidence/{}.json", info.id), ev).unwrap();
    }
    for k in &knowns {
        println!("{k}");
    }
    for l in &lines {
        println!("{l}");
    }
    println!(
        "{}: {} contracts, {} paths, {} obligations discharged ({} algebra, {} z3, {} cvc5), {} failed; bounded: {} exact obligations, {} sampled evaluations; {:.1}s",
        info.id,
        n,
        paths,
        disch,
        by[0] + by[1],
        by[2],
        by[3],
        outs.iter().map(|o| o.nfailed).sum::<u64>(),
        bdisch,
        evals,
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if viol.is_empty() { 0 } else { 1 });
}
fn replay(path: &str, contracts: &[Contract]) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut name = String::new();
    let mut seed = 1u64;
    let mut given: FxHashMap<String, f64> = Default::default();
    let mut choices = vec![];
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"contract") => name = w[1].into(),
            Some(&"seed") => seed = w[1].parse().unwrap(),
            Some(&"var") => {
                let (n, v) = l[4..].rsplit_once(' ').unwrap();
                given.insert(n.into(), f64::from_bits(v.parse().unwrap()));
            }
            Some(&"choice") => {
                let (n, v) = l[7..].rsplit_once(' ').unwrap();
                choices.push((n.to_string(), v.parse().unwrap()));
            }
            _ => {}
        }
    }
    let Some(c) = contracts.iter().find(|c| c.name == name) else {
        println!("unknown contract {name}");
        return 2;
    };
    let Some(f) = c.con else {
        println!("no concrete form");
        return 2;
    };
    let ch = if choices.is_empty() { None } else { Some(choices) };
    match concrete(f, seed, given, ch) {
        Some(fl) if !fl.is_empty() => {
            for (n, d) in fl {
                println!("real code fails {name}::{n}: {d}");
            }
            1
        }
        _ => {
            println!("real code meets {name} on this input");
            0
        }
    }
}
