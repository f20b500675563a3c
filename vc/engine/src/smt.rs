//! SMT back ends driven over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}
pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn spawn() -> Z3 {
    let mut child = Command::new("z3-new")
        .args(["-in", "-smt2", "-memory:3000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("z3-new must be installed");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Z3 { child, inp, out }
}
#[derive(Default)]
pub struct Smt {
    z: Option<Z3>,
    pub queries: u64,
    pub time: Duration,
    last: Duration,
    pub z3_decided: u64,
    pub cvc5_decided: u64,
}
impl Smt {
    /// Runs one script; `vars` are asked for when the answer is sat.
    ///
    /// The limit is meant as computing time: where the solver was kept from its processor, an
    /// answer it did not reach is asked for again, with longer to wait.
    pub fn check(&mut self, decls: &str, vars: &[String], ms: u64) -> (Ans, Vec<(String, f64)>) {
        let mut wait = ms;
        for _ in 0..3 {
            let before = self.cpu_ms();
            let r = self.check_once(decls, vars, wait);
            let (Some(b), Some(a)) = (before, self.cpu_ms()) else { return r };
            let used = a.saturating_sub(b);
            if r.0 != Ans::Unknown || used + 20 >= ms * 7 / 10 {
                return r;
            }
            if self.last < Duration::from_millis(wait * 9 / 10) {
                // gave up of its own accord
                return r;
            }
            wait = (wait * ms / used.max(ms / 8)).min(wait * 6);
        }
        (Ans::Unknown, vec![])
    }
    fn cpu_ms(&mut self) -> Option<u64> {
        let z = self.z.get_or_insert_with(spawn);
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", z.child.id())).ok()?;
        let rest: Vec<&str> = stat.rsplit(')').next()?.split_whitespace().collect();
        let ticks: u64 = rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?;
        Some(ticks * 10)
    }
    fn check_once(&mut self, decls: &str, vars: &[String], ms: u64) -> (Ans, Vec<(String, f64)>) {
        let t0 = Instant::now();
        self.queries += 1;
        let mut script = String::from("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
        script.push_str(&format!("(set-option :timeout {ms})\n"));
        script.push_str(decls);
        script.push_str("(check-sat)\n(echo \"done\")\n");
        if std::env::var_os("VC_DUMP").is_some() {
            eprintln!("---- query\n{decls}");
        }
        let mut ans = Ans::Unknown;
        let mut model = vec![];
        for attempt in 0..2 {
            if self.z.is_none() {
                self.z = Some(spawn());
            }
            let z = self.z.as_mut().unwrap();
            let ok = z.inp.write_all(script.as_bytes()).is_ok() && z.inp.flush().is_ok();
            let mut dead = !ok;
            if ok {
                loop {
                    let mut line = String::new();
                    match z.out.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            dead = true;
                            break;
                        }
                        Ok(_) => {}
                    }
                    match line.trim() {
                        "sat" => ans = Ans::Sat,
                        "unsat" => ans = Ans::Unsat,
                        "unknown" => {}
                        "done" => break,
                        l => {
                            if std::env::var_os("VC_DUMP").is_some() {
                                eprintln!("z3: {l}");
                            }
                        }
                    }
                }
            }
            if dead {
                self.z = None;
                if attempt == 0 {
                    continue;
                }
            }
            break;
        }
        if ans == Ans::Sat && !vars.is_empty() {
            if let Some(z) = self.z.as_mut() {
                let s = format!("(get-value ({}))\n(echo \"done\")\n", vars.join(" "));
                let _ = z.inp.write_all(s.as_bytes());
                let _ = z.inp.flush();
                let mut all = String::new();
                loop {
                    let mut line = String::new();
                    match z.out.read_line(&mut line) {
                        Ok(0) | Err(_) => break,
                        Ok(_) => {}
                    }
                    if line.trim() == "done" {
                        break;
                    }
                    all.push_str(&line);
                }
                model = parse_values(&all);
            }
        }
        if ans != Ans::Unknown {
            self.z3_decided += 1;
        }
        self.last = t0.elapsed();
        self.time += self.last;
        (ans, model)
    }
    /// Asks several differently seeded solvers at once and takes the first answer: whether one
    /// search settles a hard query hangs on the order its terms happen to come in.
    pub fn portfolio(&mut self, decls: &str, ms: u64) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        let secs = (ms / 1000).max(1);
        let z = |bin: &'static str, opts: &str, check: &str| (bin, vec!["-in".to_string(), "-smt2".into(), "-memory:2000".into(), format!("-T:{secs}")], format!("{opts}{decls}{check}\n"));
        let jobs = vec![
            z("z3-new", "(set-option :smt.random_seed 7)\n(set-option :nlsat.seed 7)\n", "(check-sat)"),
            z("z3-new", "(set-option :smt.random_seed 23)\n(set-option :smt.arith.solver 2)\n", "(check-sat)"),
            z("z3-new", "", "(check-sat-using (then simplify purify-arith qfnra-nlsat))"),
            z("z3-new", "(set-option :nlsat.seed 11)\n", "(check-sat-using (then simplify solve-eqs purify-arith qfnra-nlsat))"),
            z("z3", "", "(check-sat)"),
            ("cvc5", vec!["--lang=smt2".into(), format!("--tlimit={ms}"), "-q".into()], format!("(set-logic ALL)\n{decls}(check-sat)\n")),
        ];
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        let mut n = 0;
        for (bin, args, script) in jobs {
            let Ok(mut child) = Command::new(bin).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
            let (mut inp, mut out) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
            kids.push(child);
            n += 1;
            let tx = tx.clone();
            std::thread::spawn(move || {
                let _ = inp.write_all(script.as_bytes());
                drop(inp);
                let mut s = String::new();
                let _ = std::io::Read::read_to_string(&mut out, &mut s);
                let a = match s.lines().map(|l| l.trim()).find(|l| !l.is_empty()) {
                    Some("sat") => Ans::Sat,
                    Some("unsat") => Ans::Unsat,
                    _ => Ans::Unknown,
                };
                let _ = tx.send(a);
            });
        }
        let mut ans = Ans::Unknown;
        for _ in 0..n {
            match rx.recv_timeout(Duration::from_millis(ms * 3 + 2000)) {
                Ok(Ans::Unknown) => {}
                Ok(a) => {
                    ans = a;
                    break;
                }
                Err(_) => break,
            }
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        self.time += t0.elapsed();
        if ans != Ans::Unknown {
            self.z3_decided += 1;
        }
        ans
    }
    pub fn cvc5(&mut self, decls: &str, ms: u64) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        let script = format!("(set-logic ALL)\n{decls}(check-sat)\n");
        let mut child = match Command::new("cvc5")
            .args(["--lang=smt2", &format!("--tlimit={ms}"), "-q"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => return Ans::Unknown,
        };
        let _ = child.stdin.take().unwrap().write_all(script.as_bytes());
        let out = child.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        self.time += t0.elapsed();
        let a = match out.trim() {
            "sat" => Ans::Sat,
            "unsat" => Ans::Unsat,
            _ => Ans::Unknown,
        };
        if a != Ans::Unknown {
            self.cvc5_decided += 1;
        }
        a
    }
}
/// Parses `((a0 1.5) (a1 (- 2.0)) (a2 (/ 1.0 3.0)))`.
fn parse_values(s: &str) -> Vec<(String, f64)> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    fn val(t: &[String], i: &mut usize) -> f64 {
        if t.get(*i).map(|x| x.as_str()) == Some("(") {
            *i += 1;
            let op = t.get(*i).cloned().unwrap_or_default();
            *i += 1;
            let mut args = vec![];
            while *i < t.len() && t[*i] != ")" {
                args.push(val(t, i));
            }
            *i += 1;
            match (op.as_str(), args.len()) {
                ("-", 1) => -args[0],
                ("-", 2) => args[0] - args[1],
                ("/", 2) => args[0] / args[1],
                ("+", 2) => args[0] + args[1],
                ("*", 2) => args[0] * args[1],
                _ => f64::NAN,
            }
        } else {
            let v = t.get(*i).map(|x| x.trim_end_matches('?').parse().unwrap_or(f64::NAN)).unwrap_or(f64::NAN);
            *i += 1;
            v
        }
    }
    let mut r = vec![];
    let mut i = 1;
    while i < toks.len() {
        if toks[i] == "(" {
            let name = toks.get(i + 1).cloned().unwrap_or_default();
            i += 2;
            let v = val(&toks, &mut i);
            r.push((name, v));
            i += 1;
        } else {
            i += 1;
        }
    }
    r
}
