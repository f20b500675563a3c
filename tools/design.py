import json,re
out=open('/tmp/design_head.md').read()
notes=eval(open('/tmp/notes.py').read())
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i=='C29': continue
    e=json.load(open(f"/verif/evidence/{i}.json")); c=e['coverage']
    pr=[x for x in c['contracts'] if x['mode'].startswith('proof')]
    b=[x['contract'] for x in c['contracts'] if not x['mode'].startswith('proof')]
    out+=f"**{i} — {p['title']}.** {notes[i]} "
    out+=f"*{len(pr)} proved contracts, about {c['discharged']} obligations, {e['wall_s']:.0f} s"
    out+= f"; bounded stand-ins: {', '.join(b)}.*\n\n" if b else ".*\n\n"
out+=open('/tmp/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
