#!/bin/bash
# fin.sh C07: write baseline, claim, commit
id=$1; bin=$(echo $id | tr A-Z a-z)
cd /verif/vc && ./target/debug/$bin --verif /verif --write-baseline | tail -1
grep -q "\"$id\"" /verif/tools/claims.py || echo "claim(\"$id\", BASE)" >> /verif/tools/claims.py
python3 /verif/tools/props.py; cd /verif; git add -A; git commit -qm "$id" && git log --oneline | head -1
