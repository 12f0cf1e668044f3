#!/bin/bash
# apply every seeded change to /repo in turn, run the check of its property, undo; prints what caught it
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAILED"; continue; }
  out=$(python3 run.py $p --tier ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(python3 - $p $id <<'PY'
import json,sys,pathlib
p,i=sys.argv[1:]
e=json.load(open(f'/verif/evidence/{p}.json'))
h=json.load(open(f'/verif/work/{p}.harness.json'))
how=" ".join((["E"] if e["coverage"]["refuted"] else [])+(["H"] if h["nfails"] else [])) or "missed"
f=pathlib.Path("/verif/tools/seeds_how.json"); d=json.loads(f.read_text()) if f.exists() else {}
d[i]=how; f.write_text(json.dumps(d,indent=0,sort_keys=True))
print(how)
PY
)"
done
