#!/bin/bash
# try.sh: run each planted bug's own check against it
cd /verif
for d in ${@:-seeded/*}; do n=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$n/patch.diff || { echo $n NOAPPLY; continue; }
 o=$(python3 check.py $p 2>&1); r=$?
 git -C /repo checkout -- .
 echo "$n $p exit=$r $(echo "$o" | grep -E '^(VIOLATION|what fails|ERROR)' | cut -c1-220 | tr '\n' '|')"
done
