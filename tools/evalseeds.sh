#!/bin/bash
# evalseeds.sh [ids...]: run the property's check with each seed applied
cd /verif/seeded
for d in ${@:-*}; do
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
 s=$(date +%s)
 o=$(VERIF_SEED=${SEED:-1} python3 /verif/check.py ${P:-$p} 2>&1); rc=$?
 git -C /repo checkout -- .
 if [ $rc = 1 ] && echo "$o" | grep -q "VIOLATION property=${P:-$p} "; then echo "caught $d ($(( $(date +%s) - s )) s) $(echo "$o" | grep divergences | cut -c1-${W:-110})"; else echo "MISSED $d rc=$rc"; echo "$o" | tail -3; fi
done
