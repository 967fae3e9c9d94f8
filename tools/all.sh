#!/bin/bash
# all.sh SEEDS... : all checks on the given seeds, summary
for s in "$@"; do for i in $(seq -w 1 ${N:-36}); do
 o=$(VERIF_SEED=$s python3 /verif/check.py C$i 2>&1); rc=$?
 if [ $rc != 0 ]; then echo "== C$i seed $s rc $rc"; echo "$o" | tail -4 | cut -c1-1200; fi
done; echo "seed $s done"; done
