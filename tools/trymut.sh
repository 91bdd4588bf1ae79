#!/bin/bash
# trymut.sh NAME PATCH|revert:COMMIT [PROPS...]: which checks notice the change? Works on a scratch copy of /repo.
name=$1; what=$2; shift 2
d=/tmp/mut/$name; rm -rf "/tmp/mut/$name"; mkdir -p "$d/repo"
git -C /repo archive HEAD src generator | tar -x -C "$d/repo"
if [[ $what == revert:* ]]; then git -C /repo show "${what#revert:}" -- src generator | (cd "$d/repo" && patch -R -p1 -s) || { echo "$name: patch failed"; exit 2; }
else (cd "$d/repo" && patch -p1 -s < "$what") || { echo "$name: patch failed"; exit 2; }; fi
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21}
for p in $props; do
  SIM_REPO=$d/repo SIM_WORK=$d SIM_SCALE=${SIM_SCALE:-0.1} python3 /verif/tools/check.py $p > $d/$p.log 2>&1; rc=$?
  case $rc in 0) ;; 1) echo "$name $p CAUGHT $(head -1 $d/$p.log | cut -c1-200)";; *) echo "$name $p ERROR $(tail -3 $d/$p.log | cut -c1-300)";; esac
done
rm -rf "/tmp/mut/$name"
