#!/bin/bash
one(){ b=$1; c=/tmp/plant/cp_$b; rm -rf "$c"; cp -a /repo "$c"; cd "$c"; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=2 MPLBACKEND=Agg PYTHONPATH="$c"
 bash /verif/seeded/$b/demo.sh >/tmp/plant/$b.d0 2>&1; d0=$?
 git apply /verif/seeded/$b/patch.diff || { echo "$b APPLYFAIL"; rm -rf "$c"; return; }
 bash /verif/seeded/$b/demo.sh >/tmp/plant/$b.d1 2>&1; d1=$?
 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider >/tmp/plant/$b.t 2>&1; t=$?
 df=""; if [ $t = 0 ] && [ $d1 != 0 ]; then for d in demos/*.py; do (timeout 600 /opt/venv/bin/python $d --test >/dev/null 2>&1 || echo $d >> /tmp/plant/$b.df) & done; wait; fi; df=$(cat /tmp/plant/$b.df 2>/dev/null); rm -f /tmp/plant/$b.df
 s=OK; [ $d0 = 0 ] && [ $d1 != 0 ] && [ $t = 0 ] && [ -z "$df" ] || s=BAD
 echo "$s $b demo_clean=$d0 demo_bug=$d1 tests_rc=$t demos_failed=[$df] $(tail -1 /tmp/plant/$b.t | cut -c1-80) | $(tail -1 /tmp/plant/$b.d1 | cut -c1-100)"
 rm -rf "$c"; }
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
