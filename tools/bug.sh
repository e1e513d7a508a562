#!/bin/bash
# bug.sh ID [steps]: try a planted bug in a private mount namespace (a scratch copy is bound over /repo).
# steps: any of c(lean demo) d(emo) t(ests) k(check), default all
id=$1; steps=${2:-cdtk}; S=/verif/seeded/$id; W=$(mktemp -d /tmp/bug.XXXXXX)
prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W/repo; cp -a /opt/vp/state $W/state; cp -r $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
cat > $W/run.sh <<EOF
mount --bind $W/repo /repo; mount --bind $W/state /opt/vp/state; cd /repo
if [[ $steps == *c* ]]; then bash $W/demo/demo.sh >$W/clean.log 2>&1; rc=\$?; echo "$id: demo on the clean tree: \$rc"; [ \$rc = 0 ] || tail -5 $W/clean.log; fi
git apply $S/patch.diff || exit 9
if [[ $steps == *[dt]* ]]; then bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $W/build.log; }; fi
if [[ $steps == *d* ]]; then bash $W/demo/demo.sh >$W/demo.log 2>&1; rc=\$?; echo "$id: demo with the patch: \$rc  \$(tail -1 $W/demo.log)"; fi
if [[ $steps == *t* ]]; then bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1; echo "$id: tests: \$(python3 /verif/tools/cmp.py $W/o.json | tail -1)"; fi
if [[ $steps == *k* ]]; then cd /verif; mkdir -p $W/out; VERIF_SEED=\${VERIF_SEED:-1} VERIF_OUT=$W/out ./check \${CHECK:-$prop} >$W/chk.log 2>&1; echo "$id: check \${CHECK:-$prop} exit \$?"; grep -E "scenario|VIOL|harness|inconcl|^C[0-9]" $W/chk.log | cut -c1-260 | head -6; fi
EOF
unshare -m bash $W/run.sh; rm -rf "$W"
