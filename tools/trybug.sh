#!/bin/bash
# trybug.sh ID [demo] [test] [check]: development helper. Applies seeded/ID/patch.diff in a scratch copy of the repository
# that is bind-mounted over /repo in a private mount namespace, builds it there and runs the demo, the stable tests and the
# property's check. Nothing is changed in /repo.
ID=$1; shift; WHAT=${*:-demo test check}
SC=${SC:-/tmp/sc}
[ -d $SC/repo ] || { mkdir -p $SC && cp -a /repo $SC/repo; }
S=/verif/seeded/$ID
PROP=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C $SC/repo checkout -q -- . && git -C $SC/repo fetch -q /repo HEAD && git -C $SC/repo reset -q --hard FETCH_HEAD
git -C $SC/repo apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
if [[ $WHAT == *demo* ]]; then (cd /repo && bash $S/demo.sh > $SC/demo0.log 2>&1; echo "$ID demo unchanged: $? (want 0)"); fi
unshare -Urm bash -c "
mount --bind $SC/repo /repo
if [[ '$WHAT' == *demo* || '$WHAT' == *test* ]]; then bash /opt/vp/build.sh > $SC/build.log 2>&1 || { echo '$ID BUILD FAILED'; tail -5 $SC/build.log; exit 2; }; fi
if [[ '$WHAT' == *demo* ]]; then cd /repo && bash $S/demo.sh > $SC/demo1.log 2>&1; echo '$ID demo patched:' \$? '(want nonzero)'; tail -2 $SC/demo1.log; fi
if [[ '$WHAT' == *test* ]]; then bash /opt/vp/test.sh $SC/out.json > $SC/test.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$SC/out.json'))
f=sorted(set(b['stable'])-set(o['passed'])-set(json.load(open('$SC/nsfail.json'))))
print('$ID stable tests failing:',len(f),f[:4])
P
fi
if [[ '$WHAT' == *check* ]]; then for P in $PROP; do cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick IOX_VERIF_EVIDENCE=$SC/ev IOX_VERIF_BUILD_DIR=$SC/vb timeout 900 python3 tools/check.py \$P > $SC/check.log 2>&1; echo '$ID check' \$P: \$?; grep -E 'VIOLATION|VIOLATED|CHECK-ERROR' $SC/check.log | head -4 | cut -c1-400; done; fi
"
git -C $SC/repo checkout -q -- .
