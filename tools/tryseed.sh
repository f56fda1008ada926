#!/bin/bash
# tryseed.sh ID...: checks each planted bug in a scratch copy of /repo: applies, builds, passes
# the tests, demo fails with it and passes without; then whether its check catches it.
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/tryseed.XXXXXX); R=$W/repo
trap 'rm -rf "$W"' EXIT
cp -a /repo $R
for f in build.sh test.sh; do sed "s#/repo#$R#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$f > $W/$f; done
sed -i "s#/repo\b#$R#g" $R/Makefile $R/example/Makefile $R/gen/Makefile $R/config.status $R/libtool 2>/dev/null
bash $W/build.sh >$W/b 2>&1 || { tail -5 $W/b; exit 1; }
for id in "$@"; do
  S=$V/seeded/$id; P=${CHECK:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  r="$id $P"
  rm -rf $W/demo; cp -a $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
  (cd $R && bash "$W/demo/demo.sh" >$W/out 2>&1) && r="$r clean-ok" || { r="$r CLEAN-DEMO-FAILS"; tail -3 $W/out; }
  git -C $R apply "$S/patch.diff" || { echo "$r DOES-NOT-APPLY"; continue; }
  if bash $W/build.sh >$W/b 2>&1; then
    bash $W/test.sh $W/t.json >/dev/null 2>&1
    r="$r $(python3 -c "import json;d=json.load(open('$W/t.json'));print('tests-ok' if len(d['passed'])==150 else 'TESTS-FAIL %s'%d['failed'][:3])")"
    (cd $R && bash "$W/demo/demo.sh" >$W/out 2>&1) && r="$r DEMO-DOES-NOT-FAIL" || r="$r demo-fails"
    if [ -z "$NOCHECK" ]; then
      s=$(date +%s); VP_REPO=$R python3 $V/check.py $P > $W/chk 2>&1; rc=$?
      r="$r check=$rc $(( $(date +%s)-s ))s"
      grep -m1 VIOLATION $W/chk
    fi
  else r="$r BUILD-FAILS"; tail -3 $W/b; fi
  git -C $R checkout -q -- . ; bash $W/build.sh >/dev/null 2>&1
  echo "$r"
done
