#!/bin/bash
# seedtest.sh <seeded id> [property ...] : confirms a planted bug in a private copy of /repo (mount namespace):
# builds, runs the repository's tests, the demonstration with and without the change, and the quick checks.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/wt/$id
[ "$1" = "--nocheck" ] && { NOCHECK=1; shift; }
rm -rf /tmp/wt/$id /tmp/wt/b_$id; mkdir -p /tmp/wt; cp -a /repo $W
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export VERIF_BUILD=/tmp/wt/b_$id; mkdir -p $VERIF_BUILD; cp -a /verif/build/ccache $VERIF_BUILD/ 2>/dev/null
cat > /tmp/wt/$id.sh <<EOF
mount --bind $W /repo
D=\$(mktemp -d); cp -r $S \$D/d; rm -f \$D/d/*.diff \$D/d/meta.json
cd /repo
git apply $S/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > /tmp/wt/$id.build 2>&1 || { echo "$id BUILD FAILS"; tail -20 /tmp/wt/$id.build; exit 1; }
bash /opt/vp/test.sh /tmp/wt/$id.json > /tmp/wt/$id.test 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/wt/$id.json'))['passed'])
print('$id', 'tests: all pass' if b<=p else 'TESTS FAIL: %s' % sorted(b-p)[:5])
P
cd /repo; timeout 300 bash \$D/d/demo.sh > /tmp/wt/$id.demo1 2>&1; echo "$id demo with the change: exit \$? (expected non-zero) \$(tail -1 /tmp/wt/$id.demo1 | cut -c1-200)"
if [ -z "$NOCHECK" ]; then cd /verif; for p in $props; do python3 bin/check.py \$p --tier quick > /tmp/wt/$id.\$p.log 2>&1; echo "$id check \$p: exit \$? \$(grep -c ^VIOLATION /tmp/wt/$id.\$p.log) violations; \$(grep -m1 -B1 ^VIOLATION /tmp/wt/$id.\$p.log | head -1 | cut -c1-200)"; done; fi
cd /repo; git apply -R $S/patch.diff; bash /opt/vp/build.sh > /tmp/wt/$id.build2 2>&1
timeout 300 bash \$D/d/demo.sh > /tmp/wt/$id.demo0 2>&1; echo "$id demo without the change: exit \$? (expected 0) \$(tail -1 /tmp/wt/$id.demo0 | cut -c1-200)"
rm -rf \$D
EOF
unshare -m bash /tmp/wt/$id.sh < /dev/null
rm -rf /tmp/wt/$id /tmp/wt/b_$id /tmp/wt/$id.sh
