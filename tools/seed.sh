#!/bin/bash
# bash tools/seed.sh ID [notest] [CHECK...] : confirm a planted bug in a private copy of /repo that is bind-mounted over /repo in a
# mount namespace of its own: it applies, builds, passes the stable tests, its demo fails with it and passes without it;
# then run the check of its property (or the given ones) and say whether it reports the bug.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
NOTEST=; [ "${1:-}" = notest ] && { NOTEST=1; shift; }
D=$V/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/reports" "$W/demo"; cp "$D"/* "$W/demo"/; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cat > "$W/run.sh" <<EOS
mount --bind $W/repo /repo && mount --bind $W/reports /opt/vp/reports || exit 9
cd /repo
export HOME=/root
bash /opt/vp/build.sh >$W/build0.log 2>&1 || echo "BUILD0 FAILED"
( timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1 ); echo "demo without: \$? (0 expected)"
git apply $D/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$W/build1.log 2>&1 || echo "BUILD FAILED"
( timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1 ); echo "demo with: \$? (nonzero expected)"; tail -3 $W/demo1.log
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
/usr/bin/python3 - <<'EOP'
import json
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = set(json.load(open('$W/t.json'))['passed'])
print('tests:', 'all stable pass' if b <= o else 'BROKEN ' + str(sorted(b - o)[:5]))
EOP
fi
for c in \$CHECKS; do
  ( cd $V; s=\$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh \$c > $W/c.log 2>&1; rc=\$?; e=\$(date +%s); echo "check \$c: rc=\$rc (\$((e-s)) s) \$(grep -c VIOLATION $W/c.log) violation line(s)"; [ \$rc = 1 ] && grep -m3 '^  C' $W/c.log | cut -c1-220; [ \$rc != 1 ] && tail -3 $W/c.log | cut -c1-300 )
done
EOS
CHECKS="$*"; [ -n "$CHECKS" ] || CHECKS=$(python3 -c "import json; print(json.load(open('$D/meta.json'))['property'])")
echo "== $ID"
CHECKS="$CHECKS" unshare -m bash "$W/run.sh"
rm -rf "${W:?}"
