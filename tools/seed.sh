#!/bin/bash
# Plant a seeded bug in a bind-mounted scratch copy of /repo and report: build, tests, demo, checks.
# usage: tools/seed.sh <id>...   (scratch copy in /tmp/w/copy; private mount namespace, /repo itself untouched)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/w/copy /tmp/w/seedlog
for id in "$@"; do
cat > /tmp/w/inner.sh <<I
set -u
mount --bind /tmp/w/copy /repo || exit 9
cd /repo
git fetch -q $V/../repo 2>/dev/null
git checkout -q -- . && git clean -fdq
D=$V/seeded/$id
T=/tmp/w/demo.$id; rm -rf /tmp/w/demo.$id; mkdir -p \$T; cp -a \$D/. \$T/; rm -f \$T/*.diff \$T/meta.json
if [ -z "\${NOCLEAN:-}" ]; then timeout 300 bash \$T/demo.sh > /tmp/w/seedlog/$id.clean 2>&1; echo "demo clean rc=\$?"; fi
git apply --check \$D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 8; }
git apply \$D/patch.diff
if [ -z "\${NOTEST:-}" ]; then
bash /opt/vp/build.sh > /tmp/w/seedlog/$id.build 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/w/seedlog/$id.json 2>&1 | tail -1
fi
timeout 300 bash \$T/demo.sh > /tmp/w/seedlog/$id.demo 2>&1; echo "demo patched rc=\$?"
P=\$(python3 -c "import json;print(json.load(open('\$D/meta.json'))['property'])")
cd $V; timeout 900 python3 check.py \$P 2>&1 | grep -v KNOWN | cut -c1-200 | head -6
cd /repo; git checkout -q -- .
rm -rf /tmp/w/demo.$id
I
echo "== $id"; unshare -Urm bash /tmp/w/inner.sh
done
