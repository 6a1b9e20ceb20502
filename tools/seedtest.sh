#!/bin/bash
# seedtest.sh <seed id> [check ids...]: validates a planted bug in a scratch copy and runs checks against it.
id=$1; shift
dir=/verif/seeded/$id
w=/tmp/seed.$id
rm -rf "$w"; cp -a /repo "$w"
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=${*:-$prop}
demo() { # run the demo with the scratch copy shown as cwd
  (cd "$w" && timeout 300 bash "$dir/demo.sh" >/tmp/seed.$id.demo 2>&1; echo $?)
}
build() { (cd "$w" && PATH=/opt/node/node_modules/.bin:$PATH node node_modules/typescript/bin/tsc --build . >/tmp/seed.$id.build 2>&1; echo $?); }
build >/dev/null
echo "$id: demo on unchanged: $(demo)"
(cd "$w" && git apply "$dir/patch.diff") || { echo "patch does not apply"; exit 1; }
echo "$id: build: $(build)"
echo "$id: demo on patched: $(demo)"
if [ -z "$NOTEST" ]; then
  cp /opt/vp/vitest.setup.ts $w/vp.setup.ts; sed "s#/repo#$w#g; s#/opt/vp/vitest.setup.ts#$w/vp.setup.ts#" /opt/vp/vitest.config.ts > $w/vp.config.ts
  (cd "$w" && export HOME=/root CI=1 TZ=UTC PATH=/opt/node/node_modules/.bin:$PATH; timeout 300 node node_modules/vitest/vitest.mjs run --config $w/vp.config.ts 2>&1 | grep -E "Tests|FAIL|Error" | head -8)
fi
for c in $checks; do
  echo "-- $c"; (cd /verif && VERIF_REPO=$w ./run.sh check.mjs $c 2>&1 | tail -6 | cut -c1-300); done
rm -rf "$w"
