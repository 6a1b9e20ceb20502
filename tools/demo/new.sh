#!/bin/bash
# new.sh <id> <property> <needs> <what>: makes seeded/<id> from the diff of the scratch copy /tmp/plant and stdin as demo.mjs
d=/verif/seeded/$1; mkdir -p $d
cp /verif/tools/demo/lib.mjs /verif/tools/demo/demo.sh $d/
cat > $d/demo.mjs
git -C /tmp/plant diff > $d/patch.diff
git -C /tmp/plant checkout -q -- .
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
test -s $d/patch.diff || echo "EMPTY PATCH"
