#!/bin/bash
# survey.sh ID...: how many of a check's runs each planted bug fails
cd "$(dirname "$0")/.." || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
b=$PWD/seeded/$id
p=${P:-$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")}
git -C /repo apply "$b/patch.diff" || { echo "$id does not apply"; continue; }
./build.sh && SIM_LIST=1 ./sim/target/release/sim check $p > /tmp/sv.txt 2>&1
git -C /repo checkout -q -- .
echo "$id $p violating: $(grep -c '^LIST' /tmp/sv.txt) of $(grep -o 'runs=[0-9]*' /tmp/sv.txt|head -1) $(grep -o ' in [0-9.]* s' /tmp/sv.txt|head -1)"
done
