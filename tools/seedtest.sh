#!/bin/bash
# seedtest.sh ID [nocheck|notest] : build+test+demo a planted bug in a scratch copy; then its property's quick check
id=$1; mode=$2
S=/tmp/seedtest/$id; rm -rf "$S"; mkdir -p "$S"
cp -a /repo "$S/repo"; git -C "$S/repo" checkout -q -- . 
git -C "$S/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
cp -a /opt/eustace-py3 "$S/tree"
. /opt/vp/py3/common.sh
TREE=$S/tree; export PYTHONPATH=$SUPPORT/compat:$TREE/src
PYTHONPATH= "$PY" "$SUPPORT/translate.py" "$S/repo" "$TREE" > "$S/translate.log" 2>&1
extensions || echo "$id: extension build failed"
res="$id:"
if [ "$mode" != notest ]; then
mkdir -p "$S/reports"
(cd "$TREE/src" && LD_LIBRARY_PATH=$SUPPORT/lib:/opt/venv/lib timeout -k 10 780 "$PY" -m pytest -c "$SUPPORT/pytest.ini" --rootdir="$TREE/src" -q -n 6 -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml="$S/reports/pytest.xml" eumopps eustace) > "$S/test.log" 2>&1
: > "$S/reports/cpp.lines"
if grep -q '^+++ b/src/cpp' /verif/seeded/$id/patch.diff; then
  cmake -S "$S/repo/src/cpp" -B "$S/cpp" -DON_CEMS=OFF -DCMAKE_CXX_STANDARD=14 -Wno-dev > "$S/cpp.log" 2>&1 && make -C "$S/cpp" -j8 >> "$S/cpp.log" 2>&1 || res="$res CPPBUILDFAIL"
  (cd "$S/cpp" && timeout 60 ./eustace/test/test_eustace) > "$S/reports/cppunit.txt" 2>&1
  "$PY" "$SUPPORT/cppunit.py" "$S/reports/cppunit.txt" > "$S/reports/cpp.lines"
else
  "$PY" "$SUPPORT/cppunit.py" /opt/eustace-py3/reports/cppunit.txt > "$S/reports/cpp.lines"
fi
PYTHONPATH= python3 /opt/vp/results.py "$S/out.json" "junit:$S/reports/pytest.xml" "lines:$S/reports/cpp.lines" > /dev/null
res="$res tests-missing=$(python3 -c "
import json
o=json.load(open('$S/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])), sorted(set(b['stable'])-set(o['passed']))[:2])")"
fi
(cd "$S/repo" && DEMO_TREE=$TREE bash /verif/seeded/$id/demo.sh) > "$S/demo.log" 2>&1; res="$res demo-with=$?"
(cd /repo && bash /verif/seeded/$id/demo.sh) > "$S/demo0.log" 2>&1; res="$res demo-clean=$?"
if [ "$mode" != nocheck ]; then
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
unset PYTHONPATH
VERIF_REPO=$S/repo bash /verif/bin/check $prop quick > "$S/check.log" 2>&1; rc=$?
res="$res check[$prop]=$rc $(grep -c VIOLATION "$S/check.log")"
fi
echo "$res" | tee -a /tmp/seedtest/results.txt
rm -rf "$S/repo" "$S/tree" "$S/cpp"
