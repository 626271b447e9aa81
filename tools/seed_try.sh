#!/bin/bash
# usage: seed_try.sh ID [--notest]: validate /verif/seeded/ID in a scratch copy:
# applies, stable tests pass, demo passes without and fails with the patch,
# and the property's quick check catches it.
id=$1; d=/verif/seeded/$id
w=/tmp/seedtry-$id; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" checkout -q -- . 
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
dd=/tmp/seeddemo-$id; rm -rf "$dd"; mkdir "$dd"; cp -a "$d"/. "$dd"; rm -f "$dd"/*.diff "$dd"/meta.json
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen TZ=UTC
res="$id($prop):"
# demos refer to /repo through cwd; posydon is imported from cwd in the scratch copy
cd "$w"
rundemo() { ( cd "$w"; export PYTHONPATH="$w" PATH_TO_POSYDON=./ PATH_TO_POSYDON_DATA=./posydon/unit_tests/_data/ MESA_DIR=./; timeout 300 bash "$dd/demo.sh" > /tmp/seeddemo-$id.log$1 2>&1 ); }
rundemo 0; r0=$?
git apply "$d/patch.diff" || { echo "$res PATCH DOES NOT APPLY"; rm -rf "$w" "$dd"; exit 1; }
rundemo 1; r1=$?
res="$res demo clean=$r0 patched=$r1"
if [ "$2" != "--notest" ]; then
 t=$(cd "$w"; export PYTHONPATH="$w" PATH_TO_POSYDON=./ PATH_TO_POSYDON_DATA=./posydon/unit_tests/_data/ MESA_DIR=./
 D=$(mktemp -d); /opt/venv/bin/python -m pytest -q -o addopts= -p no:cacheprovider --basetemp="$D/tmp" --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$D/junit.xml" --disable-warnings posydon/unit_tests > $D/log 2>&1
 /usr/bin/python3 /opt/vp/results.py "$D/o.json" "junit:$D/junit.xml" >/dev/null 2>&1
 python3 - "$D/o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return None
bb=names(b); oo=names(o)
print('missing', sorted(bb-oo)[:5] if bb is not None and oo is not None else ('keys',list(b)[:5],list(o)[:5]))
P
 rm -rf "$D")
 res="$res tests: $t"
fi
c=$(SIM_REPO="$w" SIM_EVIDENCE=/tmp/seedev-$id VERIF_SEED=1 timeout 900 /verif/check.sh $prop 2>&1); cr=$?
res="$res check=$cr $(echo "$c" | grep -o 'kind [^ ]*\|minimised: .\{0,120\}' | head -2 | tr '\n' ' ')"
echo "$res"
rm -rf "$w" "$dd" /tmp/seedev-$id
