#!/bin/bash
# seedtest.sh ID [notests] : check a planted bug in a scratch copy: demo clean/patched, repository tests, the property's check
id=$1; S=/verif/seeded/$id
d=/tmp/seed_$id; rm -rf "$d"; mkdir -p $d; cp -a /repo/. $d/
demo=/tmp/seeddemo_$id; rm -rf "$demo"; mkdir -p $demo; cp -a $S/. $demo/; rm -f $demo/*.diff $demo/meta.json
export TZ=UTC MPLBACKEND=Agg PWNLIB_NOTERM=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rund() { ( cd $d && PYTHONPATH=$d/shepherd_core:$d/shepherd_data timeout 300 bash $demo/demo.sh >$d/demo_$1.log 2>&1; echo $? ); }
c=$(rund clean)
git -C $d apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
p=$(rund patched)
t=skipped
if [ "$2" != notests ]; then
  run() { ( cd $d/$1 && XDG_CACHE_HOME=$d/.cache_$1 HOME=$d/.home PYTHONPATH=$d/shepherd_core:$d/shepherd_data /opt/venv/bin/python -m pytest tests -c pyproject.toml --rootdir=$d -o addopts= -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --basetemp=$d/.tmp_$1 -o junit_family=xunit2 --junitxml=$d/.$1.xml </dev/null >$d/.$1.log 2>&1 ); }
  mkdir -p $d/.home; run shepherd_core & run shepherd_data & wait
  t=$(/usr/bin/python3 /opt/vp/results.py $d/.out.json "junit:$d/.*.xml" >/dev/null 2>&1; python3 - $d <<'P'
import json,sys
t=json.load(open(sys.argv[1]+'/.out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=sorted(set(b['stable'])-set(t['passed']))
print('pass' if not miss else 'FAIL %s'%miss[:3])
P
)
fi
SYMX_REPO=$d SYMX_NOEV=1 /opt/venv/bin/python /verif/check.py $prop >$d/.check.log 2>&1; rc=$?
echo "$id [$prop] demo clean=$c patched=$p tests=$t check=$rc $(grep -m1 'violated:' $d/.check.log | cut -c1-200)"
rm -rf "$d" "$demo"
