#!/bin/bash
# tryseed.sh ID...: demo on the clean tree, then with the patch: tests, demo, the check of its property. Development helper.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
for id in "$@"; do
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$(mktemp -d)
  cp -r $s/. $t/; rm -f $t/patch.diff $t/meta.json
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $t/demo.sh >/tmp/demo.log 2>&1; d0=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf $t; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/tb.log 2>&1
  pass=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
def g(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    return set(x)
print(len(g(b)-g(t)))")
  bash $t/demo.sh >/tmp/demo2.log 2>&1; d1=$?
  out=$(cd /verif && python3 check.py $p 2>&1 | tail -3); 
  git checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1; tests lost=$pass; check: $(echo "$out" | tail -1)"
  echo "$out" | head -2 | cut -c1-220
  rm -rf $t
done
bash /opt/vp/build.sh >/dev/null 2>&1
