#!/bin/bash
# development: plant.sh <id>...: validate planted bugs in a scratch copy of /repo
# (applies, stable tests pass, demo fails with it and passes without)
P=/tmp/pl
[ -d $P ] || cp -a /repo $P
for id in "$@"; do
  S=/verif/seeded/$id
  git -C $P checkout -q -- . ; git -C $P fetch -q /repo HEAD && git -C $P reset -q --hard FETCH_HEAD
  git -C $P apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  . /opt/vp/env.sh; export CARGO_TARGET_DIR=$P/target
  (cd $P && timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/pl.log 2>&1)
  python3 /opt/vp/results.py /tmp/pl.json cargo:/tmp/pl.log > /dev/null 2>&1
  python3 - $id <<'X'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/pl.json'))
def find(o,k):
    if isinstance(o,dict):
        if k in o: return o[k]
        for v in o.values():
            x=find(v,k)
            if x is not None: return x
st=b.get('stable') or find(b,'stable') or find(b,'pass')
ps=find(r,'passed') or find(r,'pass')
miss=[t for t in st if t not in set(ps or [])]
print(sys.argv[1],'tests:', 'ok' if not miss else f'{len(miss)} missing: {miss[:3]}', len(ps or []))
X
  (cd $P && bash $S/demo.sh > /tmp/pl.demo1 2>&1); a=$?
  git -C $P checkout -q -- .
  (cd $P && bash $S/demo.sh > /tmp/pl.demo0 2>&1); b=$?
  echo "$id demo: unchanged $b, planted $a $(tail -1 /tmp/pl.demo1 | cut -c1-150)"
done
