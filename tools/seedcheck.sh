#!/bin/bash
# usage: seedcheck.sh ID : validates a planted change in the scratch copy /tmp/seed/repo (made with cp -a /repo)
# builds, runs the stable tests, and runs the demonstration with and without the change
. /opt/vp/env.sh
S=/verif/seeded/$1; R=/tmp/seed/repo
cd $R && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $S/demo.sh > /tmp/seed/$1.clean.log 2>&1; c=$?
git apply $S/patch.diff || exit 9
(cargo test --workspace --all-features --no-run --offline && for f in "" macros tracing remote; do cargo check -p kameo --no-default-features --features "$f" --offline || exit 1; done; cargo check -p kameo_actors --offline) > /tmp/seed/$1.build.log 2>&1 || { echo "$1 BUILD FAILS"; tail -20 /tmp/seed/$1.build.log; git checkout -q -- .; exit 8; }
mkdir -p /tmp/seed/logs
timeout -k 10 400 cargo test --workspace --all-features --no-fail-fast --offline --lib --bins --tests -- --test-threads 8 > /tmp/seed/logs/unit.log 2>&1
timeout -k 10 400 cargo test --workspace --all-features --no-fail-fast --offline --doc -- --test-threads 8 > /tmp/seed/logs/doc.log 2>&1
python3 /opt/vp/results.py /tmp/seed/$1.json "cargo:/tmp/seed/logs/*.log" > /dev/null 2>&1
t=$(python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; d=json.load(open(f'/tmp/seed/{sys.argv[1]}.json'))
p=d.get('passed') or [k for k,v in d.items() if v in('pass','passed',True)]
print(len([x for x in b if x not in set(p)]), [x for x in b if x not in set(p)][:5])
P
)
bash $S/demo.sh > /tmp/seed/$1.patched.log 2>&1; p=$?
git checkout -q -- .
echo "$1: demo clean=$c patched=$p; stable tests failing: $t"
