#!/bin/bash
# Validates a planted bug in a scratch copy of /repo: seedtest.sh ID
# (patch applies to HEAD, builds, stable tests pass, demo passes without and fails with it).
# If the copy's working tree is dirty, its diff is first saved as the patch of ID.
set -e
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); SR=/tmp/w/sr; S=$V/seeded/$ID
[ -d $SR ] || cp -a /repo $SR
cd $SR
mkdir -p $S
if ! git diff --quiet; then git diff > $S/patch.diff; git checkout -q -- .; fi
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
bld() { rm -rf target/debug/.fingerprint/hush-*; cargo build -q --offline 2>&1 | grep -E '^error' || true; }
T=$(mktemp -d); cp -r $S/. $T/; rm -f $T/patch.diff $T/meta.json
bld; if bash $T/demo.sh >/tmp/w/demo0.log 2>&1; then echo "clean demo ok"; else echo "DEMO FAILS ON CLEAN TREE"; cat /tmp/w/demo0.log; fi
git apply $S/patch.diff
bld
cargo nextest run --offline --no-fail-fast --test-threads 8 </dev/null 2>&1 | grep -E 'Summary|FAIL|^error' || true
if timeout 300 bash $T/demo.sh >/tmp/w/demo1.log 2>&1; then echo "DEMO PASSES WITH PATCH"; else echo "patched demo fails (good)"; fi
git checkout -q -- .
python3 -c "import json;d=json.load(open('$S/meta.json'));assert set(d)>={'property','needs','what_it_breaks'}"
rm -rf "$T"
