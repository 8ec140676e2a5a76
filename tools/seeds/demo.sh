#!/bin/bash
# Runs the demonstration beside this file as a unit test of a scratch copy of the sources in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
cp -r src Cargo.toml "$scratch/" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$scratch/"
for f in tokens nodes trivias; do
    sed -i 's/#\[derive(Clone)\]/#[derive(Clone, Debug, PartialEq)]/' "$scratch/src/parser/$f.rs"
    grep -q Debug "$scratch/src/parser/$f.rs" || sed -i 's/^pub enum /#[derive(Debug, PartialEq)]\n&/' "$scratch/src/parser/$f.rs"
done
cp "$here/demo.rs" "$scratch/src/seeded_demo.rs"
printf '\n#[cfg(test)]\nmod seeded_demo;\n' >> "$scratch/src/main.rs"
cd "$scratch" || exit 2
export CARGO_TARGET_DIR="$scratch/target" RUSTFLAGS=-Awarnings
cargo test --offline --no-run >build.log 2>&1 || { tail -30 build.log; exit 2; }
ulimit -v 2000000
timeout 60 cargo test --offline seeded_demo -- --test-threads=1 >test.log 2>&1
rc=$?
grep -E '^test |panicked|assertion|left|right|memory' test.log | head -20
grep -q 'test result: ok\. [1-9]' test.log && [ $rc -eq 0 ]
