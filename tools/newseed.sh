#!/bin/bash
# newseed.sh ID: takes the current change of /repo as a planted bug; demo/src/main.rs must be there or follow.
SRC=${SRC:-/repo}; id=$1; d=/verif/seeded/$id; kit=/verif/tools/seedkit
mkdir -p $d/demo/src
[ -n "$(git -C $SRC status --porcelain)" ] && git -C $SRC diff > $d/patch.diff
git -C $SRC checkout -q -- .
cp $kit/demo.sh $d/demo.sh
[ -f $d/demo/Cargo.toml ] || cp $kit/Cargo.toml $d/demo/Cargo.toml
cp -r /verif/stubs/profiler_macro /verif/stubs/franklin-crypto $d/demo/
cp $kit/fib.rs $d/demo/src/
[ -f $d/demo/Cargo.lock ] || cp $kit/Cargo.lock.starky $d/demo/Cargo.lock
