#!/bin/bash
# the modules of /repo/groth16, whatever they are called, as modules of this crate
out="$(cd "$(dirname "$0")/../.." && pwd)/build/groth_mods.rs"
new=$(grep -E '^\s*(pub |pub\(crate\) )?mod [a-z0-9_]+;' /repo/groth16/src/lib.rs | sed -E 's/.*mod ([a-z0-9_]+);.*/\1/' | while read -r m; do
  f=/repo/groth16/src/$m.rs; [ -f "$f" ] || f=/repo/groth16/src/$m/mod.rs
  echo "#[path = \"$f\"] #[allow(warnings)] pub mod $m;"
done)
[ "$(cat "$out" 2>/dev/null)" = "$new" ] || echo "$new" > "$out"
