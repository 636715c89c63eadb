#!/bin/bash
# the modules of the wrapper that do not need its Go part (all but ffi), as modules of this crate
out="$(cd "$(dirname "$0")/../.." && pwd)/build/ffi_mods.rs"
src=/repo/recursion-gnark/ffi/src
new=$(grep -E '^\s*(pub |pub\(crate\) )?mod [a-z0-9_]+;' $src/lib.rs | sed -E 's/.*mod ([a-z0-9_]+);.*/\1/' | grep -vx ffi | while read -r m; do
  f=$src/$m.rs; [ -f "$f" ] || f=$src/$m/mod.rs
  echo "#[path = \"$f\"] #[allow(warnings)] pub mod $m;"
done)
[ "$(cat "$out" 2>/dev/null)" = "$new" ] || echo "$new" > "$out"
