#!/bin/bash
# check.sh PROPERTY [--replay FILE] [--only SUB]: builds the harness from /repo's tree, runs one check.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
prop="$1"; needs=""
case "$prop" in
  F03) crate=avx; needs="avx2" ;;
  F05) crate=avx512; needs="avx512f avx512bw avx512cd avx512dq avx512vl" ;;
  A0*) crate=alg ;;
  C0*) crate=zkit ;;
  Z0*) crate=zkvm ;;
  R0*|J0*) crate=rec ;;
  G04) crate=groth ;;
  G05) crate=wrap ;;
  G0*) crate=ffi ;;
  *) crate=starky ;;
esac
for flag in $needs; do
  grep -qw "$flag" /proc/cpuinfo && continue
  echo "SKIPPED property=$prop: this CPU has no $flag"
  mkdir -p "$here/evidence"
  cat > "$here/evidence/$prop.json" <<E
{"property": "$prop", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-1}, "level": "exploration", "wall_s": 0, "assumptions": ["this CPU has no $flag: nothing explored"],
 "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "none", "samples": []}}
E
  exit 0
done
bash "$here/tools/build.sh" "$crate" || exit 2
dir="$CARGO_TARGET_DIR"; [ -f "$here/h/$crate/rustflags" ] && dir="$CARGO_TARGET_DIR-$crate"
limit=870; [ "$VERIF_TIER" = thorough ] && limit=86400
exec timeout -k 5 "$limit" "$dir/release/vh-$crate" "$@"
