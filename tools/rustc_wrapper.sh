#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: compile as usual, then print the MIR of the three
# library crates of the workspace (nothing is executed).
# Output directory: the directory this copy of the script lies in.
out=$(dirname "$0")/mir
mkdir -p "$out"
"$@" || exit $?
name=""; lib=0
args=()
while [ $# -gt 0 ]; do
  case "$1" in
    --crate-name) name=$2; args+=("$1" "$2"); shift 2;;
    --crate-type) [ "$2" = lib ] && lib=1; args+=("$1" "$2"); shift 2;;
    -C) case "$2" in incremental=*) ;; *) args+=("$1" "$2");; esac; shift 2;;
    --emit=*|--error-format=*|--json=*|--diagnostic-width=*) shift;;
    *) args+=("$1"); shift;;
  esac
done
case "$name" in
  goko|pointcloud|serve_goko)
    [ $lib = 1 ] || exit 0
    dump=()
    [ $name = serve_goko ] && dump=(-Zdump-mir=StateTransform -Zdump-mir-dir="$out/dump_$name")
    "${args[@]}" -Zunpretty=mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off \
      -Ztrim-diagnostic-paths=no "${dump[@]}" -o "$out/$name.mir.tmp" 2>"$out/$name.err" \
      && mv "$out/$name.mir.tmp" "$out/$name.mir" || exit 1;;
esac
exit 0
