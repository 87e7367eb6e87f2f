#!/bin/sh
# RUSTC_WORKSPACE_WRAPPER: compiles workspace crates as cargo asks and additionally emits MIR text; a first front-end-only
# pass dumps THIR, from which the names of scalar constants are taken (MIR prints them as `const _`).
name=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
ruruby|ruruby_common|ruruby_parse)
    "$@" -Zunpretty=thir-flat -Awarnings > "$CARGO_TARGET_DIR/thir-$name.txt" 2>/dev/null || true
    exec "$@" --emit=mir -Zmir-opt-level=0 -Zmir-include-spans -Ztrim-diagnostic-paths=no -Awarnings;;
*) exec "$@";;
esac
