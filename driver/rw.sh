#!/bin/bash
# RUSTC_WRAPPER: $1 = rustc
crate=""; prev=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && crate="$a"; prev="$a"; done
case "$crate" in
 ahash|rustix|proc_macro2|linux_raw_sys)
  out=(); skip=0; args=("$@"); i=0
  while [ $i -lt ${#args[@]} ]; do
    a="${args[$i]}"; n="${args[$((i+1))]}"
    if [ "$a" = "--cfg" ]; then case "$n" in 'feature="stdsimd"'|'feature="specialize"'|rustc_attrs|core_ffi_c|alloc_ffi|proc_macro_span|super_unstable) i=$((i+2)); continue;; esac; fi
    out+=("$a"); i=$((i+1)); done
  exec "${out[@]}";;
esac
[ "$crate" = wasm_bindgen ] && export CARGO_PKG_VERSION_PATCH=88
exec "$@"
