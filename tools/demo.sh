#!/bin/bash
# Links demo.rs against the libraries /opt/vp/build.sh has built. Exit 0: the property holds.
d=$(dirname "$(realpath "$0")")
deps=/opt/vp/ws-target/debug/deps
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
# a library that only its own tests use is not built there
for c in $(sed -n 's,^// *build: *,,p' "$d/demo.rs"); do
    (. /opt/vp/env.sh; cd /opt/vp/ws && cargo build -q -p $c --lib --offline > /dev/null 2>&1 < /dev/null)
done
# the libraries are there in several variants (features): the newest that fit together
combos=("")
for c in $(sed -n 's,^// *extern: *,,p' "$d/demo.rs"); do
    new=()
    for x in "${combos[@]}"; do
        for lib in $(ls -t $deps/lib$c-*.rlib $deps/lib$c-*.so 2>/dev/null); do
            n=$c; [ "$c" = axon_protocol ] && n=protocol
            new+=("$x --extern $n=$lib")
        done
    done
    combos=("${new[@]}")
done
# what was built last first: a library left from an earlier build also fits some variant of another one
sorted=$(for x in "${combos[@]}"; do
    n=0 last=0
    for lib in $x; do
        case $lib in *=*) m=$(stat -c %Y "${lib#*=}"); n=$((n + m)); [ $m -gt $last ] && last=$m ;; esac
    done
    echo "$last $n$x"
done | sort -k1,1nr -k2,2nr | cut -d' ' -f3-)
while read -r x; do
    rustup run 1.72 rustc --edition 2021 -A warnings -L dependency=$deps $x "$d/demo.rs" -o "$t/demo" 2> "$t/err" < /dev/null && break
done <<< "$sorted"
[ -x "$t/demo" ] || { cat "$t/err"; exit 2; }
cd "$t" && RUST_BACKTRACE=0 ./demo
