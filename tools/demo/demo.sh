#!/bin/bash
# Compiles demo.rs against the libraries build.sh has just built in /repo/target and runs it.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/shadow/env.sh ] && . /opt/vp/shadow/env.sh
L=/repo/target/debug/deps
T=$(mktemp -d)
X=()
for c in cairo_m_compiler_parser cairo_m_compiler_semantic cairo_m_compiler_diagnostics cairo_m_formatter cairo_m_project cairo_m_test_utils cargo_cairo_m chumsky; do
  f=$(ls -t $L/lib$c-*.rlib 2>/dev/null | head -1)
  [ -n "$f" ] && X+=(--extern "$c=$f")
done
# several builds of salsa may lie there: take the one the libraries were built with
for S in $(ls -t $L/libsalsa-*.rlib); do
  rustc --edition 2021 -A warnings -L dependency=$L "${X[@]}" --extern "salsa=$S" -o "$T/demo" "$D/demo.rs" 2>"$T/err" && break
done
[ -x "$T/demo" ] || { cat "$T/err"; exit 2; }
cd "$T" && RUST_MIN_STACK=67108864 "$T/demo"
