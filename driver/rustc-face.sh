#!/bin/sh
# The nightly compiler, reporting a plain release version: some locked
# dependencies (ahash 0.7.7) switch on long-gone unstable features when the
# version string says "nightly".
R="${MIRDUMP_RUSTC:-rustc}"
for a in "$@"; do
  case "$a" in
    -vV|-V|--version) "$R" "$@" | sed 's/-nightly//'; exit 0;;
  esac
done
exec "$R" "$@"
