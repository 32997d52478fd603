#!/bin/bash
# run.sh check | replay FILE: builds the workload for every machine and feature set against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="${VERIF_ROOT:-$(dirname "$here")}" CARGO_NET_OFFLINE=true
export CROSS_MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks"
unset RUSTFLAGS MIRI_SYSROOT CARGO_TARGET_DIR
t="$here/target"
mkdir -p "$t"
cd "$here" || exit 3
rm -f "$t"/failed-* "$t"/absent-*
build() { # NAME COMMAND...
  local n="$1"; shift
  "$@" >"$t/log-$n" 2>&1 || touch "$t/failed-$n"
}
build here cargo build --offline -q &
build shipped cargo build --offline -q --profile shipped &
for f in std alloc core; do
  a=(); [ $f != core ] && a=(--features $f)
  (cd lean && build lean-$f cargo build --offline -q --target-dir "$t/lean-$f" "${a[@]}") &
done
machines="s390x-unknown-linux-gnu i686-unknown-linux-gnu"
for m in $machines; do
  (
    export XDG_CACHE_HOME="$t/$m" CARGO_TARGET_DIR="$t/$m" MIRIFLAGS="$CROSS_MIRIFLAGS"
    mkdir -p "$t/$m"
    # Without the interpreter there is nothing to run on; the evidence says so.
    if ! CARGO_TARGET_DIR= cargo +nightly miri setup -q --target $m >"$t/log-setup-$m" 2>&1; then touch "$t/absent-$m"; exit; fi
    CROSS_DIR="$t/$m" build $m cargo +nightly miri run -q --offline --target $m -- work 1 0 1 0 0
  ) &
done
wait
CROSS_MACHINES=""
for m in $machines; do [ -e "$t/absent-$m" ] || CROSS_MACHINES="$CROSS_MACHINES $m"; done
export CROSS_MACHINES
if ls "$t"/failed-* >/dev/null 2>&1; then
  for f in "$t"/failed-*; do n="$(basename "$f")"; grep -A8 '^error' "$t/log-${n#failed-}" | head -40 >&2; done
  echo "the workload does not build against this tree" >&2
  exit 3
fi
exec "$t/debug/cross" "$@"
