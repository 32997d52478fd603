#!/bin/bash
# check.sh ID: builds the simulator against /repo's working tree and decides one property.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself failed.
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
tier="${VERIF_TIER:-quick}"
if [ "$2" = thorough ]; then tier=thorough; fi
export VERIF_TIER="$tier"
profile=dev; dir=debug
if [ "$tier" = thorough ]; then profile=deep; dir=deep; fi
# The behaviour of types that lie about their size must not rest on assertions.
if [ "$id" = C15 ]; then
  profile=bare; dir=bare
  if [ "$tier" = thorough ]; then profile=deepbare; dir=deepbare; fi
fi
mkdir -p "$here/out"
# Other machines and other builds have a simulator of their own.
if [ "$id" = C33 ]; then exec "$here/cross/run.sh" check; fi
log="$here/out/build-$id.log"
if ! (cd "$here/sim" && cargo build --offline --quiet --profile "$profile") >"$log" 2>&1; then
  cat "$log" >&2
  echo "the simulator does not build against this tree" >&2
  exit 3
fi
exec "$here/sim/target/$dir/sim" check "$id"
