#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and decides property ID.
# Exit 0: held on everything explored. 1: violated (VIOLATION line). Other: the check itself failed.
set -u
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
here="$(cd "$(dirname "$0")" && pwd)"
export YV_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
cd "$here/harness" || exit 2
build() { # profile bin
  local log; log="$(mktemp)"
  if RUSTFLAGS="--cfg yamux_verif" cargo build --offline --profile "$1" --bin "$2" --features hooks >"$log" 2>&1; then
    rm -f "$log"; return 0
  fi
  # Without the hooks, should they be what does not compile.
  if RUSTFLAGS="" cargo build --offline --profile "$1" --bin "$2" >>"$log" 2>&1; then
    echo "note: built without hooks"; rm -f "$log"; return 0
  fi
  cat "$log" >&2; rm -f "$log"; return 2
}
run() { # command...: a process that dies of its own (not killed from outside) is a violation too
  "$@"
  local rc=$?
  case $rc in
  132|134|135|136|139)
    mkdir -p "$here/evidence"
    local f="$here/evidence/replay-$id-crash.txt"
    printf 'property %s\nthe process died with status %s: %s\n' "$id" "$rc" "$*" >"$f"
    echo "the code under test brought the process down (status $rc)"
    echo "VIOLATION property=$id replay=$f"
    rc=1 ;;
  esac
  return $rc
}
if [ "$id" = C23 ]; then
  exec ./threads.sh "$tier" "$seed"
fi
if [ "$tier" = thorough ]; then
  mkdir -p "$here/evidence"
  brief="$here/evidence/.brief-$id.json"
  # First the optimised build users run (no debug assertions, wrapping arithmetic), then the checked one.
  build release yv || exit 2
  run ./target/release/yv check "$id" --tier thorough --seed "$((seed + 1000))" --budget "${YV_BUDGET2:-200}" --evidence 0 --brief "$brief"
  rc=$?
  [ $rc = 0 ] || [ $rc = 1 ] || exit $rc
  build chk yv || exit 2
  run ./target/chk/yv check "$id" --tier thorough --seed "$seed" --budget "${YV_BUDGET:-400}" --extra "$brief"
  rc2=$?
  /bin/rm -f "$brief"
  [ $rc2 = 0 ] && exit $rc
  exit $rc2
fi
build chk yv || exit 2
run ./target/chk/yv check "$id" --tier quick --seed "$seed"
