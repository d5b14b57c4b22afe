#!/bin/bash
# run.sh <ID> quick|thorough            run the check of one property
# run.sh <ID> replay <workload> <index> [tier]   replay one case
# run.sh build                          build all harnesses (setup)
# run.sh all <tier>                     run all checks
# Exit: 0 held, 1 violation, 2 no answer (build failure, harness error, time limit)
cd /verif || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-Awarnings" CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
declare -A BEV=( [C23]=1 [C25]=1 [C26]=1 [C31]=1 [C32]=1 )
build() { # crate
  local log; log=$(mktemp /tmp/vbuild.XXXXXX)
  if ! cargo build -q --offline --manifest-path "/verif/$1/Cargo.toml" --target-dir "/verif/target-$1" >"$log" 2>&1; then
    echo "build of the $1 harness failed:"; tail -n 60 "$log"; rm -f "$log"; return 1
  fi
  rm -f "$log"
}
san() { # the same workloads for the address sanitizer and for Miri
  local log; log=$(mktemp /tmp/vbuild.XXXXXX)
  if ! { env -u RUSTUP_TOOLCHAIN RUSTFLAGS="-Awarnings -Zsanitizer=address" cargo +nightly build -q --offline --manifest-path /verif/san/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir /verif/target-asan &&
    env -u RUSTUP_TOOLCHAIN MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run -q --offline --manifest-path /verif/san/Cargo.toml --target-dir /verif/target-miri -- C07 tour 0 0; } >"$log" 2>&1; then
    echo "build for the sanitizers failed:"; tail -n 60 "$log"; rm -f "$log"; return 1
  fi
  rm -f "$log"
}
run() { # crate args...
  local k=$1; shift
  build "$k" || return 2
  "/verif/target-$k/debug/$k-harness" "$@"
}
id=$1; shift
case "$id" in
  build) build core || exit 2; [ -d bev ] && { build bev || exit 2; }; san || exit 2; exit 0 ;;
  list) run core list; exit $? ;;
  "") echo "usage: run.sh <ID> <tier>"; exit 2 ;;
esac
crate=core; [ -n "${BEV[$id]}" ] && crate=bev
[ "$id" = C07 ] && { san || exit 2; }
if [ "$1" = replay ]; then shift; run $crate replay "$id" "$@"; else run $crate check "$id" "${1:-quick}"; fi
exit $?
