#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Builds the model checker against /repo's working tree (hooks on) and decides one property.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
tgt="$here/target"
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
all="int_field int_scalar int_point pt_methods"
log="$tgt/build.log"
mkdir -p "$tgt" "$here/evidence"

# build <cmd> <hooks:0|1> <features>
build() {
  local flags=""
  [ "$2" = 1 ] && flags="--cfg verif_hooks"
  (cd "$here/harness" && RUSTFLAGS="$flags" CARGO_NET_OFFLINE=true \
    cargo "$1" --release --offline --target-dir "$tgt" --features "$(echo "$3" | tr ' ' ',')") >>"$log" 2>&1
}

: >"$log"
if ! build build 1 "$all"; then
  # A refactoring may have changed an internal signature: keep the internal-level spaces that still
  # compile, and fall back to the public API for the rest.
  ok=""
  for f in $all; do
    if build check 1 "$f"; then ok="$ok $f"; fi
  done
  ok="$(echo $ok)"
  echo "note: internal interfaces changed; usable hook groups: [${ok}]"
  if ! { [ -n "$ok" ] && build build 1 "$ok"; } && ! build build 0 ""; then
    echo "cannot build the model checker against /repo:"
    grep -E "^error" -A6 "$log" | tail -40
    exit 2
  fi
fi
if [ "$id" = C15 ]; then
  # Second build, with every memory access of the crate and its dependencies instrumented, for the
  # exploration of schedules inside calls (harness/src/sched.rs, harness/rt/rt.c).
  export MC_SCHED="$tgt/sched.json"
  rm -f "$MC_SCHED"
  if (cd "$here/harness" && CARGO_NET_OFFLINE=true \
      RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0" \
      cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu --features sched \
      --target-dir "$tgt/sched") >>"$log" 2>&1; then
    "$tgt/sched/x86_64-unknown-linux-gnu/release/mc" sched "$tier" "$MC_SCHED"
  else
    echo "note: the instrumented build failed; schedules inside calls are not explored"
    grep -E "^error" -A6 "$log" | tail -20
  fi
fi
exec "$tgt/release/mc" "$id" "$tier"
