#!/bin/bash
# build.sh [mpi]: the driver, and the programs under simulation from /repo's working tree
cd "$(dirname "$0")" || exit 2
V=$PWD
T=$V/progs/target
D=$T/x86_64-unknown-linux-gnu/release
mkdir -p "$T"
exec 9>"$T/.verif-lock"
flock 9
export CARGO_NET_OFFLINE=true
log=$(mktemp)
run() {
  if ! "$@" >"$log" 2>&1; then
    grep -v '^warning\|^ *|' "$log" | tail -40 >&2
    rm -f "$log"
    echo "build failed: $*" >&2
    exit 2
  fi
}
(cd driver && run cargo build --release --offline) || exit 2
# what the programs are made of, by content: time stamps of a patched or restored tree prove nothing
hash=$( (cd /repo && find . \( -path ./target -o -path ./.git -o -name __pycache__ -o -path ./utils/gen_matrix_fast/target \) -prune -o -type f -print0 |
  LC_ALL=C sort -z | xargs -0 sha256sum; cd "$V" && cat rt/* progs/src/* progs/Cargo.toml progs/build.rs progs/env.sh) | sha256sum | cut -d' ' -f1)
b() { # b STAMP ARGS...
  stamp=$T/.stamp-$1
  shift
  [ "$(cat "$stamp" 2>/dev/null)" = "$hash" ] && return 0
  rm -f "$stamp"
  # never reuse a compilation of another tree
  find "$D/.fingerprint" -maxdepth 1 \( -name 'walky-*' -o -name 'progs-*' \) -exec rm -rf {} + 2>/dev/null
  (cd progs && . ./env.sh && run cargo build --release --offline -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu "$@") || exit 2
  echo "$hash" >"$stamp"
}
case " $* " in *" plain "*) b plain --bin apiprog --bin walky_cli --bin gen_cli ;; esac
case " $* " in *" mpi "*) b mpi --features mpi --bin apiprog_mpi --bin walky_cli_mpi ;; esac
rm -f "$log"
exit 0
