#!/bin/bash
# replay.sh FILE: repeat a recorded violation exactly
cd "$(dirname "$0")" || exit 2
bash build.sh plain mpi || exit 2
exec driver/target/release/driver replay "$1" --verif "$PWD" --bin "$PWD/progs/target/x86_64-unknown-linux-gnu/release"
