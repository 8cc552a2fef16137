#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
p=$1
tier=${2:-${VERIF_TIER:-quick}}
t0=$SECONDS
case $p in
C02 | C03 | C06 | C08 | C11 | C16 | C17) need=mpi ;;
C14 | C15 | C18 | C20 | C21) need="plain mpi" ;;
*) need=plain ;;
esac
bash build.sh $need || exit 2
exec driver/target/release/driver check "$p" --verif "$PWD" --bin "$PWD/progs/target/x86_64-unknown-linux-gnu/release" \
  --seed "${VERIF_SEED:-1}" --tier "$tier" --build-s $((SECONDS - t0))
