#!/bin/sh
# writes mpistubs.c: the data symbols of Open MPI's mpi.h and a weak stub for every function
cd "$(dirname "$0")"
L=/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so
{
echo '/* generated by gen_stubs.sh: what a program may refer to and the simulation does not implement */'
echo '#include "simrt.h"'
nm -D --defined-only $L | awk '$2=="T"||$2=="W"{print $3}' | grep -E '^MPI_[A-Z]' | sort -u | while read f; do
  echo "__attribute__((weak)) int $f(void) { sim_fail(V_UNSUPPORTED, \"$f\"); }"
done
nm -D --defined-only $L | awk '$2!="T"{print $3}' | grep -E '^(ompi_mpi_|ompi_request_null|ompi_message_n|ompi_request_empty)' | grep -vE '_addr$' | sort -u | while read f; do
  echo "char $f[1024] __attribute__((aligned(64)));"
done
} > mpistubs.c
