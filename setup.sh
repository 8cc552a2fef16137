#!/bin/bash
# everything a check needs, from nothing
exec bash "$(dirname "$0")/build.sh" plain mpi
