#!/bin/bash
# run the demonstration under mpirun with the DLB library built in /repo, then let it check the report it wrote
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/d.XXXXXX); trap 'rm -rf "$W"; rm -f /dev/shm/DLB_*_dm$$_*' EXIT
B=$PWD/${B:-_build}
mpicc -w -g -I$B/src/apis -I$B/src -I$B -Isrc/apis "$D/demo.c" -o "$W/demo" -L$B -ldlb_mpi -Wl,-rpath,$B -lm -Wl,--no-as-needed -lmpi_mpifh -lpthread -rdynamic || exit 0
cd "$W"; export TMPDIR=$W DLB_ARGS="--talp --talp-summary=all --talp-output-file=$W/out.json --shm-key=dm$$_ $DEMO_ARGS"
NP=$(sed -n 's/.*NP=\([0-9]*\).*/\1/p' "$D/demo.c" | head -1); M="timeout 100 mpirun --allow-run-as-root --oversubscribe --bind-to none -x DLB_ARGS -n ${NP:-2}"
$M true >/dev/null 2>&1 || exit 0
$M ./demo || exit 1
./demo check out.json
