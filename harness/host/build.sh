#!/bin/bash
# build.sh OUTDIR: builds OUTDIR/simhost
set -e
H=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
F="-O1 -std=c++14 -w -fno-strict-aliasing -D_GLIBCXX_ASSERTIONS -I$H/../shim -I$H"
pids=()
for f in sim wraps mpi tsan heap; do g++ $F -c "$H/$f.cpp" -o "$O/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
ld -r --force-group-allocation "$O"/sim.o "$O"/wraps.o "$O"/mpi.o "$O"/tsan.o -o "$O/host.o"
nm "$O/host.o" | awk '$2 ~ /[TDBWV]/ {print $3}' | grep -E '^(main$|MPI_|__wrap_|verif_|__tsan_|_ZN3sim)' > "$O/keep.txt"
objcopy --redefine-syms="$H/redefine.txt" --keep-global-symbols="$O/keep.txt" "$O/host.o"
g++ -rdynamic -o "$O/simhost" "$O/host.o" "$O/heap.o" -lnetcdf -ldl -lpthread
