#!/bin/bash
# exit 0: the property holds on the scenario in demo.cpp; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r -f "$T"' EXIT
bash "$H/build_lib.sh" "$T/libaoclda.so" @DIRS@ > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
g++ -std=c++17 -O0 -w -I source/include "$H/demo.cpp" -o "$T/demo" -L"$T" -laoclda -lopenblas -fopenmp -Wl,--unresolved-symbols=ignore-all -Wl,-rpath,"$T" || exit 3
export OMP_NUM_THREADS=4 OPENBLAS_NUM_THREADS=1
cd "$T" && timeout 60 ./demo
