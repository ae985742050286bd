#!/bin/bash
# build_lib.sh OUT.so DIR...  builds the core library's sources in source/core/DIR... (run with cwd
# at the repository's root) into OUT.so; headers of packages that are not here come from stubs/.
set -e
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
OUT=$1; shift
OBJ=$(dirname "$OUT")/obj; mkdir -p "$OBJ"
INC="-I$H/stubs"
for d in include core/drivers core/basic_statistics core/optimization core/utilities core/dynamic_dispatch core/csv core/metrics core/linear_model core/data_management core/factorization core/clustering core/decision_forest core/decision_forest/tree core/nlls core/nearest_neighbors core/svm core/kernel_functions core/interpolation core/approximate_neighbors core/dimension_reduction; do INC="$INC -I$R/source/$d"; done
INC="$INC -I$R/external/Lbfgsb.3.0 -I$R/external/RALFit -I$R/external/RALFit/libRALFit/include -I$R/external/kernel-templates -I/usr/include/x86_64-linux-gnu/openblas-pthread"
DEF='-DZNVER_MAX=generic -Dgeneric_AVAILABLE -DAOCLDA_VERSION_STRING="AOCL-DA" -DAOCLDA_GIT_COMMIT="unknown" -DINT_LIB="LP64"'
export FL="-O0 -w -fPIC -march=x86-64 -mavx2 -mfma -fopenmp $INC $DEF $EXTRA" OBJ
comp() {
  f=$1; o=$OBJ/$(echo "$f" | tr / _).o; A=-DARCH_generic
  case $f in *_public.cpp|*fp16_helpers.cpp|*aoclda_c_wrapper.cpp|*interval_set.cpp|*data_store.cpp|*miscellaneous.cpp|*context.cpp|*da_handle.cpp|*model_persistence.cpp|*.c) A=;; esac
  case $f in *.c) gcc -std=gnu11 $FL -c "$f" -o "$o";; *) g++ -std=c++17 $FL $A -c "$f" -o "$o";; esac
}
export -f comp
D=""
for d in "$@"; do D="$D source/core/$d"; done
find $D \( -name '*.cpp' -o -name '*.c' \) | sort -u | xargs -P8 -I{} bash -c 'comp {}'
B=$R/_build; [ -d "$B" ] || B=/repo/_build
g++ -shared -fopenmp -o "$OUT" "$OBJ"/*.o $(find "$B" -name '*.F90.o' 2>/dev/null | grep Lbfgsb || true) -Wl,--whole-archive $(ls "$B"/libral_nlls_*_lib.a 2>/dev/null || true) -Wl,--no-whole-archive -lgfortran -lopenblas -lgomp
