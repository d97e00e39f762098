#!/bin/bash
# Run with cwd /repo after the build: exit 0 when the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_plm=isolated OMPI_MCA_btl_vader_single_copy_mechanism=none OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
L=/usr/lib/x86_64-linux-gnu
objs=$(find /repo/_build/CMakeFiles/scaleupROMObj.dir -name '*.o')
g++ -std=gnu++14 -O1 -w -I/repo/_build/gen/include -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial \
  -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi "$here/demo.cpp" $objs -o "$t/demo" \
  -Wl,-rpath,$L/hdf5/serial:$L/openmpi/lib $L/hdf5/serial/libhdf5.so -lz -ldl -lm -llapack -lblas -lmfem -lHYPRE -lmetis -lyaml-cpp \
  $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so -lpthread || exit 99
cd "$t" && RUN
