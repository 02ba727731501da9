#!/bin/bash
# Run with cwd = the repository, after its build. Compiles demo.cc against the
# built library and runs it in a scratch directory. Exit 0: behaves as stated.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_rmaps_base_oversubscribe=1
export DEAL_II_NUM_THREADS=1 OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
I="-isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
for i in petsc trilinos hdf5/openmpi scotch suitesparse opencascade slepc; do I="$I -isystem /usr/include/$i"; done
/usr/bin/g++ -std=c++17 -O0 -w -DDEBUG -I"$here" -I"$repo/include" $I \
  "$here/demo.cc" -o "$d/demo" -fuse-ld=gold -Wl,--allow-shlib-undefined \
  -L"$repo/_build/source" -Wl,-rpath,"$repo/_build/source" -lgCP \
  /usr/lib/x86_64-linux-gnu/libdeal.ii.g.so.9.5.1 \
  $(ls /usr/lib/x86_64-linux-gnu/libtrilinos_{epetra,teuchoscore,teuchoscomm,teuchosparameterlist}*.so) \
  -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -ltbb -lpthread || exit 98
cd "$d" && timeout 250 ./demo "$repo"
