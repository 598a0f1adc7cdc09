#!/bin/bash
# builds demo.c against the library just built in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PETSC_DIR=${PETSC_DIR:-/opt/petsc-3.17.3}
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mpicc -O1 -w -I"$repo/include" -I"$PETSC_DIR/include" "$here/demo.c" -o "$tmp/demo" \
  -L"$repo/arch-default/lib" -ltdycore -L"$PETSC_DIR/lib" -lpetsc -llapack -lblas -lmpi_usempif08 -lmpi_mpifh -lgfortran -lm -Wl,-rpath,"$repo/arch-default/lib:$PETSC_DIR/lib" || exit 3
cd "$tmp" && timeout 200 mpiexec -n ${NP:-1} ./demo
