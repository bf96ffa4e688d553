#!/bin/bash
# build the library first (bash /opt/vp/build.sh); runs the defect demonstration in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); B=/repo/_build
cd $t && gfortran-11 -O1 -g "$@" -ffree-line-length-none -DUSE_SUNDIALS -I$B/src/libfazang.so.p -I$B/lib/sundials-6.1.1/libsundials.a.p -cpp $d/demo.F90 -o demo -L$B/src -lfazang -Wl,-rpath,$B/src && ./demo
cd /; rm -rf "$t"
