#!/bin/bash
# cwd /repo after build.sh: exit 0 when the behaviour is right, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
R=/repo; L=/usr/lib/x86_64-linux-gnu
g++ -O1 -g -std=gnu++14 -fno-access-control -I$D -I$L/openmpi/include -I$L/openmpi/include/openmpi -I/usr/include/suitesparse -I$R/_build \
  -I$R/src/Interface -I$R/src/ExecBackends -I$R/src/Optimization -I$R/src/LinAlg -I$R/src/Utils -I$R/src/_Internals \
  $D/demo.cpp -o $T/demo $R/_build/src/libhiop.so -Wl,-rpath,$R/_build/src -L$L/openmpi/lib -lmpi_cxx -lmpi -llapack -lblas -lm || exit 3
cd $T && timeout 200 ./demo
