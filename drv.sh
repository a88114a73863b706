#!/bin/bash
# development helper: build (whole library, sanitised, cached in /tmp/w/drvlib) and run one driver: drv.sh name.cpp seed cases [only]
R=${DV_REPO:-/repo}
L=/tmp/w/drvlib$(echo $R | tr / _); mkdir -p $L
FL="-std=c++14 -fopenmp -msse4.2 -g -UNDEBUG -DEIGEN_DONT_PARALLELIZE -w -I$R/include -I$R/src -I/usr/include/eigen3 -I/verif/drivers -O1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined"
{ echo "all: "; O=""
for f in $(cd $R; ls src/*.cpp src/blas/*.cpp src/utils/*.cpp | grep -v petsc | grep -v -e solverops_sgs_sai -e cmdoptions); do
 o=$L/$(echo $f | tr / _).o; O="$O $o"; printf '%s: %s/%s\n\tg++ %s -MMD -c %s/%s -o %s\n-include %s\n' $o $R $f "$FL" $R $f $o ${o%.o}.d; done
echo "all: $O"; } > $L/Makefile
make -s -j8 -f $L/Makefile all || exit 2
D=$(mktemp -d /tmp/drvXXXX)
g++ $FL /verif/drivers/$1 $L/*.o -o $D/d -lboost_program_options || exit 2
OMP_NUM_THREADS=${T:-1} UBSAN_OPTIONS=print_stacktrace=1 timeout 600 env -C $D ./d $2 $3 $4
echo rc=$?
rm -rf $D
