#!/bin/bash
# Builds the placo Python module from /repo's working tree, in /repo/_build (ignored by git), as /opt/vp/build.sh does.
set -e
V=/opt/placo-venv
SP=lib/python3.12/site-packages
B=/repo/_build
export PATH=$V/bin:/usr/local/bin:/usr/bin:/bin CC=gcc CXX=g++
export PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1
export CCACHE_DIR=/opt/placo-ccache CCACHE_MAXSIZE=3G
unset PYTHONPATH LD_LIBRARY_PATH CMAKE_PREFIX_PATH OMP_NUM_THREADS
mkdir -p $B
exec 9>$B/.verif-lock
flock 9
if [ ! -f $B/build.ninja ]; then
    cmake -S /repo -B $B -G Ninja \
        -DCMAKE_BUILD_TYPE=Release \
        -DCMAKE_PREFIX_PATH=$V/$SP/cmeel.prefix \
        -DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache \
        -DPython_ROOT_DIR=$V -DPython3_ROOT_DIR=$V \
        -DPython_EXECUTABLE=$V/bin/python -DPython3_EXECUTABLE=$V/bin/python \
        -DPYTHON_SITELIB=$SP -Wno-dev
fi
ninja -C $B libplaco placo
test -f $B/$SP/placo.so
