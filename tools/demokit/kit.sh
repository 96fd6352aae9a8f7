#!/bin/bash
# kit.sh MODE demo.cpp N [defs...]: builds the library sources of the current directory together with
# the demo and runs it.  MODE: plain (g++, real threads, assertions on), plainnd (NDEBUG),
# asan (g++ -fsanitize=address,undefined where fibers permit),
# ctl / ctlnd (controlled scheduling: see ctl.h; assertions on / off).
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); MODE=$1; SRC=$2; N=$3; shift 3
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
F="-std=c++17 -Iinclude -I$D -DBOOST_FIBERS_NO_LIB -DBOOST_FIBERS_STATIC_LINK=1 -DBOOST_FIBERS_SOURCE -DBOOST_ALL_NO_LIB -pthread -w -g1 $*"
case $MODE in
 plain) CC="g++ -O1 $F"; LD="g++ -pthread"; RT="";;
 plainnd) CC="g++ -O2 -DNDEBUG $F"; LD="g++ -pthread"; RT="";;
 ctl|ctlnd) CC="clang++ -O1 -fsanitize=thread -fno-pie $F -DDEMO_CTL"; [ $MODE = ctlnd ] && CC="$CC -DNDEBUG"; LD="clang++ -no-pie -pthread"; for s in malloc free calloc mmap munmap __cxa_allocate_exception; do LD="$LD -Wl,--wrap=$s"; done; RT=1;;
esac
NUMA=""; [ -n "$DEMO_NUMA" ] && NUMA="src/numa/linux/*.cpp src/numa/algo/*.cpp"
i=0; pids=()
for s in src/*.cpp src/algo/*.cpp $NUMA; do x=""; [ -n "$RT" ] && [ $s = src/context.cpp ] && x=-fno-inline; $CC $x -c $s -o $W/$i.o & pids+=($!); i=$((i+1)); done
$CC -c "$D/$SRC" -o $W/demo.o & pids+=($!)
if [ -n "$RT" ]; then clang++ -O2 -g1 -std=c++17 -fno-exceptions -fno-pie -pthread -w -c "$D/ctl.cpp" -o $W/ctl.o & pids+=($!); fi
for p in "${pids[@]}"; do wait $p || { echo "demo: compilation failed"; exit 99; }; done
LIBS="-lboost_context -ldl -lpthread"; [ -n "$DEMO_NUMA" ] && LIBS="-lboost_filesystem $LIBS"
$LD $W/*.o $LIBS -o $W/demo || { echo "demo: link failed"; exit 99; }
mkdir $W/run; cd $W/run; timeout -k 5 200 $W/demo $N; rc=$?
cd /; echo "demo: exit status $rc"; exit $rc
