#!/bin/bash
# mk.sh CONT ELEM ALLOC STD DEBUG [extra flags] -> /tmp/hb/<name>
cd /verif/harness; mkdir -p /tmp/hb
EN=(copy nmove tmove monly int uchar big str pod tmonly nmta tmna tasg long); AN=(stateful minimal fancy std)
n=$1_$2_$3_$4_$5
[ -f /tmp/hb/engine.o -a /tmp/hb/engine.o -nt engine.cpp -a /tmp/hb/engine.o -nt core.h ] || g++ -std=c++17 -O2 -c engine.cpp -o /tmp/hb/engine.o || exit 1
[ -f /tmp/hb/profiles.o -a /tmp/hb/profiles.o -nt profiles.cpp -a /tmp/hb/profiles.o -nt core.h ] || g++ -std=c++17 -O0 -c profiles.cpp -o /tmp/hb/profiles.o || exit 1
g++ -std=c++$4 -O1 -g1 -I${REPO:-/repo}/include -I. -DCONT=$1 -DELEM=$2 -DALLOC=$3 $( [ "$5" = 1 ] && echo -DCBV_DEBUG ) \
 -DCBV_ELEMNAME="\"${EN[$2]}\"" -DCBV_ALLOCNAME="\"${AN[$3]}\"" -DCBV_STDNAME="\"$4\"" -DCBV_CCNAME='"g++"' -w -c exec.cpp -o /tmp/hb/$n.o ${@:6} && g++ /tmp/hb/engine.o /tmp/hb/profiles.o /tmp/hb/$n.o -o /tmp/hb/$n ${@:6}
