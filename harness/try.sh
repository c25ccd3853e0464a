#!/bin/bash
# try.sh CONT ELEM ALLOC STD DEBUG
CN=(base so); EN=(copy nmove tmove monly int uchar big str pod tmonly nmta); AN=(stateful minimal fancy std)
g++ -std=c++$4 -O1 -g -I${REPO:-/repo}/include -I. -DCONT=$1 -DELEM=$2 -DALLOC=$3 $( [ "$5" = 1 ] && echo -DCBV_DEBUG ) \
 -DCBV_ELEMNAME="\"${EN[$2]}\"" -DCBV_ALLOCNAME="\"${AN[$3]}\"" -DCBV_STDNAME="\"$4\"" -DCBV_CCNAME='"g++"' -Wall -Wextra -Wno-unused-function -c exec.cpp -o /tmp/x.o $6
