#!/bin/bash
# dev/conc.sh spec prop: development aid, runs one harness concretely
cd /verif; U=$(python3 -c "
import check
print(' '.join('/repo/'+str(x) for x in check.closure('/verif/specs/$1.cc')))")
D=$(mktemp -d); clang++ -std=c++20 -O1 -w -I/verif -I/verif/shims -I/repo -DRUN=prop_$2 dev/conc.cc specs/$1.cc $U -o $D/a && timeout 300 $D/a; rm -r $D
