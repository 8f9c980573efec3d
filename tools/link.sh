#!/bin/bash
# link.sh OUT INPUTS... : links; parts a driver never calls may be missing: their symbols get a stub that aborts.
out=$1; shift
L="-rdynamic -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -Wl,--allow-multiple-definition -no-pie"
LIB="-lprotobuf -lgflags -lglog -lfmt -lyaml-cpp -lssl -lcrypto -lpthread -ldl -lstdc++fs"
g++ -o $out.1 "$@" $L $LIB || exit 1
nm -u $out.1 | awk '{print $2}' | grep -E '^_Z.*7dingodb' | sort > $out.und
{ echo '.text'; while read s; do echo ".weak $s"; echo "$s:"; done < $out.und; echo ' ud2'; echo '.section .note.GNU-stack,"",@progbits'; } > $out.s
g++ -c -o $out.stub.o $out.s && g++ -o $out.2 "$@" $out.stub.o $L $LIB || exit 1
c++filt -n < $out.und | sort -u > $out.und2
rm -f $out.1; mv $out.2 $out
