#!/bin/bash
# genpb.sh OUT: expands the .p files and runs protoc into OUT
set -e
d=$(cd "$(dirname "$0")" && pwd); out=$1; src=$out/src
mkdir -p $out/gen $src
python3 $d/proto/gen.py $d/proto/src $src/proto
cp $d/proto/braft_local.proto $src/
cd $src
protoc -I. --cpp_out=$out/gen proto/*.proto braft_local.proto >$out/protoc.log 2>&1 || { cat $out/protoc.log; exit 1; }
