#!/bin/bash
# builds /verif/vcgen/build/vcgen if the sources changed
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p build
H=$(cat *.cpp *.h build.sh | sha256sum | cut -c1-16)
[ -x build/vcgen ] && [ "$(cat build/hash 2>/dev/null)" = "$H" ] && exit 0
D=$(mktemp -d build/tmp.XXXX)
g++ -std=c++17 -O2 -w -c term.cpp -o $D/term.o &
g++ -std=c++17 -O2 -w -c poly.cpp -o $D/poly.o &
g++ -std=c++17 -O3 -ffp-contract=off -w -c ibb.cpp -o $D/ibb.o &
g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -c exec.cpp -o $D/exec.o &
g++ -std=c++17 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -I$Z/include -c main.cpp -o $D/main.o &
for j in $(jobs -p); do wait $j; done
g++ $D/term.o $D/poly.o $D/ibb.o $D/exec.o $D/main.o -o $D/vcgen -L/usr/lib/llvm-18/lib -lLLVM-18 -pthread -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib
mv $D/vcgen build/vcgen; echo $H > build/hash; rm -r "$PWD/$D"
