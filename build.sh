#!/bin/bash
# Builds the analysis tools into /verif/build: build.sh [tool...]; default: all of them.
set -e
cd "$(dirname "$0")"
mkdir -p build
build_ir() {
  mkdir -p build/obj
  local FL="$(llvm-config-18 --cxxflags) -fexceptions -Wno-unused" pids=() o s any=0
  for s in src/ir/*.cc; do
    o="build/obj/$(basename "$s" .cc).o"
    if [ ! -e "$o" ] || [ -n "$(find src/ir -newer "$o" \( -name '*.h' -o -path "$s" \))" ]; then
      any=1
      (clang++-18 -O1 $FL -c "$s" -o "$o.tmp" && mv "$o.tmp" "$o") & pids+=($!)
    fi
  done
  for p in "${pids[@]}"; do wait "$p"; done
  if [ $any = 1 ] || [ ! -e build/vpir ]; then
    clang++-18 build/obj/*.o -o build/vpir.tmp $(llvm-config-18 --ldflags) -lLLVM-18 -lgmpxx -lgmp
    mv build/vpir.tmp build/vpir
  fi
}
build_ast() {
  mkdir -p build/aobj
  local FL="$(llvm-config-18 --cxxflags) -fno-rtti -fexceptions -Wno-unused -Wno-deprecated" pids=() o s any=0
  for s in src/ast/*.cc; do
    o="build/aobj/$(basename "$s" .cc).o"
    if [ ! -e "$o" ] || [ -n "$(find src/ast -newer "$o" \( -name '*.h' -o -path "$s" \))" ]; then
      any=1
      (clang++-18 -O1 $FL -c "$s" -o "$o.tmp" && mv "$o.tmp" "$o") & pids+=($!)
    fi
  done
  for p in "${pids[@]}"; do wait "$p"; done
  if [ $any = 1 ] || [ ! -e build/vpast ]; then
    clang++-18 build/aobj/*.o -o build/vpast.tmp $(llvm-config-18 --ldflags) -l:libclang-cpp.so.18.1 -lLLVM-18
    mv build/vpast.tmp build/vpast
  fi
}
[ $# = 0 ] && set -- vpir vpast
for t in "$@"; do
  case "$t" in
    vpir) build_ir ;;
    vpast) build_ast ;;
  esac
done
