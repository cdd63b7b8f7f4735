#!/bin/bash
# compile one harness to IR and list only the errors
cfg=${2:-generic}; R=${VERIF_REPO:-/repo}; cd $R/lib
clang++ -std=c++17 -O1 -emit-llvm -c -fno-vectorize -fno-slp-vectorize -ffp-contract=off -w -ferror-limit=0 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSYM_ENGINE -I/verif/harness/model -include prelude.h -include cstring -include cstdint -I/verif/config/$cfg -I$R/include -I/verif/harness ${@:3} /verif/harness/$1 -o /dev/null 2>&1 | grep -E "error:|harness/.*(instantiation|note)" | cut -c1-${COLS:-400} | head -${LINES_:-12}
