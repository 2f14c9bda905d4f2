#!/bin/bash
# buildlibs.sh VARIANT BUILDDIR [TARGET...]
# Builds bnl's libraries from /repo's working tree through /repo's own CMake
# files (so added or moved source files are honoured), out of tree, with the
# instrumentation that VARIANT names.  Variants:
#   asan   gcc   address + undefined (fatal), asserts on
#   tsan   gcc   thread, asserts on
#   plain  gcc   no sanitizer, -O1 -g (valgrind memcheck runs on it)
#   cov    gcc   --coverage (used by tools/coverage.sh only)
#   fuzz   clang address + undefined + fuzzer coverage (thorough tier)
set -e
VARIANT=$1; B=$2; shift 2
TARGETS=${*:-bnl-base bnl-log bnl-http3}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8
unset CXXFLAGS CFLAGS LDFLAGS CPATH LIBRARY_PATH
R=${BNL_REPO:-/repo}
D=/opt/vp/deps
CC=gcc CXX=g++
case $VARIANT in
  asan)  F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS" ;;
  tsan)  F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread" ;;
  plain) F="-O1 -g1 -fno-omit-frame-pointer" ;;
  cov)   F="-O0 -g1 --coverage -fprofile-abs-path" ;;
  fuzz)  CC=clang CXX=clang++
         F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all" ;;
  *) echo "unknown variant $VARIANT" >&2; exit 2 ;;
esac
export CC CXX
mkdir -p "$B/_deps/outcome" "$B/_deps/doctest"
ln -sfn $D/outcome/outcome-basic.hpp "$B/_deps/outcome/outcome-basic.hpp"
ln -sfn $D/doctest/doctest.h "$B/_deps/doctest/doctest.h"
cmake -S "$R" -B "$B" -G Ninja \
  -DCMAKE_BUILD_TYPE= \
  "-DCMAKE_CXX_FLAGS=$F -include $D/compat/compat.hpp" \
  -DBNL_TEST=ON -DBNL_INSTALL=OFF \
  -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
  -DFETCHCONTENT_SOURCE_DIR_FMT=$D/fmt \
  -DFETCHCONTENT_SOURCE_DIR_XXHASH=$D/xxhash \
  -DFETCHCONTENT_SOURCE_DIR_NGTCP2=$D/ngtcp2 \
  -DFETCHCONTENT_SOURCE_DIR_BORINGSSL=$D/boringssl
ninja -C "$B" $TARGETS
