#!/bin/bash
# usage: build.sh OUTDIR [small|big ...]  -- builds the checkers from /repo's working tree
set -e
OUT=$1; shift; HERE=$(cd "$(dirname "$0")" && pwd); REPO=${VP_REPO:-/repo}
mkdir -p "$OUT"
OBJS=$(make -s -C "$REPO" -f Makefile print_obj 2>/dev/null | grep -v '^make' | tr ' ' '\n' | sed -n 's#.*/\([^/]*\)\.o$#\1#p')
[ -n "$OBJS" ] || { echo "cannot list library objects" >&2; exit 3; }
SYMS="malloc calloc free realloc reallocarray strdup aligned_alloc posix_memalign exit _exit abort __assert_fail perror __stack_chk_fail clock_gettime gettimeofday time signal sigaction usleep nanosleep sleep rand rand_r random socket bind listen setsockopt getsockopt getsockname getpeername fcntl ioctl accept4 accept connect sendmsg sendto recvfrom readv read recv recvmsg writev write send shutdown close poll"
for v in "$@"; do
  D=$OUT/$v; mkdir -p "$D"
  DEF=""; XDEF=""; INC=""
  case $v in
    small) DEF="-DVP_MAX_PACKET=96 -DVP_MAX_PAYLOAD=40"; INC="-include $HERE/vp_small.h";;
    scale) DEF="-DVP_MAX_PACKET=560 -DVP_MAX_PAYLOAD=40"; XDEF="-DVP_SCALE -DMAXALLOC=420"; INC="-include $HERE/vp_small.h";;
    many) DEF="-DVP_MAX_PACKET=96 -DVP_MAX_PAYLOAD=40"; XDEF="-DVP_MANY -DMAXALLOC=1200"; INC="-include $HERE/vp_small.h";;
    huge) DEF="-DVP_MAX_PACKET=8000 -DVP_MAX_PAYLOAD=40"; XDEF="-DVP_HUGE -DMAXALLOC=2200"; INC="-include $HERE/vp_small.h";;
    big) XDEF="-DVP_BIG";;
  esac
  for s in $SYMS; do echo "$s vp_$s"; done > "$D/syms"
  for o in $OBJS; do
    gcc -O1 -g -w -std=gnu11 -fsanitize=address --param asan-globals=0 -fno-common -fno-omit-frame-pointer -fno-pie -D_GNU_SOURCE -U_FORTIFY_SOURCE $DEF -I"$REPO" $INC -c "$REPO/$o.c" -o "$D/$o.o" &
  done
  gcc -O1 -g -w -std=gnu11 -fsanitize=address --param asan-globals=0 -fno-common -fno-omit-frame-pointer -fno-pie -U_FORTIFY_SOURCE -I"$REPO" -I"$HERE" -c "$HERE/vp_list.c" -o "$D/vp_list.o" &
  g++ -std=gnu++17 -O2 -g -Wall -Wno-misleading-indentation -Wno-unused-function -Wno-unused-variable -Wno-address-of-packed-member -Wno-array-bounds -Wno-stringop-overflow -fno-pie -U_FORTIFY_SOURCE $DEF $XDEF -I"$REPO" -I"$HERE" $INC -c "$HERE/rmcmc.cpp" -o "$D/h.o" &
  for j in $(jobs -p); do wait $j; done
  ld -r -o "$D/lib.o" $(for o in $OBJS; do echo "$D/$o.o"; done) "$D/vp_list.o"
  objcopy --redefine-syms="$D/syms" --rename-section .data=vplibdata,alloc,load,data,contents --rename-section .bss=vplibdata,alloc,load,data,contents "$D/lib.o" "$D/lib2.o"
  g++ -no-pie -fsanitize=address "$D/h.o" "$D/lib2.o" -o "$OUT/rmcmc_$v"
done
