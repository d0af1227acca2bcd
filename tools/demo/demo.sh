#!/bin/bash
# exit 0: the property holds in /repo (the current directory); non-zero: it does not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
SRC=$(make -s -f Makefile print_obj 2>/dev/null | grep -v '^make' | tr ' ' '\n' | sed -n 's#.*/\([^/]*\)\.o$#\1.c#p')
[ -n "$SRC" ] || SRC="circular_buffer.c pub.c rmc_connection.c rmc_log.c rmc_protocol.c rmc_pub_context.c rmc_pub_packet.c rmc_pub_read.c rmc_pub_timeout.c rmc_pub_write.c rmc_sub_context.c rmc_sub_packet.c rmc_sub_read.c rmc_sub_timeout.c rmc_sub_write.c sub.c time.c"
W=""; for s in socket bind listen setsockopt getsockopt getsockname fcntl connect accept accept4 sendmsg sendto recvfrom readv read writev write shutdown close clock_gettime; do W="$W -Wl,--wrap=$s"; done
gcc -U_FORTIFY_SOURCE -O1 -g -w -std=gnu11 -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=address -fno-sanitize=alignment,nonnull-attribute -I. -I"$D" "$D/demo.c" $SRC $W -o "$T/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0:exitcode=9 timeout 120 "$T/demo" > "$T/out" 2> "$T/err"; r=$?
tail -6 "$T/out"; [ $r = 0 ] || tail -5 "$T/err"
exit $r
