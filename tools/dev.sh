#!/bin/bash
# dev.sh HARNESS.c3 [OPT]: compiles one harness into /tmp/dev/x and lists its bodies
cd /verif && python3 -c "from vlib import build; build.build()" >/dev/null
mkdir -p /tmp/dev; [ -f /tmp/dev/vh_rt.o ] || clang-18 -O2 -w -c vlib/rt/vh_rt.c -o /tmp/dev/vh_rt.o
[ vlib/rt/vh_rt.c -nt /tmp/dev/vh_rt.o ] && clang-18 -O2 -w -c vlib/rt/vh_rt.c -o /tmp/dev/vh_rt.o
/verif/.work/build/bin/c3c compile ${2:--O1} -g0 --build-dir /tmp/dev/b vlib/rt/vh.c3 "$1" -o /tmp/dev/x -z /tmp/dev/vh_rt.o >/tmp/dev/out 2>&1 && /tmp/dev/x list || grep -B2 'Error:' /tmp/dev/out | grep -v '^--' | cut -c1-200 | head -${3:-40}
