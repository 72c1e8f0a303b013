#!/bin/bash
# run.sh NAME...: build findings/NAME.c with /repo's neco.c and run it
cd "$(dirname "$0")"
T=$(mktemp -d)
for n in ${@:-*.c}; do
  n=${n%.c}
  if gcc -O1 -g -w -I/repo -o $T/$n $n.c /repo/neco.c -lm -pthread $(grep -o '^// *LDFLAGS.*' $n.c | sed 's/.*LDFLAGS//'); then
    timeout 20 $T/$n; echo "$n: exit $?"
  fi
done
rm -rf "$T"
