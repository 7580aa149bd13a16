#!/bin/bash
# tryall.sh <module> <prop> ids...: one line per edit
m=$1; c=$2; shift 2
for i in "$@"; do
  python3 tryref.py $m:$i $c > /tmp/try-$i.log 2>&1
  echo "$i: $(grep -o 'exit [0-9]*' /tmp/try-$i.log) | $(grep -E 'obligations' /tmp/try-$i.log | cut -c1-130) | $(grep -E 'undecided:|^ *C17|    blake2|rule broken' -A1 /tmp/try-$i.log | tail -2 | tr '\n' ' ' | cut -c1-220) $(grep -m1 -E 'Error|error' /tmp/try-$i.log | cut -c1-150)"
done
