#!/bin/bash
# apply seeded bug $1 in a scratch copy and run the checks $2.. there
set -u
id=$1; shift
rm -rf "/tmp/try-$id"; mkdir -p "/tmp/try-$id"
rsync -a --exclude target --exclude .git /repo "/tmp/try-$id/" 2>/dev/null || (cd / && tar cf - --exclude=target --exclude=.git repo | tar xf - -C "/tmp/try-$id")
cd "/tmp/try-$id/repo" && patch -s -p1 < "/verif/seeded/$id/patch.diff" || exit 2
cd /verif
for c in "$@"; do VX_REPO="/tmp/try-$id/repo" VX_EVID="/tmp/try-$id" timeout 900 python3 check.py "$c" quick 2>&1 | cut -c1-700 | tail -14; done
rm -rf "/tmp/try-$id"
