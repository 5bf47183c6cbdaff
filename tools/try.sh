#!/bin/bash
# try.sh PATCH PROP...: runs the named checks against a scratch copy of /repo with PATCH applied.
patch=$(readlink -f "$1"); shift
W=/tmp/mut
mkdir -p $W
if [ ! -d $W/build/driver ]; then mkdir -p $W/build; cp -a /verif/build/driver $W/build/; cp -a /verif/build/target $W/build/ 2>/dev/null; fi
mkdir -p $W/repo
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/mut/repo; mkdir -p $W/repo; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C $W/repo; }
(cd $W/repo && patch -p1 -s < "$patch") || exit 9
for p in "$@"; do
  echo "== $p"
  FYI_REPO=$W/repo FYI_BUILD=$W/build FYI_EVIDENCE=$W/ev python3 /verif/check.py --property $p 2>&1 | cut -c1-250 | tail -${LINES_MAX:-6}
done
