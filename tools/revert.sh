#!/bin/bash
# revert.sh PROP COUNT COMMIT...: sweep PROP on a scratch copy of /repo with each fix commit taken back (development aid)
P=$1; N=$2; shift 2; W=$(mktemp -d /tmp/rev.XXXX)
for c in "$@"; do
  cp -a /repo $W/r; (cd $W/r && git checkout -q -f HEAD && git revert --no-commit $c >/dev/null 2>&1) || echo "revert $c: conflicts"
  echo "== $P without $(git -C /repo log -1 --format='%h %s' $c)"
  SIM_REPO=$W/r SIM_BUILD=$W/b bash $(dirname $0)/sweep.sh $P $N fast 2>&1 | grep -v "^STATS\|^nondet 0" | head -4
  rm -rf $W/r $W/b
done; rm -rf $W
