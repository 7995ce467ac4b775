#!/bin/bash
# sweep.sh PROP COUNT [variant] [tier]: class histogram of a seed range, first example of each class
V=${3:-fast}; EXE=$(python3 $(dirname $0)/build.py $V | tail -1); T=${4:-quick}; N=$(( $2 / 8 )); D=$(mktemp -d)
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 SIM_HANG=30
for w in 0 1 2 3 4 5 6 7; do
  ( timeout 900 $EXE run $1 $((1+w)) 8 $N ${MAXS:-120} $T $D/p$w > $D/o$w 2> $D/e$w || echo "worker $w rc=$? seed $(cat $D/p$w) $(grep -m1 -E 'ERROR|SIM-HANG|runtime error' $D/e$w) $(grep -m1 -E '#[0-9]+ .*lib_src|#[0-9]+ .*host_src' $D/e$w)" ) &
done
wait
cat $D/o* | grep ^FAIL | awk '{c[$3]++; if(!($3 in e)) e[$3]=$0} END{for(k in c) print c[k], e[k]}' | sort -rn
echo "nondet $(cat $D/o* | grep -c ^NONDET)"; cat $D/o* | grep ^STATS | sed 's/"samples.*//' | head -2; rm -r $D
