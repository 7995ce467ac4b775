#!/bin/bash
# subplan.sh PROP SEED: minimise a random sub-plan (SIM_DROP) that fails; development aid
EXE=$(python3 $(dirname $0)/build.py fast | tail -1); SIM_DROP=1 $EXE plan $1 $2 > /tmp/sub.$$; python3 - /tmp/sub.$$ <<'P'
import sys; sys.path.insert(0,'/verif/tools')
import build as B, check as K
t=open(sys.argv[1]).read(); e=B.build('fast'); b,c,d,h=K.judge(e,'fast',t,30); print(b,c,d)
if b:
    r=K.minimise(e,'fast',t,c,30,60)[0]; print(r); print(K.judge(e,'fast',r,30)[:3])
P
rm -f /tmp/sub.$$
