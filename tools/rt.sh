#!/bin/bash
# rebuild /repo and run its stable tests, one line of output
bash /opt/vp/build.sh > /tmp/rt.log 2>&1 || { tail -20 /tmp/rt.log; exit 1; }
grep -i "warning" /tmp/rt.log | head -5
bash /opt/vp/test.sh /tmp/rt.json 2>&1 | tail -1
