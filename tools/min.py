#!/usr/bin/env python3
"""min.py PROP SEED [tier]: minimise a failing seed and print plan + detail (development aid)"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as K
prop, seed = sys.argv[1], sys.argv[2]; tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
v = os.environ.get("VARIANT", "fast"); exe = B.build(v)
text = subprocess.run([exe, "plan", prop, seed, tier], capture_output=True, text=True).stdout
bad, cls, det, h = K.judge(exe, v, text, 30)
print(bad, cls, det)
if bad:
    r = K.minimise(exe, v, text, cls, 30, 60); t = r if isinstance(r, str) else r[0]
    print(t); print(K.judge(exe, v, t, 30)[:3])
