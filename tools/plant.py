#!/usr/bin/env python3
"""plant.py ID PROP FILE  (python snippet on stdin defining: edits=[(old,new),...], demo, needs, breaks) -> /verif/seeded/ID"""
import sys, os, json, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ed import edit
idn, prop = sys.argv[1:3]; ns = {}; exec(sys.stdin.read(), ns)
d = '/verif/seeded/' + idn; os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout
for f, prs in ns['edits'].items(): edit('/repo/arm-wt-22k/lib_src/' + f if '/' not in f else '/repo/' + f, prs)
p = subprocess.run(['git', '-C', '/repo', 'diff', '--binary'], capture_output=True).stdout
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/patch.diff', 'wb').write(p)
for f in ('demo.h', 'demo.sh'): shutil.copy('/verif/tools/demo/' + f, d + '/' + f)
os.chmod(d + '/demo.sh', 0o755)
open(d + '/demo.c', 'w').write('#include "demo.h"\n' + ns['demo'].strip() + '\n')
json.dump(dict(property=prop, needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
if ns.get('ldflags'): open(d + '/ldflags', 'w').write(ns['ldflags'] + '\n')
print(idn, len(p), 'bytes')
