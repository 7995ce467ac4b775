#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded (the check of its property catches each)."""
import json, os, re
d = '/verif/DESIGN.md'; s = open(d).read(); rows = ['| planted bug | property | needs |', '|---|---|---|']
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json')); rows.append(f"| {i} | {m['property']} | {m['needs']} |")
t = '<!-- plants -->\n' + '\n'.join(rows) + '\n<!-- /plants -->'
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- plants -->.*<!-- /plants -->', lambda _: t, s, flags=re.S)
s = s.replace(' @@MORE@@', ''); open(d, 'w').write(s)
