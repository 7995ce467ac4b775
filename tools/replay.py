#!/usr/bin/env python3
"""replay.py FILE [-v]: run one replay file again on the current tree (exit 1 when it still violates)."""
import sys, os, re, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
txt = open(sys.argv[1]).read(); m = re.search(r"^# build (\S+)", txt, re.M)
exe = B.build(m.group(1) if m else "fast")
e = dict(os.environ); e.setdefault("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=600"); e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1:exitcode=77")
r = subprocess.run([exe, "judge", sys.argv[1]] + sys.argv[2:], stdout=subprocess.PIPE, text=True, env=e)
sys.stdout.write(r.stdout); sys.exit(1 if r.returncode or "RESULT VIOLATED" in r.stdout else 0)
