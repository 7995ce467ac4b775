#!/usr/bin/env python3
"""Adequacy of the checks: small random changes of the library, and which check notices each of them.

mutate.py OUT.jsonl COUNT [SEED] [WORKERS] [FILE,FILE...]
Changes are made in a scratch copy; nothing is written in /repo.  A line per change: killed by which check, or survived.
"""
import os, re, sys, json, random, subprocess, shutil, time, tempfile
from multiprocessing import Process, Queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, config
ORDER = (os.environ.get("MUT_ORDER") or "D03 T01 L03 L01 L04 L05 V05 V06 T05 V04 T04 T03 V03 D01 S03 S02 T06 T02 S01 L02 M02 M03 M04 V01 V02 D02 E01 W01 D04 V07 M01").split()
FILES = "eas_public eas_smf eas_midi eas_voicemgt eas_mixer eas_mdls eas_dlssynth eas_wtsynth eas_wtengine eas_chorus eas_reverb eas_pan eas_math eas_data eas_hostmm".split()

def body_lines(text):
    out = []; depth = 0; com = False
    for i, l in enumerate(text.split("\n")):
        s = re.sub(r'"(\\.|[^"\\])*"', '""', l); s = re.sub(r"/\*.*?\*/", "", s)
        if com:
            if "*/" in s: com = False; s = s.split("*/", 1)[1]
            else: continue
        if "/*" in s: com = True; s = s.split("/*", 1)[0]
        s = s.split("//")[0]
        if s.strip().startswith("#"): continue
        if depth > 0 and s.strip() and s.strip() not in "{}" and not re.match(r"^[\s\d,x+.-]+$", s.lower()): out.append(i)
        depth += s.count("{") - s.count("}")
    return out
COND = os.environ.get("MUT_COND")       # changes that take effect only for one channel, stream, synthesizer, voice, value...
CONDS = {"channel": ["(channel & 15) == 11", "(channel & 15) == 15"], "voiceNum": ["voiceNum == 9", "voiceNum > 24"], "pSynth": ["pSynth->vSynthNum == 2", "pSynth->vSynthNum == 1", "pSynth->numActiveVoices > 5"], "pVoiceMgr": ["pVoiceMgr->activeVoices > 12", "pVoiceMgr->activeVoices == 1", "pVoiceMgr->pSynth[1] != 0"],
  "streamNum": ["streamNum == 2"], "value": ["value == 127", "value == 0"], "velocity": ["velocity == 1", "velocity == 127"], "note": ["note > 110", "note == 60"], "key": ["key == 60"], "program": ["program == 127"], "bank": ["bank == 0x7900"], "pVoice": ["pVoice->note == 64", "(pVoice->channel & 15) == 7", "pVoice->voiceState == 2"],
  "pSMFData": ["pSMFData->numStreams > 3", "pSMFData->time > 2000000", "pSMFData->state == 5"], "pEASData": ["pEASData->renderTime > 1500", "pEASData->masterVolume < 60", "pEASData->streams[2].handle != 0"], "pMIDIStream": ["pMIDIStream->runningStatus == 0x9b", "pMIDIStream->status == 0xb0"], "c": ["c == 127"], "parserMode": ["parserMode == 1", "parserMode == 2"], "control": ["control == 7"],
  "pParser": [], "pDLSData": ["pDLSData->instCount > 2", "pDLSData->waveCount > 2"], "size": ["size > 64"], "pStream": ["pStream->time > 300000", "pStream->repeatCount != 0", "pStream->volume < 60"], "numSamples": ["numSamples == 37", "numSamples == 256"], "artIndex": ["artIndex > 2"], "regionIndex": ["(regionIndex & 0x3fff) == 3"]}
def params(L, i):
    while i >= 0 and not L[i].startswith("{"): i -= 1
    h = ""; i -= 1
    while i >= 0 and not h.startswith("(") and not re.match(r"^\w.*\(", L[i]): h = L[i] + h; i -= 1
    return set(re.findall(r"(\w+)\s*[,)\[]", L[i] + h)) if i >= 0 else set()
def conditional(L, i, ms, rng):
    P = params(L, i); cs = [c for p in P for c in CONDS.get(p, [])]; l = L[i]; s = l.strip()
    if not cs or not ms: return None
    c = rng.choice(cs); m = rng.choice(ms); prev = L[i - 1].strip()
    a = re.match(r"^(else )?if \((.*)\)$", s); b = re.match(r"^(else )?if \((.*)\)$", m.strip())
    if a and b: return "%sif ((%s) ? (%s) : (%s))" % (a.group(1) or "", c, b.group(2), a.group(2))
    if s.endswith(";") and s.count("(") == s.count(")") and (prev == "" or prev[-1:] in ";{}:/" or prev.startswith("if") or prev == "else") and not re.match(r"^(return|EAS_\w+ \*?\w+|S_\w+ \*?\w+|const|static|for|int|break|case|while|else|default|goto|continue)\b.*", s): return "{ if (%s) { %s } else { %s } }" % (c, m.strip(), s)
    return None
GUARD = os.environ.get("MUT_GUARD")     # only: range checks taken out
def mutations(l):
    r = []; code = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group(0)), l)
    if GUARD:
        m = re.match(r"^(\s*)(else if|if) \((.*)\)\s*$", code); return [m.group(1) + m.group(2) + " (0)"] if m and re.search(r"[<>]|NULL|overflow", m.group(3)) else []
    def sub(pat, reps):
        for m in re.finditer(pat, code):
            for rep in reps: r.append(l[:m.start()] + rep + l[m.end():])
    sub(r"(?<![<>=!-])<(?![<=])", ["<=", ">="]); sub(r"(?<![<>=-])>(?![>=])", [">=", "<="]); sub(r"<=", ["<"]); sub(r"(?<!>)>=", [">"])
    sub(r"==", ["!="]); sub(r"!=", ["=="]); sub(r"&&", ["||"]); sub(r"\|\|", ["&&"]); sub(r" \+ ", [" - "]); sub(r" - ", [" + "]); sub(r" \* ", [" + "])
    sub(r"\+\+", ["--"]); sub(r"--", ["++"]); sub(r"\+=", ["-=", "="]); sub(r"-=", ["+="]); sub(r"\|=", ["=", "&="]); sub(r"&=", ["="]); sub(r"<<", [">>"]); sub(r">>", ["<<"])
    for m in re.finditer(r"(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])", code):
        v = int(m.group(1), 0)
        for n in {v + 1, v - 1 if v else 1}: r.append(l[:m.start()] + str(n) + l[m.end():])
    sub(r"\bEAS_TRUE\b", ["EAS_FALSE"]); sub(r"\bEAS_FALSE\b", ["EAS_TRUE"])
    m = re.match(r"^(\s*)(else if|if|while) \((.*)\)\s*$", code)
    if m and m.group(2) != "while": r += [m.group(1) + m.group(2) + " (1)", m.group(1) + m.group(2) + " (0)"]
    s = code.strip()
    if s.endswith(";") and ("=" in s or re.match(r"^[\w>.\-]+ ?\(", s)) and not re.match(r"^(return|EAS_\w+ \*?\w+|S_\w+ \*?\w+|const|static|for|int)\b.*", s): r += [re.match(r"^\s*", l).group(0) + ";"] * 2
    if s == "break;": r.append(l.replace("break;", ";"))
    return [x for x in r if x != l]

def worker(k, q, out, seed):
    V = B.VARIANTS; root = "/tmp/mut/w%d" % k; shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    inc = root + "/inc"; B.gen_header(inc); INC = ["-I" + inc, "-I" + B.REPO + "/arm-wt-22k/host_src", "-I" + B.REPO + "/arm-wt-22k/lib_src", "-I" + B.REPO + "/fakes"]
    objs = {}
    for v in ("fast", "asan"):
        d = os.path.join(B.BUILD, v); lib = [os.path.join(d, x) for x in os.listdir(d) if x.startswith("lib-")][0]; shutil.copytree(lib, root + "/lib-" + v); shutil.copytree(d + "/sim", root + "/sim-" + v)
        objs[v] = root + "/lib-" + v
    def compile(v, src, o, extra=[]):
        W = V[v]; r = subprocess.run([W["cc"], "-std=gnu11", "-w", "-fexceptions", "-fno-builtin-malloc"] + W["cflags"] + W["defs"] + INC + extra + ["-c", src, "-o", o], capture_output=True, text=True)
        if r.returncode: return False
        und = subprocess.run(["nm", "-u", o], capture_output=True, text=True).stdout.split(); a = []
        for x, y in B.SYMS.items():
            if x in und: a += ["--redefine-sym", "%s=%s" % (x, y)]
        if "EAS_HWYield" in und: a += ["--redefine-sym", "EAS_HWYield=sim_yield"]
        if a: subprocess.run(["objcopy"] + a + [o], check=True)
        return True
    def link(v, name, o):
        W = V[v]; l = [o if x == name + ".o" else objs[v] + "/" + x for x in os.listdir(objs[v]) if x.endswith(".o")]; s = [root + "/sim-" + v + "/" + x for x in os.listdir(root + "/sim-" + v) if x.endswith(".o")]
        e = root + "/exe-" + v; subprocess.run([W["cxx"]] + W["ld"] + ["-o", e] + s + l + ["-lm", "-lpthread"], check=True, capture_output=True); return e
    while True:
        m = q.get()
        if m is None: return
        f, line, new, old = m; name = os.path.basename(f)[:-2]; src = root + "/" + name + ".c"
        def text(mut):
            L = open(f, newline="").read().split("\n"); cr = L[line].endswith("\r")
            if mut: L[line] = new + ("\r" if cr else "")
            open(src, "w", newline="").write("\n".join(L))
        extra = ["-I" + os.path.dirname(f)]
        text(False); compile("fast", src, root + "/a.o", extra + ["-g0"]); text(True)
        if not compile("fast", src, root + "/b.o", extra + ["-g0"]): continue
        if subprocess.run("objcopy -O binary -j .text -j .rodata -j .data %s/a.o %s/a.bin; objcopy -O binary -j .text -j .rodata -j .data %s/b.o %s/b.bin; cmp -s %s/a.bin %s/b.bin" % ((root,) * 6), shell=True).returncode == 0 and open(root + "/a.o", "rb").read() == open(root + "/b.o", "rb").read(): continue
        rec = dict(file=name, line=line + 1, old=old.strip(), new=new.strip(), killed=None)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", SIM_HANG="20"); t0 = time.time()
        exes = {"fast": link("fast", name, root + "/b.o")}
        for p in ORDER:
            v = "asan" if p == "M01" else "fast"
            if v == "asan" and v not in exes:
                if not compile("asan", src, root + "/c.o", extra): break
                exes["asan"] = link("asan", name, root + "/c.o")
            n = int(os.environ.get("MUT_SEEDS", "300")) * (5 if p == "M01" and not GUARD else 1)
            try: r = subprocess.run([exes[v], "run", p, "10000001", "1", str(n), os.environ.get("MUT_TIME", "25"), "quick"], capture_output=True, text=True, env=env, timeout=float(os.environ.get("MUT_TIME", "25")) + 65, errors="replace"); bad = r.returncode or "\nFAIL" in "\n" + r.stdout or "NONDET" in r.stdout; why = (re.search(r"FAIL (.*)", r.stdout) or re.search(r"(ERROR.*|SIM-HANG.*|runtime error.*)", r.stderr) or re.match("()", "")).group(1) if bad else ""
            except subprocess.TimeoutExpired: bad = True; why = "timeout"
            if bad: rec["killed"] = p; rec["why"] = why[:120]; break
        rec["s"] = round(time.time() - t0, 1); out.put(rec)

if __name__ == "__main__":
    path, count = sys.argv[1], int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1; nw = int(sys.argv[4]) if len(sys.argv) > 4 else 8; files = sys.argv[5].split(",") if len(sys.argv) > 5 else FILES
    rng = random.Random(seed); B.build("fast"); B.build("asan"); cand = []
    for s in B.sources():
        n = os.path.basename(s)[:-2]
        if n in files:
            L = [x.rstrip("\r") for x in open(s, newline="").read().split("\n")]
            for i in body_lines("\n".join(L)):
                ms = mutations(L[i])
                if ms: cand.append((s, i, ms, L[i]))
    q = Queue(); out = Queue(); done = set(); jobs = []
    while len(jobs) < count * 2 and len(done) < len(cand):
        i = rng.randrange(len(cand))
        if i in done: continue
        done.add(i); s, l, ms, old = cand[i]; new = rng.choice(ms)
        if COND:
            new = conditional([x.rstrip("\r") for x in open(s, newline="").read().split("\n")], l, ms, rng)
            if new is None: continue
        jobs.append((s, l, new, old))
    for j in jobs: q.put(j)
    for _ in range(nw): q.put(None)
    ps = [Process(target=worker, args=(k, q, out, seed)) for k in range(nw)]; [p.start() for p in ps]
    n = k = 0
    with open(path, "a") as fo:
        while n < count and any(p.is_alive() for p in ps):
            try: r = out.get(timeout=5)
            except Exception: continue
            n += 1; k += r["killed"] is not None; fo.write(json.dumps(r) + "\n"); fo.flush()
    [p.terminate() for p in ps]; shutil.rmtree("/tmp/mut", ignore_errors=True); print("%d changes, %d noticed" % (n, k))
