#!/usr/bin/env python3
"""Seeded simulation search for one property.

  check.py PROP [--tier quick|thorough] [--seeds N] [--first S] [--no-min]

Every run is one seed; a seed fixes the generated scenario, its faults and every scheduling decision.
A failing seed is confirmed in fresh processes, minimised line by line and written as a replay file.
"""
import os, sys, json, re, subprocess, time, tempfile, argparse, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import config as C
NW = int(os.environ.get("SIM_WORKERS", os.cpu_count() or 4))
REPLAYS = os.path.join(VERIF, "replays")
FRAME = 44100.0

def env(variant, hang):
    e = dict(os.environ); e["SIM_HANG"] = str(hang)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=600"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    return e

def crash_class(rc, err):
    m = re.search(r"SUMMARY: (?:Address|UndefinedBehavior)Sanitizer: (\S+) (\S+)(?: in (\S+))?", err)
    if m:
        where = m.group(3) or ""
        fr = re.search(r"#\d+ 0x\S+ in (\S+) /repo/\S*?([\w.]+\.c)", err)
        return "crash:%s:%s" % (m.group(1), fr.group(1) if fr else where or "?")
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m: return "crash:ub:" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    if rc == 86 or "SIM-HANG" in err: return "hang"
    if rc < 0: return "crash:signal%d" % -rc
    return "crash:exit%d" % rc

def crash_detail(err):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", err)
    fr = re.findall(r"#\d+ 0x\S+ in (\S+) [^\n]*?/([\w.]+:\d+)", err)
    return (m.group(1).strip() if m else "no report") + " @ " + " < ".join("%s(%s)" % f for f in fr[:5])

def judge(exe, variant, text, hang):
    """-> (violated, class, detail, hash)"""
    fd, path = tempfile.mkstemp(prefix="simplan-", suffix=".plan"); os.write(fd, text.encode()); os.close(fd)
    try:
        try: r = subprocess.run([exe, "judge", path], capture_output=True, text=True, env=env(variant, hang), timeout=hang * 8 + 60, errors="replace")
        except subprocess.TimeoutExpired: return True, "hang", "no end within %d s wall" % (hang * 8 + 60), "-"
    finally: os.unlink(path)
    m = re.search(r"^RESULT (\S+) hash=(\S+) class=(\S+)", r.stdout, re.M)
    if r.returncode != 0 or not m:
        return True, crash_class(r.returncode, r.stderr), crash_detail(r.stderr), "-"
    d = re.search(r"^DETAIL (.*)$", r.stdout, re.M)
    return m.group(1) == "VIOLATED", m.group(3), d.group(1) if d else "", m.group(2)

def minimise(exe, variant, text, cls, hang, budget):
    """parallel ddmin over plan lines; a candidate counts when the same violation class shows again"""
    t0 = time.time(); lines = text.splitlines(); head, body = lines[:2], lines[2:]
    bad = lambda b: (lambda r: r[0] and r[1] == cls)(judge(exe, variant, "\n".join(head + b) + "\n", hang))
    tried = 0
    n = 2
    with ThreadPoolExecutor(max_workers=NW) as ex:
        while len(body) >= 1 and time.time() - t0 < budget:
            n = min(n, len(body)); size = len(body) / n
            cands = [body[:int(i * size)] + body[int((i + 1) * size):] for i in range(n)]
            hit = None
            for i in range(0, len(cands), NW):
                if time.time() - t0 > budget: break
                res = list(ex.map(bad, cands[i:i + NW])); tried += len(res)
                for c, ok in zip(cands[i:i + NW], res):
                    if ok: hit = c; break
                if hit is not None: break
            if hit is not None: body = hit; n = max(n - 1, 2)
            elif n >= len(body): break
            else: n = min(len(body), n * 2)
    return "\n".join(head + body) + "\n", tried

def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) detail=/(.*?)/ :: (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seeds", type=int); ap.add_argument("--first", type=int); ap.add_argument("--no-min", action="store_true"); ap.add_argument("--no-evidence", action="store_true"); ap.add_argument("--all", action="store_true")
    a = ap.parse_args(); t0 = time.time(); prop = a.prop; cfg = C.PROPS[prop]; tier = a.tier
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1); base = a.first if a.first is not None else vseed * 10000000
    legs = cfg[tier]           # list of (variant, seeds, seconds)
    total = dict(runs=0, nontrivial=0, distinct=0, states=0, twice=0, mismatch=0, simframes=0, cpu=0.0); counters = {}; samples = []; fails = []; nondet = []; per_leg = []
    os.makedirs(REPLAYS, exist_ok=True)
    for leg, (variant, seeds, secs) in enumerate(legs):
        exe = B.build(variant)
        if a.seeds: seeds = a.seeds
        legbase = base + leg * 3000000; hang = cfg.get("hang", 40) * (3 if variant == "asan" else 1); tl = time.time()
        tmp = tempfile.mkdtemp(prefix="simrun-")
        def worker(w):
            out = []; first = legbase + w; cnt = (seeds - w + NW - 1) // NW; dl = time.time() + secs; restarts = 0
            while cnt > 0 and time.time() < dl:
                pf = os.path.join(tmp, "p%d" % w); open(pf, "w").close()
                r = subprocess.run([exe, "run", prop, str(first), str(NW), str(cnt), "%.1f" % max(1, dl - time.time()), tier, pf], capture_output=True, text=True, env=env(variant, hang), errors="replace")
                out.append(r.stdout)
                if r.returncode == 0: break
                s = open(pf).read().split()
                if not s or s[0] == "done": out.append("BROKEN rc=%d %s\n" % (r.returncode, r.stderr[-400:])); break
                seed = int(s[0]); out.append("FAIL %d %s %s\n" % (seed, crash_class(r.returncode, r.stderr), crash_detail(r.stderr)))
                done = (seed - first) // NW + 1; out.append("PARTIAL %d\n" % done); first += done * NW; cnt -= done; restarts += 1
                if restarts >= 12: break
            return "".join(out)
        with ThreadPoolExecutor(max_workers=NW) as ex: outs = list(ex.map(worker, range(NW)))
        hashes = set(); states = set(); lr = 0
        for w, o in enumerate(outs):
            for line in o.splitlines():
                if line.startswith("FAIL "): _, sd, cls, *rest = line.split(" ", 3); fails.append((leg, variant, int(sd), cls, rest[0] if rest else ""))
                elif line.startswith("NONDET "): nondet.append((leg, variant, int(line.split()[1])))
                elif line.startswith("PARTIAL "): total["runs"] += int(line.split()[1]); lr += int(line.split()[1])
                elif line.startswith("HASHES "): hashes.update(line[7:].split())
                elif line.startswith("STATES "): states.update(line[7:].split())
                elif line.startswith("BROKEN "): print("harness worker failed: " + line, file=sys.stderr); sys.exit(4)
                elif line.startswith("STATS "):
                    s = json.loads(line[6:]); lr += s["runs"]
                    for k in ("runs", "nontrivial", "twice", "mismatch", "simframes"): total[k] += s[k]
                    total["cpu"] += s["wall"]
                    for k, v in s["counters"].items(): counters[k] = counters.get(k, 0) + v
                    samples += s["samples"]
        total["distinct"] += len(hashes); total["states"] += len(states); wl = time.time() - tl
        per_leg.append(dict(build=variant, runs=lr, wall_s=round(wl, 2)))
        shutil.rmtree(tmp, ignore_errors=True)
        if fails and not a.all: break
    explore_wall = time.time() - t0
    # one representative per class, confirmed in fresh processes
    rc = 0; reported = []; notes = []; seen = {}
    order = sorted(fails, key=lambda f: (f[0], f[2]))
    for f in order: seen.setdefault((f[1], f[3]), []).append(f)
    if nondet and prop == "D01" and not fails: seen[(nondet[0][1], "nondeterminism")] = [(nondet[0][0], nondet[0][1], nondet[0][2], "nondeterminism", "two executions of one seed differ")]
    min_budget = 45 if tier == "quick" else 240
    kf = known(); kf_hit = set()
    for (variant, cls), lst in seen.items():
        if len(reported) >= (50 if a.all else 3): break
        exe = B.build(variant); hang = cfg.get("hang", 40) * (3 if variant == "asan" else 1)
        ok = None
        for (leg, _, seed, c, detail) in lst[:3]:
            text = subprocess.run([exe, "plan", prop, str(seed), tier], capture_output=True, text=True).stdout
            r1 = judge(exe, variant, text, hang); r2 = judge(exe, variant, text, hang)
            if r1[0] and r2[0] and r1[1] == r2[1] and r1[3] == r2[3]: ok = (seed, text, r1); break
            notes.append("seed %d (%s) did not reproduce in a fresh process: %s / %s" % (seed, c, r1[:2], r2[:2]))
        if not ok: continue
        seed, text, res = ok; cls = res[1]
        if any(k[0] == prop and k[1] == cls for k in kf): pass
        mtext, tried = (text, 0) if a.no_min else minimise(exe, variant, text, cls, hang, min_budget)
        fin = judge(exe, variant, mtext, hang)
        if not fin[0]: mtext = text; fin = judge(exe, variant, text, hang)
        k = [x for x in kf if x[0] == prop and x[1] == fin[1] and re.search(x[2], fin[2])]
        if k: kf_hit.add(k[0]); continue
        path = os.path.join(REPLAYS, "%s-%s-%d.plan" % (prop, tier, seed))
        with open(path, "w") as h: h.write("# build %s  class %s\n# %s\n# replay: python3 /verif/tools/replay.py %s\n" % (variant, fin[1], fin[2].replace("\n", " "), path) + mtext)
        reported.append(dict(seed=seed, build=variant, cls=fin[1], detail=fin[2], replay=path, lines=mtext.count("\n"), original_lines=text.count("\n"), minimise_runs=tried, seeds_failing=len(lst)))
        print("violation class=%s seed=%d build=%s: %s" % (fin[1], seed, variant, fin[2])); sys.stdout.write("".join("    " + l + "\n" for l in mtext.splitlines()[:60]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); rc = 1
    for x in kf:
        if x[0] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, x[3]))
    for n in notes: print("note: " + n)
    if nondet and prop != "D01": print("note: %d seeds gave two different traces in one process" % len(nondet))
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    ev = dict(property=prop, tier=tier, seed=vseed, level="exploration", wall_s=round(wall, 2), violations=len(reported),
        coverage=dict(evaluations=total["runs"], distinct_nontrivial=min(total["distinct"], total["nontrivial"]) if total["nontrivial"] else 0,
            rule=cfg["rule"], samples=samples[:3], runs_per_hour=int(total["runs"] / max(explore_wall, 1e-3) * 3600), seeds_per_hour=int(total["runs"] / max(explore_wall, 1e-3) * 3600),
            simulated_seconds=round(total["simframes"] / FRAME, 1), first_seed=base, legs=per_leg, workers=NW, cpu_s=round(total["cpu"], 1),
            faults_injected=faults, distinct_executions=total["distinct"], distinct_measure="hash of the complete recorded history of a run (every call result, callback and output slice)",
            distinct_states=total["states"], judged_twice=total["twice"], determinism_mismatches=total["mismatch"],
            counters={k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")}, failures=reported, notes=notes,
            real_components="all library sources listed in /repo/CMakeLists.txt, compiled from the working tree", stub_components="heap, process exit, clocks, random source, host yield, file device behind EAS_FILE.readAt/size"),
        assumptions=cfg.get("assumptions", []) + C.ASSUMPTIONS)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h: json.dump(ev, h, indent=1)
    print("%s %s: %d runs, %d distinct, %.1f simulated s, %d faults, %.1f s wall -> %s" % (prop, tier, total["runs"], total["distinct"], total["simframes"] / FRAME, sum(faults.values()), wall, "VIOLATED" if rc else "held"))
    sys.exit(rc)
if __name__ == "__main__": main()
