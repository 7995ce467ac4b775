#!/usr/bin/env python3
"""Build the simulator around /repo's current working tree.

Library sources are whatever /repo/CMakeLists.txt lists; they are compiled here with the
same definitions as the shipped library, then every call they make to the heap, the
process, the clock, the random source and the host yield hook is renamed (objcopy) to the
simulator's own versions.  Nothing is written in /repo.
"""
import os, re, sys, hashlib, subprocess, fcntl, glob, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
DEFS = ["-DUNIFIED_DEBUG_MESSAGES", "-DEAS_WT_SYNTH", "-DNUM_OUTPUT_CHANNELS=2",
        "-D_FILTER_ENABLED", "-DDLS_SYNTHESIZER", "-D_REVERB_ENABLED", "-D_CHORUS_ENABLED",
        ]
SYMS = {"malloc": "sim_malloc", "free": "sim_free", "calloc": "sim_calloc", "realloc": "sim_realloc", "strdup": "sim_strdup",
        "exit": "sim_exit", "abort": "sim_abort", "_exit": "sim_exit",
        "time": "sim_time", "clock": "sim_clock", "gettimeofday": "sim_gettimeofday", "clock_gettime": "sim_clock_gettime",
        "rand": "sim_rand", "random": "sim_random", "srand": "sim_srand", "srandom": "sim_srand"}
VARIANTS = {
    "fast": dict(cc="gcc", cxx="g++", cflags=["-O2", "-g1"], ld=[], asan=0),
    "asan": dict(cc="clang", cxx="clang++", ld=["-fsanitize=address,undefined"], asan=1,
                 cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
                         "-fsanitize=bounds,null,integer-divide-by-zero,unreachable,return,vla-bound,nonnull-attribute,returns-nonnull-attribute",
                         "-fno-sanitize-recover=all"]),
}

# the documented build options USE_44KHZ, USE_16BITS_SAMPLES and MAX_VOICES: the default build, the other rate and sample size, few and many voices
V64 = ["-DMAX_SYNTH_VOICES=64"]
CONFIG = {"": ["-D_16_BIT_SAMPLES", "-D_SAMPLE_RATE_44100"], "v8": ["-D_16_BIT_SAMPLES", "-D_SAMPLE_RATE_44100", "-DMAX_SYNTH_VOICES=8"], "v200": ["-D_16_BIT_SAMPLES", "-D_SAMPLE_RATE_44100", "-DMAX_SYNTH_VOICES=200"], "22k": ["-D_16_BIT_SAMPLES", "-D_SAMPLE_RATE_22050"],
          "8bit": ["-D_8_BIT_SAMPLES", "-D_SAMPLE_RATE_44100"], "22k8": ["-D_8_BIT_SAMPLES", "-D_SAMPLE_RATE_22050"]}
for _n in list(VARIANTS):
    for _c in CONFIG: VARIANTS[_n + ("-" + _c if _c else "")] = dict(VARIANTS[_n], defs=DEFS + CONFIG[_c] + ([] if "v" in _c else V64))

def sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"list\(\s*APPEND\s+SOURCES(.*?)\)", txt, re.S)
    src = []
    for line in m.group(1).splitlines():
        line = line.split("#")[0].strip()
        src += [w for w in line.split() if w.endswith(".c")]
    return [os.path.join(REPO, s) for s in src]

def gen_header(outdir):
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)(?:\.(\d+))?", txt[txt.index("project("):])
    h = open(os.path.join(REPO, "arm-wt-22k/host_src/eas.cmake")).read()
    for k, g in (("MAJOR", 1), ("MINOR", 2), ("PATCH", 3), ("TWEAK", 4)):
        h = h.replace("@PROJECT_VERSION_%s@" % k, v.group(g) or "0")
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, "eas.h")
    if not os.path.exists(p) or open(p).read() != h:
        open(p, "w").write(h)

def tree_hash(paths, salt):
    h = hashlib.sha256(salt.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(3)

def build(variant="fast"):
    V = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock." + variant), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    libfiles = [p for d in ("host_src", "lib_src") for p in glob.glob(os.path.join(REPO, "arm-wt-22k", d, "*")) if os.path.isfile(p)]
    libfiles += [p for p in glob.glob(os.path.join(REPO, "fakes", "**", "*"), recursive=True) if os.path.isfile(p)] + [os.path.join(REPO, "CMakeLists.txt")]
    simfiles = sorted(glob.glob(os.path.join(VERIF, "sim", "*.h")) + glob.glob(os.path.join(VERIF, "sim", "*.cpp")))
    salt = repr((V, SYMS))
    lk = tree_hash(libfiles, salt)
    pub = [os.path.join(REPO, "arm-wt-22k/host_src", f) for f in ("eas.cmake", "eas_types.h", "eas_reverb.h", "eas_chorus.h")]
    hk = tree_hash([p for p in simfiles if p.endswith(".h")] + pub, salt)
    ldir = os.path.join(BUILD, variant, "lib-" + lk); sdir = os.path.join(BUILD, variant, "sim")
    inc = os.path.join(BUILD, variant, "inc"); gen_header(inc)
    INC = ["-I" + inc, "-I" + os.path.join(REPO, "arm-wt-22k/host_src"), "-I" + os.path.join(REPO, "arm-wt-22k/lib_src"), "-I" + os.path.join(REPO, "fakes")]
    for d in (ldir, sdir): os.makedirs(d, exist_ok=True)
    jobs = []; lobjs = []; sobjs = []
    for s in sources():
        o = os.path.join(ldir, os.path.basename(s)[:-2] + ".o"); lobjs.append(o)
        if not os.path.exists(o): jobs.append(("c", s, o))
    for s in simfiles:
        if not s.endswith(".cpp"): continue
        k = tree_hash([s], hk); o = os.path.join(sdir, os.path.basename(s)[:-4] + "-" + k + ".o"); sobjs.append(o)
        if not os.path.exists(o): jobs.append(("x", s, o))
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    def one(j):
        kind, s, o = j; t = o + ".tmp.o"
        if kind == "c":
            run([V["cc"], "-std=gnu11", "-w", "-fexceptions", "-fno-builtin-malloc"] + V["cflags"] + V["defs"] + INC + ["-c", s, "-o", t])
            und = subprocess.run(["nm", "-u", t], capture_output=True, text=True).stdout.split()
            args = []
            for a, b in SYMS.items():
                if a in und: args += ["--redefine-sym", "%s=%s" % (a, b)]
            if "EAS_HWYield" in und: args += ["--redefine-sym", "EAS_HWYield=sim_yield"]
            if args: run(["objcopy"] + args + [t])
        else:
            run([V["cxx"], "-std=c++17", "-w", "-DSIM_ASAN=%d" % V["asan"]] + V["cflags"] + V["defs"] + INC + ["-c", s, "-o", t])
        os.rename(t, o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))
    exe = os.path.join(BUILD, variant, "sim-" + hashlib.sha256("".join(lobjs + sobjs).encode()).hexdigest()[:12])
    if not os.path.exists(exe):
        run([V["cxx"]] + V["ld"] + ["-o", exe + ".tmp"] + sobjs + lobjs + ["-lm", "-lpthread"])
        os.rename(exe + ".tmp", exe)
    # keep only what is current
    for d in glob.glob(os.path.join(BUILD, variant, "lib-*")):
        if d != ldir: shutil.rmtree(d, ignore_errors=True)
    for f in glob.glob(os.path.join(BUILD, variant, "sim-*")):
        if f != exe and os.path.isfile(f):
            try: os.unlink(f)
            except OSError: pass
    for f in glob.glob(os.path.join(sdir, "*.o")):
        if f not in sobjs:
            try: os.unlink(f)
            except OSError: pass
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast"]:
        print(build(v))
