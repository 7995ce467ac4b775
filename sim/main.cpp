#include "sim.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
static string readFile(const char *f) { string s; FILE *h = fopen(f, "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static const Prop *find(const string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += fmt("\\u%04x", c); else o += c; } return o; }
static Verdict judgeSafe(const Prop *p, const Plan &pl) {
    Verdict v;
    gAhead = (u64)pl.cfg("ahead", 0); gAheadNo = 0; gWarm = (int)std::min<i64>(5000, std::max<i64>(0, pl.cfg("warm", 0)));
    try { v = p->judge(pl); }
    catch (SimExit &e) { v.fail("process-exit", fmt("library code ended the process (exit %d)", e.code)); }
    for (auto &b : gHeap.live) (void)b; seamReset(); return v;
}
// a quarter of the runs begin with idle render steps; half of them take other stream and synthesizer slots than the first ones
static void slots(Plan &pl) { Rng d(pl.seed * 31337 + 11); i64 a = (i64)(d.next() & 0xffffff); if (d.chance(0.5)) pl.add("cfg ahead %lld", (long long)a); i64 w = d.pick({1, 2, 7, 60, d.range(0, 400)}); if (d.chance(0.25)) pl.add("cfg warm %lld", (long long)w); }
// development: a random sub-plan, such as minimising will meet
static void dropLines(Plan &pl) { Rng d(pl.seed * 7919 + 17); double q = d.pick({3, 10, 30, 60, 85}) / 100.0; vector<Line> keep; i64 a = d.range(0, (i64)pl.lines.size()), z = a + d.range(0, (i64)pl.lines.size()); bool cut = d.chance(0.4); for (size_t j = 0; j < pl.lines.size(); j++) if (cut ? (i64)j < a || (i64)j >= z : !d.chance(q)) keep.push_back(pl.lines[j]); pl.lines = keep; }
// CPU time, so that a loaded machine cannot look like a hang
static volatile sig_atomic_t hangArmed = 0;
static void onHang(int) { if (hangArmed) { static const char m[] = "\nSIM-HANG: one run used its whole CPU budget\n"; (void)!write(2, m, sizeof m - 1); _exit(86); } }
static void armHang(int sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; hangArmed = sec != 0; setitimer(ITIMER_PROF, &t, nullptr); }
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16); signal(SIGPROF, onHang);
    int hang = getenv("SIM_HANG") ? atoi(getenv("SIM_HANG")) : 60;
    string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto &p : props()) puts(p.id); return 0; }
    if (cmd == "plan" && argc >= 4) { auto *p = find(argv[2]); if (!p) return 2; Plan pl; pl.prop = argv[2]; pl.seed = strtoull(argv[3], nullptr, 10); Rng r(pl.seed * 1000003ull + fastHash(argv[2], strlen(argv[2]))); p->gen(r, pl, argc > 4 && string(argv[4]) == "thorough"); slots(pl); if (getenv("SIM_DROP")) dropLines(pl);
        fputs(pl.text().c_str(), stdout); return 0; }
    if (cmd == "judge" && argc >= 3) {
        Plan pl; if (!Plan::parse(readFile(argv[2]), pl)) { fprintf(stderr, "bad plan\n"); return 2; } auto *p = find(pl.prop); if (!p) return 2;
        gVerbose = argc > 3 && string(argv[3]) == "-v"; Stats st; gStats = &st;
        armHang(hang); Verdict v = judgeSafe(p, pl); armHang(0);
        printf("RESULT %s hash=%016llx class=%s\n", v.violated ? "VIOLATED" : "OK", (unsigned long long)v.traceHash, v.violated ? v.cls.c_str() : "-");
        if (v.violated) printf("DETAIL %s\n", v.detail.c_str());
        if (gVerbose) for (auto &k : st.n) printf("  %s=%llu\n", k.first.c_str(), (unsigned long long)k.second);
        return 0;
    }
    if (cmd == "run" && argc >= 8) {   // run PROP first step count deadlineSec tier progressfile
        auto *p = find(argv[2]); if (!p) return 2; u64 first = strtoull(argv[3], nullptr, 10), step = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10); double dl = atof(argv[6]); bool th = string(argv[7]) == "thorough";
        const char *prog = argc > 8 ? argv[8] : nullptr; FILE *pf = prog ? fopen(prog, "w") : nullptr;
        bool drop = getenv("SIM_DROP");
        Stats st; gStats = &st; double t0 = wall(); u64 n = 0, nontriv = 0, twice = 0, mism = 0; set<u64> traces, states; string samples; int viol = 0;
        for (u64 i = 0; i < count; i++) {
            if (wall() - t0 > dl) break;
            u64 seed = first + i * step; if (pf) { rewind(pf); fprintf(pf, "%llu\n", (unsigned long long)seed); fflush(pf); }
            Plan pl; pl.prop = argv[2]; pl.seed = seed; Rng r(seed * 1000003ull + fastHash(argv[2], strlen(argv[2]))); p->gen(r, pl, th); slots(pl);
            if (drop) dropLines(pl);
            armHang(hang); Verdict v = judgeSafe(p, pl); armHang(0);
            n++; if (v.nontrivial) { nontriv++; traces.insert(v.traceHash); } if (v.stateHash) states.insert(v.stateHash);
            if (i % 16 == 0 && !v.violated) { u64 sf = gSimFrames; Stats *s0 = gStats; gStats = nullptr; armHang(hang); Verdict w = judgeSafe(p, pl); armHang(0); gStats = s0; gSimFrames = sf; twice++; if (w.traceHash != v.traceHash) { mism++; printf("NONDET %llu %016llx %016llx\n", (unsigned long long)seed, (unsigned long long)v.traceHash, (unsigned long long)w.traceHash); } }
            if (i < 2) { string t = pl.text(); if (t.size() > 700) t.resize(700); if (!samples.empty()) samples += ","; samples += "\"" + jesc(t) + "\""; }
            if (v.violated) { printf("FAIL %llu %s %s\n", (unsigned long long)seed, v.cls.c_str(), v.detail.c_str()); if (++viol >= 40) break; }
        }
        printf("STATS {\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"states\":%zu,\"twice\":%llu,\"mismatch\":%llu,\"simframes\":%llu,\"wall\":%.3f,\"samples\":[%s],\"counters\":{", (unsigned long long)n, (unsigned long long)nontriv, traces.size(), states.size(), (unsigned long long)twice, (unsigned long long)mism, (unsigned long long)gSimFrames, wall() - t0, samples.c_str());
        bool f1 = true; for (auto &k : st.n) { printf("%s\"%s\":%llu", f1 ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); f1 = false; } printf("}}\n");
        printf("HASHES"); for (u64 h : traces) printf(" %llx", (unsigned long long)h); printf("\n"); if (!states.empty()) { printf("STATES"); for (u64 h : states) printf(" %llx", (unsigned long long)h); printf("\n"); }
        if (pf) { rewind(pf); fprintf(pf, "done\n"); fclose(pf); }
        return 0;
    }
    fprintf(stderr, "usage: sim list | plan PROP SEED [tier] | judge FILE [-v] | run PROP FIRST STEP COUNT DEADLINE TIER [PROGRESS]\n"); return 2;
}
