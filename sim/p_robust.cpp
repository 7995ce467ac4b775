// M01 memory safety and bounded work; M03 releases.
#include "script.h"
void gen_M01(Rng &r, Plan &p, bool thorough) { ScriptOpt o; o.ops = (int)r.range(6, thorough ? 120 : 60); o.insts = r.chance(0.15) ? 2 : 1; o.allocFaults = r.chance(0.5); o.fileFaults = r.chance(0.5); o.yields = r.chance(0.3); p.add("cfg fill %d", (int)r.pick({0, 0xff, 0xa5, 1})); genFiles(r, p, o); switch (r.weighted({20, 20, 60})) { case 0: genStorm(r, p, 0, o.ops * 2, true); break; case 1: genTour(r, p, 0); break; default: genScript(r, p, o); } }
Verdict judge_M01(const Plan &p) {
    Verdict v; ExecOpts o; o.fill = (u8)p.cfg("fill"); o.verbose = gVerbose; Trace t = execPlan(p, o); v.traceHash = t.hash();
    if (t.exited) v.fail("process-exit", "library code ended the host process during " + (t.ops.empty() ? string("?") : t.ops.back().cmd)); else if (t.badFree) v.fail("bad-free", fmt("%llu blocks were freed that were not allocated", (unsigned long long)t.badFree)); else if (!t.contract.empty()) v.fail("contract", t.contract);
    v.nontrivial = t.ops.size() > 2; return v; }

// ---------------------------------------------------------------- M02: allocation failures
// "try <inst> <k> <n> <cmd...>": allocation k of the call fails (and the n-1 after it), then the call is made again with memory back.
static const char *Q(const Plan &, const char *x) { return x; }
static Plan expandTry(const Plan &p, bool faulty) {
    Plan q; q.prop = p.prop; q.seed = p.seed;
    for (auto &l : p.lines) { if (l.t[0] != "try") { q.lines.push_back(l); continue; } if (l.t.size() < 5) continue;
        Line c; c.t = {"op", l.t[1]}; c.t.insert(c.t.end(), l.t.begin() + 4, l.t.end());
        if (faulty) { q.add("op %lld falloc %lld %lld", (long long)l.num(1), (long long)l.num(2), (long long)l.num(3)); q.lines.push_back(c); q.add("op %lld heal", (long long)l.num(1)); c.t.insert(c.t.begin() + 2, "ifail"); }
        q.lines.push_back(c); }
    (void)Q; return q; }
static string opText(const OpRec &o) { string s = fmt("%s -> %lld", o.cmd.c_str(), (long long)o.res); for (i64 v : o.out) s += fmt(" %lld", (long long)v); return s; }
// compare two histories call by call; false and why when they differ
static bool sameHistory(const vector<OpRec> &a, const vector<OpRec> &b, string &why) {
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        if (i >= a.size() || i >= b.size()) { why = fmt("one history has %d calls, the other %d", (int)a.size(), (int)b.size()); return false; }
        if (opHash(a[i]) != opHash(b[i])) { why = fmt("call %d: %s, but %s in the reference run%s", (int)i, opText(a[i]).c_str(), opText(b[i]).c_str(), a[i].pcmHash != b[i].pcmHash ? " (different audio)" : a[i].metaHash != b[i].metaHash || a[i].metaCount != b[i].metaCount ? " (different callbacks)" : ""); return false; } }
    return true; }
void gen_M02(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.ops = (int)r.range(8, thorough ? 70 : 40); o.allocFaults = o.fileFaults = o.yields = false; o.hostileFiles = r.chance(0.2); o.badArgs = r.chance(0.3); o.insts = r.chance(0.2) ? 2 : 1; o.maxRender = 12; Plan q; genFiles(r, q, o); genScript(r, q, o);
    for (auto &l : q.lines) { const string &c = l.tok(2); bool target = l.t[0] == "op" && (c == "init" || c == "open" || c == "prepare" || c == "mopen" || c == "dls" || c == "shutdown" || c == "close" || c == "locate" || c == "meta" || c == "render" || c == "param");
        bool heavy = c == "init" || c == "open" || c == "prepare" || c == "mopen" || c == "dls";
        if (target && r.chance(heavy ? 0.6 : 0.1)) { Line t; t.t = {"try", l.t[1], fmt("%lld", (long long)(c == "init" ? r.range(0, 14) : c == "dls" ? r.range(0, 3) : r.range(0, 4))), fmt("%lld", (long long)r.pick({1, 1, 1, 2, 1000}))}; t.t.insert(t.t.end(), l.t.begin() + 2, l.t.end()); p.lines.push_back(t); } else p.lines.push_back(l); } }
Verdict judge_M02(const Plan &p) {
    Verdict v; ExecOpts o; o.verbose = gVerbose; Trace a = execPlan(expandTry(p, true), o); o.verbose = false; Trace b = execPlan(expandTry(p, false), o); v.traceHash = a.hash(); v.nontrivial = a.heapFailed > 0;
    if (a.exited) { v.fail("process-exit", "library code ended the host process"); return v; } if (b.exited) return v;
    if (!a.contract.empty()) { v.fail("contract", a.contract); return v; }
    vector<OpRec> kept; for (auto &x : a.ops) { if (!x.superseded) kept.push_back(x); else if (x.metaCount || x.pcmHash) kept.push_back(x); if (x.faulted && x.res == EAS_SUCCESS) stat("fault.survived"); }
    string why; if (!sameHistory(kept, b.ops, why)) v.fail("disturbed", "after a failed allocation: " + why);
    if (a.leakedBlocks > b.leakedBlocks) v.fail("leak", fmt("%llu blocks (%zu bytes) remain allocated after shutdown", (unsigned long long)a.leakedBlocks, a.leakedBytes)); if (a.badFree) v.fail("bad-free", fmt("%llu bad frees", (unsigned long long)a.badFree));
    return v; }

// ---------------------------------------------------------------- M03: everything is given back
static void capacityProbe(Plan &q, int inst) {
    q.add("op %d heal", inst); q.add("op %d closeall", inst); q.add("op %d maxload 0", inst);
    for (int t : {40, 41, 42, 43, 42}) { q.add("op %d open 90 %d", inst, t); q.add("op %d prepare 90", inst); q.add("op %d closeall", inst); }
    for (int i = 0; i < 6; i++) { q.add("op %d open %d 39", inst, 80 + i); q.add("op %d prepare %d", inst, 80 + i); } q.add("op %d render 2", inst); q.add("op %d closeall", inst);
    for (int i = 0; i < 6; i++) { q.add("op %d mopen %d", inst, 80 + i); q.add("op %d mwrite %d 903c40", inst, 80 + i); } q.add("op %d render 2", inst); q.add("op %d closeall", inst); }
static void capacityFiles(Plan &q) {   // songs that need two file handles less than there are, one less, exactly all of them, one more than that
    for (int t = 0; t < 4; t++) { Song s; s.format = 1; s.ppqn = 96; s.ntrk = 98 + t; songToPlan(q, 40 + t, s); } Song s; s.format = 1; s.ntrk = 2; s.ev.push_back({0, 10, {0x90, 60, 64}, 0}); songToPlan(q, 39, s); }
void gen_M03(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.ops = (int)r.range(8, thorough ? 120 : 60); o.insts = r.chance(0.1) ? 2 : 1; o.allocFaults = r.chance(0.4); o.fileFaults = r.chance(0.5); o.yields = false; o.badArgs = r.chance(0.5); o.hostileFiles = r.chance(0.6); o.maxRender = 8; o.shutdowns = r.chance(0.2);
    genFiles(r, p, o); p.add("op 0 init"); if (r.chance(0.3)) p.add("op 0 dls -1 5");
    if (r.chance(0.5)) { int fid = (int)r.pick({1, 2, 5}); int n = (int)r.range(2, thorough ? 60 : 12), kind = (int)r.range(0, 5), at = (int)r.range(0, 60); bool fault = o.fileFaults && r.chance(0.6), afault = o.allocFaults && r.chance(0.5); int fk = (int)r.range(1, 3);   // the same small life over and over
        for (int i = 0; i < n; i++) { if (fault) p.add("op 0 fread %d %d %d 0 1", fid, at + i, fk); if (afault) p.add("op 0 falloc %d 1", i % 9);
            switch (kind) { case 0: p.add("op 0 open 0 %d", fid); break; case 1: p.add("op 0 open 0 %d", fid); p.add("op 0 prepare 0"); break; case 2: p.add("op 0 open 0 %d", fid); p.add("op 0 prepare 0"); p.add("op 0 render %d", (int)r.range(1, 4)); break; case 3: p.add("op 0 dls -1 %d", fid); break; case 4: p.add("op 0 mopen 0"); p.add("op 0 mwrite 0 %s", hex(genMidiBytes(r, 6, false)).c_str()); p.add("op 0 render 1"); if (r.chance(0.5)) p.add("op 0 dls 0 5"); break; default: p.add("op 0 open 0 %d", fid); p.add("op 0 prepare 0"); p.add("op 0 dls 0 5"); p.add("op 0 meta 0"); p.add("op 0 locate 0 %d 0", (int)r.range(0, 500)); p.add("op 0 render 1"); }
            p.add("op 0 heal"); p.add("op 0 closeall"); } }
    else genScript(r, p, o); }
Verdict judge_M03(const Plan &p) {
    Verdict v; Plan q = p; bool has = false; for (auto &l : p.lines) if (l.t[0] == "op" && l.tok(1) == "0" && (l.tok(2) == "init" || l.tok(2) == "shutdown")) has = l.tok(2) == "init";
    if (!has) q.add("op 0 init"); capacityFiles(q); size_t mark = q.lines.size(); if (!has) mark--; capacityProbe(q, 0);
    ExecOpts o; o.verbose = gVerbose; Trace a = execPlan(q, o); v.traceHash = a.hash(); o.verbose = false;
    if (a.exited) { v.fail("process-exit", "library code ended the host process"); return v; }
    if (!a.contract.empty()) v.fail("contract", a.contract);
    if (a.badFree) v.fail("bad-free", fmt("%llu blocks were freed that were not allocated", (unsigned long long)a.badFree));
    if (a.leakedBlocks) v.fail("leak", fmt("%llu blocks (%zu bytes) remain allocated after shutdown", (unsigned long long)a.leakedBlocks, a.leakedBytes));
    Plan ref; ref.add("op 0 init"); capacityFiles(ref); size_t rmark = ref.lines.size(); capacityProbe(ref, 0); Trace b = execPlan(ref, o);
    // compare only whether each call of the probe succeeded: the sound may differ (effects, collections), capacity may not
    vector<const OpRec *> x, y; bool alive = false; for (auto &k : a.ops) { if (k.inst == 0 && k.cmd == "init" && k.res == EAS_SUCCESS) alive = true; if (k.line >= (int)mark && k.inst == 0 && k.cmd != "maxload") x.push_back(&k); } for (auto &k : b.ops) if (k.line >= (int)rmark && k.cmd != "maxload") y.push_back(&k);
    if (alive && !x.empty()) for (size_t i = 0; i < y.size(); i++) { if (i >= x.size()) { v.fail("capacity", "capacity probe incomplete"); break; } if (x[i]->cmd != y[i]->cmd || (x[i]->res == 0) != (y[i]->res == 0)) { v.fail("capacity", fmt("after the history, capacity probe call %d (%s) returns %lld; on a fresh instance %lld", (int)i, x[i]->cmd.c_str(), (long long)x[i]->res, (long long)y[i]->res)); break; } }
    v.nontrivial = p.lines.size() > 3; return v; }
