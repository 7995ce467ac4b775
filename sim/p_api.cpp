// S02: calls succeed exactly where the header lets them, refused calls and queries change nothing.
// S03: settings read back as set and survive everything but their own setter.
#include "script.h"

namespace {
const int SLOTS = 6;
void addSetter(Rng &r, Plan &p, int ii, bool bad) {
    int s = (int)r.range(0, 3);
    switch (r.weighted({20, 8, 16, 14, 14, 6, 22, 4, 4})) {
        case 0: p.add("op %d vol %d %lld", ii, s, (long long)(bad && r.chance(0.3) ? r.pick({-1, 101, -100, 256, 65636, 0x7fffffff}) : r.range(0, 100))); break;
        case 1: p.add("op %d vol -1 %lld", ii, (long long)(bad && r.chance(0.3) ? r.pick({-1, 101, 200, 256, 356}) : r.range(0, 100))); break;
        case 2: p.add("op %d poly %d %lld", ii, s, (long long)(bad && r.chance(0.3) ? r.pick({0, -1, 65, 256, 300, -64, 0x7fffffff}) : r.range(1, 64))); break;
        case 3: p.add("op %d prio %d %lld", ii, s, (long long)(bad && r.chance(0.3) ? r.pick({0, -1, 256, 300, 65537, -255}) : r.range(1, 255))); break;
        case 4: p.add("op %d repeat %d %lld", ii, s, (long long)r.pick({0, 1, 2, 5, -1, 0x7fffffff, 40000, 70000})); break;
        case 5: p.add("op %d synthpoly %lld %lld", ii, (long long)(bad && r.chance(0.2) ? r.pick({1, -1, 2}) : 0), (long long)(bad && r.chance(0.3) ? r.pick({0, 65, 1000, -5}) : r.range(1, 64))); break;
        case 6: { int m = (int)r.range(2, 3), q = (int)r.range(0, m == 2 ? 3 : 4); i64 v;
            if (q == 0) v = r.range(0, 1); else if (q == 1) v = bad ? r.range(-1, 4) : r.range(0, 3); else if (m == 2 || q == 4) v = bad && r.chance(0.3) ? r.pick({-1, 32768, 65536, 100000}) : r.range(0, 32767); else if (q == 2) v = bad ? r.range(5, 56) : r.range(10, 50); else v = bad ? r.range(10, 66) : r.range(15, 60);
            if (bad && r.chance(0.1)) q = (int)r.pick({-1, 5, 6, 100}); p.add("op %d param %d %d %lld", ii, bad && r.chance(0.1) ? (int)r.pick({0, 1, 4, 5, 6, -1, 1000}) : m, q, (long long)v); break; }
        case 7: p.add("op %d rate %d %lld", ii, s, (long long)(bad && r.chance(0.4) ? r.pick({0, (1 << 27) - 1, (1 << 29) + 1, 1}) : r.range(1 << 27, 1 << 29))); break;
        default: p.add("op %d transp %d %lld", ii, s, (long long)(bad && r.chance(0.4) ? r.pick({-13, 13, 100, -256}) : r.range(-12, 12))); break;
    }
}
void genApi(Rng &r, Plan &p, ScriptOpt &o, double setters) {
    Plan q; genFiles(r, p, o); genScript(r, q, o);
    for (auto &l : q.lines) { p.lines.push_back(l); while (r.chance(setters)) addSetter(r, p, (int)l.num(1), o.badArgs); }
}
bool goodModule(i64 m, i64 q) { return (m == 2 && q >= 0 && q <= 3) || (m == 3 && q >= 0 && q <= 4); }
bool goodParam(i64 m, i64 q, i64 v) {
    if (!goodModule(m, q)) return false;
    if (q == 0) return true;
    if (q == 1) return v >= 0 && v <= 3;
    if (m == 2 || q == 4) return v >= 0 && v <= 32767;
    return q == 2 ? v >= 10 && v <= 50 : v >= 15 && v <= 60;
}
}

// ---------------------------------------------------------------- S03
void gen_S03(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.insts = r.chance(0.3) ? 2 : 1; o.ops = (int)r.range(10, thorough ? 120 : 50); o.maxRender = 40; o.hostileFiles = r.chance(0.3); o.fileFaults = r.chance(0.3); o.allocFaults = r.chance(0.3); o.yields = r.chance(0.3); o.badArgs = r.chance(0.7);
    genApi(r, p, o, r.pick({30, 50, 70}) / 100.0);
}
Verdict judge_S03(const Plan &p) {
    Verdict v; Plan q; vector<int> src; Hash hh; int insts = 1; for (auto &l : p.lines) if (l.t[0] == "op") insts = std::max<int>(insts, (int)l.num(1) + 1); if (insts > 4) insts = 4;
    for (size_t i = 0; i < p.lines.size(); i++) {
        q.lines.push_back(p.lines[i]); src.push_back((int)i); if (p.lines[i].t[0] != "op") continue;
        for (int ii = 0; ii < insts; ii++) {
            for (int s = 0; s < SLOTS; s++) for (const char *c : {"getvol", "getpoly", "getprio", "getrepeat"}) q.add("op %d %s %d", ii, c, s);
            q.add("op %d getvol -1", ii); q.add("op %d getsynthpoly 0", ii);
            for (int m = 2; m <= 3; m++) for (int k = 0; k <= (m == 2 ? 3 : 4); k++) q.add("op %d getparam %d %d", ii, m, k);
        }
        src.resize(q.lines.size(), -1);
    }
    // the readbacks of one call between the calls of the history
    ExecOpts o; Trace t = execPlan(q, o); if (t.exited) { v.fail("process-exit", "library code ended the host process"); return v; }
    struct Slot { int kind = 0; i64 vol = 100, prio = 50, poly = -1, rep = 0; bool polyAny = false; i64 polySet = -1; };
    struct I { bool on = false; map<i64, Slot> s; i64 vol = 90, sp = -1; map<std::pair<i64, i64>, i64> par; bool rendered = false; };
    map<i64, I> M; map<string, i64> deflt; string lastOp; int lastLine = -1; u64 reads = 0;
    auto learn = [&](const string &k, i64 x, bool &bad) { if (!deflt.count(k)) deflt[k] = x; bad = deflt[k] != x; };
    for (auto &x : t.ops) {
        if (x.line < 0 || v.violated) break;
        const Line &l = q.lines[(size_t)x.line]; I &m = M[x.inst]; bool bad = false; i64 a = l.num(3), b = l.num(4);
        if (src[(size_t)x.line] >= 0) {            // a call of the history
            lastOp = l.str(); lastLine = src[(size_t)x.line]; hh.u(opHash(x)); bool ok = x.res == EAS_SUCCESS; const string &c = x.cmd;
            if (c == "init" && ok) { m = I(); m.on = true; } else if (c == "shutdown") m = I();
            else if (c == "open" && ok) { m.s[a] = Slot(); m.s[a].kind = 1; } else if (c == "mopen" && ok) { m.s[a] = Slot(); m.s[a].kind = 2; }
            else if (c == "close" || c == "mclose") m.s.erase(a); else if (c == "closeall") m.s.clear();
            else if (c == "vol" && ok) { if (a < 0) m.vol = b; else m.s[a].vol = b; }
            else if (c == "poly" && ok) { if (b >= 1 && b <= VOICES) { m.s[a].poly = b; m.s[a].polyAny = false; } else { m.s[a].polyAny = true; m.s[a].polySet = b; } }
            else if (c == "prio" && ok) m.s[a].prio = b;
            else if (c == "repeat" && ok) m.s[a].rep = b;
            else if (c == "synthpoly" && ok) m.sp = std::min<i64>(VOICES, std::max<i64>(1, b));
            else if (c == "param" && ok) { if (b == 1) { bool same = m.par.count({a, 1}) && m.par[{a, 1}] == l.num(5); if (!same) for (i64 k = 2; k <= 4; k++) m.par[{a, k}] = -1 - l.num(5); } m.par[{a, b}] = l.num(5); }   // a preset brings its own levels
            for (auto &k : M) k.second.rendered = k.first == x.inst && (c == "render" || c == "pause");
            // an error code read as a setting
            continue;
        }
        auto wrong = [&](const char *what, i64 got, i64 want) { v.fail("readback", fmt("after line %d \"%s\", %s of instance %lld%s reads %lld instead of %lld", lastLine, lastOp.c_str(), what, (long long)x.inst, l.t.size() > 3 && a >= 0 && x.cmd != "getparam" ? fmt(" stream %lld", (long long)a).c_str() : "", (long long)got, (long long)want)); };
        if (x.cmd == "getvol" && a < 0) { reads++; if (x.res != m.vol) wrong("master volume", x.res, m.vol); continue; }
        if (x.cmd == "getsynthpoly") { if (x.res || x.out.empty()) { v.fail("readback", "the synthesizer polyphony cannot be read"); continue; } reads++; if (m.sp < 0) { learn("synthpoly", x.out[0], bad); if (bad) wrong("default synthesizer polyphony", x.out[0], deflt["synthpoly"]); m.sp = x.out[0]; } else if (m.sp != x.out[0]) wrong("synthesizer polyphony", x.out[0], m.sp); continue; }
        if (x.cmd == "getparam") {
            if (x.res || x.out.empty()) { v.fail("readback", fmt("effect parameter %lld/%lld cannot be read", (long long)a, (long long)b)); continue; }
            reads++; auto k = std::make_pair(a, b); i64 g = x.out[0];
            if (!m.par.count(k)) { learn(fmt("par%lld.%lld", (long long)a, (long long)b), g, bad); if (bad) wrong(fmt("default of effect parameter %lld/%lld", (long long)a, (long long)b).c_str(), g, deflt[fmt("par%lld.%lld", (long long)a, (long long)b)]); m.par[k] = g; }
            else if (m.par[k] < 0) { string pk = fmt("preset%lld.%lld.%lld", (long long)a, (long long)(-1 - m.par[k]), (long long)b); learn(pk, g, bad); if (bad) wrong(fmt("effect parameter %lld/%lld of a preset", (long long)a, (long long)b).c_str(), g, deflt[pk]); m.par[k] = g; }
            else if (m.par[k] != g) wrong(fmt("effect parameter %lld/%lld", (long long)a, (long long)b).c_str(), g, m.par[k]);
            if (!goodParam(a, b, g)) v.fail("readback", fmt("effect parameter %lld/%lld reads %lld, which could not be set", (long long)a, (long long)b, (long long)g));
            continue;
        }
        auto it = m.s.find(a); if (it == m.s.end()) continue; Slot &z = it->second;
        if (x.cmd == "getrepeat") { if (x.res || x.out.empty()) continue; reads++; i64 g = x.out[0];
            if (z.rep > 0 && m.rendered && z.kind == 1) { if (g > z.rep || g < 0) wrong("repeat count", g, z.rep); z.rep = g; } else if (g != z.rep) wrong("repeat count", g, z.rep); continue; }
        if (z.kind != 1) continue;
        if (x.cmd == "getvol") { if (x.res < 0) continue; reads++; if (x.res != z.vol) wrong("volume", x.res, z.vol); continue; }
        if (x.res || x.out.empty()) continue; i64 g = x.out[0]; reads++;
        if (x.cmd == "getprio") { if (g != z.prio) wrong("priority", g, z.prio); }
        else if (x.cmd == "getpoly") {
            if (z.polyAny) { if (g != 0 && g != VOICES && g != z.polySet) wrong("polyphony", g, VOICES); z.poly = g; z.polyAny = false; }
            else if (z.poly < 0) { learn("poly", g, bad); if (bad) wrong("default polyphony", g, deflt["poly"]); z.poly = g; }
            else if (g != z.poly) wrong("polyphony", g, z.poly);
        }
    }
    stat("sim.readbacks", reads); v.nontrivial = reads > 60; v.traceHash = hh.h; return v;
}

// ---------------------------------------------------------------- S02
void gen_S02(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.insts = 1; o.ops = (int)r.range(12, thorough ? 160 : 60); o.maxRender = 40; o.hostileFiles = r.chance(0.25); o.fileFaults = false; o.allocFaults = r.chance(0.25); o.yields = false; o.badArgs = r.chance(0.9); o.shutdowns = r.chance(0.2);
    p.add("cfg hostile %d", (int)o.hostileFiles); Plan q; genApi(r, q, o, r.pick({10, 30, 50}) / 100.0);
    // random calls on random slots in whatever state they happen to be
    for (auto &l : q.lines) {
        p.lines.push_back(l); if (l.t[0] != "op") continue; int s = (int)r.range(0, 4);
        while (r.chance(0.35)) switch (r.range(0, 15)) {
            case 0: p.add("op 0 pause %d", s); break; case 1: p.add("op 0 resume %d", s); break; case 2: p.add("op 0 prepare %d", s); break;
            case 3: p.add("op 0 locate %d %lld %d", s, (long long)r.pick({0, 100, 300, 5000, -50}), (int)r.chance(0.3)); break; case 4: p.add("op 0 meta %d", s); break;
            case 5: p.add("op 0 regcb %d %d", s, (int)r.pick({0, 16, 64})); break; case 6: p.add("op 0 badrender %d", (int)r.pick({0, 1, 255, 257, 512, -1})); break;
            case 7: p.add("op 0 mopen %d %d", (int)r.range(0, 5), (int)r.range(-1, 5)); break; case 8: p.add("op 0 open %d %d", (int)r.range(0, 5), (int)r.pick({1, 2, 7, 5})); break;
            case 9: p.add("op 0 render %d", (int)r.range(1, 3)); break; case 10: p.add("op 0 dls %d %d", (int)r.range(-1, 4), (int)r.pick({5, 6, 1, 7})); break;
            case 11: { static const char *g[] = {"getvol", "getpoly", "getprio", "getrepeat", "notes", "ftype", "state", "loc"}; p.add("op 0 %s %d", g[r.range(0, 7)], s); break; }
            case 12: p.add("op 0 mwrite %d %s", s, r.chance(0.2) ? "" : hex(genMidiBytes(r, 3, false)).c_str()); break;
            case 13: p.add("op 0 hdrsearch %d", (int)r.chance(0.2)); break;
            case 14: p.add("op 0 synthpoly %d %d", (int)r.range(-1, 2), (int)r.range(-1, 66)); break;
            default: addSetter(r, p, 0, true); break;
        }
    }
}
// the collection lists waves, instruments and regions that refer to one another (a minimised plan may not)
static bool wellFormed(const Plan &p, int fid) {
    set<i64> waves, ins; bool d = false, rgn = false;
    for (auto &l : p.lines) if (l.t.size() > 1 && l.num(1) == fid) { if (l.t[0] == "D") d = true; else if (l.t[0] == "W") waves.insert(l.num(2)); else if (l.t[0] == "I") ins.insert(l.num(2)); }
    for (auto &l : p.lines) if (l.t.size() > 9 && l.t[0] == "G" && l.num(1) == fid) { if (!ins.count(l.num(2)) || !waves.count(l.num(9))) return false; rgn = true; }
    i64 k = 0; for (i64 w : waves) if (w != k++) return false;
    return d && rgn;
}
Verdict judge_S02(const Plan &p) {
    Verdict v; static const set<string> queries{"getvol", "getpoly", "getprio", "getrepeat", "notes", "ftype", "state", "loc", "rtime", "getparam", "getsynthpoly"};
    Plan q; vector<int> src; for (size_t i = 0; i < p.lines.size(); i++) {
        const Line &l = p.lines[i];
        if (l.t[0] == "op" && l.t.size() > 3 && l.tok(2) != "fread" && l.tok(2) != "ifail") { q.add("op %lld state %lld", (long long)l.num(1), (long long)l.num(3)); src.push_back(-1); if (l.tok(2) == "mopen" && l.t.size() > 4) { q.add("op %lld state %lld", (long long)l.num(1), (long long)l.num(4)); src.push_back(-2); } }
        q.lines.push_back(l); src.push_back((int)i);
    }
    ExecOpts o; o.verbose = gVerbose; Trace a = execPlan(q, o); v.traceHash = a.hash(); if (a.exited) { v.fail("process-exit", "library code ended the host process"); return v; }
    if (!a.contract.empty()) { v.fail("contract", a.contract); return v; }
    set<int> bad; FileSet fs; fs.build(p); for (auto &l : p.lines) if (l.t[0] == "M" || l.t[0] == "INS" || l.t[0] == "DEL" || l.t[0] == "T") bad.insert((int)l.num(1));
    bool search = false; map<i64, map<i64, int>> kind; set<std::pair<i64, i64>> sound; bool hostile = p.cfg("hostile", 1); map<int, i64> res; set<int> dropped; u64 refused = 0, checked = 0; i64 st = -777, st2 = -777; Hash hh;
    map<i64, std::pair<i64, i64>> repeats;
    for (auto &x : a.ops) {
        if (x.line < 0) break;
        const Line &l = q.lines[(size_t)x.line]; int s0 = src[(size_t)x.line]; i64 s = l.num(3), b = l.num(4);
        if (s0 == -1) { st = x.res == EAS_SUCCESS ? x.out[0] : -1; continue; }
        if (s0 == -2) { st2 = x.res == EAS_SUCCESS ? x.out[0] : -1; continue; }
        auto &K = kind[x.inst]; const string &c = x.cmd; bool ok = x.res == EAS_SUCCESS; int k = K.count(s) ? K[s] : 0;
        bool file = k == 1, ready = file && st >= 0 && st < EAS_STATE_OPEN; int want = -1;         // -1 unknown 0 must fail 1 must succeed
        bool whole = sound.count({x.inst, s}) > 0; bool goodSong = (c == "open") && fs.get((int)b) && fs.get((int)b)->data.size() && b >= 1 && b <= 4 && !bad.count((int)b) && !search;
        if (c == "init") want = 1; else if (c == "shutdown") want = 1;
        else if (c == "open") want = K.size() >= 4 ? 0 : goodSong ? 1 : b == 5 || b == 6 ? 0 : -1;
        else if (c == "prepare") want = !file ? 0 : st == EAS_STATE_OPEN ? (whole ? 1 : -1) : 0;
        else if (c == "close" || c == "mclose") want = 1;
        else if (c == "mopen") want = K.size() >= 4 ? 0 : l.t.size() <= 4 || l.num(4) < 0 ? 1 : K.count(l.num(4)) ? (K[l.num(4)] != 1 || st2 == EAS_STATE_OPEN ? 0 : st2 >= 0 && st2 < EAS_STATE_OPEN ? 1 : -1) : -1;
        else if (c == "mwrite") want = unhex(l.tok(4)).size() ? 1 : 0;
        else if (c == "badrender") want = s == 256 ? -1 : 0;
        else if (c == "pause") want = file && (st == EAS_STATE_PLAY || st == EAS_STATE_READY);
        else if (c == "resume") want = file && (st == EAS_STATE_PAUSED || st == EAS_STATE_PAUSING);
        else if (c == "locate" || c == "meta") want = !ready ? 0 : whole ? 1 : -1;
        else if (c == "rate") want = b >= (1 << 27) && b <= (1 << 29) && (file || true);
        else if (c == "transp") want = ready && b >= -12 && b <= 12;
        else if (c == "vol") want = (s < 0 || ready) && b >= 0 && b <= 100;
        else if (c == "poly") want = ready && b >= 0; else if (c == "prio") want = ready && b >= 1 && b <= 255;
        else if (c == "regcb") want = ready; else if (c == "getvol") { want = s < 0 || ready; ok = x.res >= 0; }
        else if (c == "getpoly" || c == "getprio" || c == "notes" || c == "ftype" || c == "loc") want = ready;
        else if (c == "state") want = file;
        else if (c == "repeat" || c == "getrepeat" || c == "maxload" || c == "hdrsearch" || c == "rtime") want = 1;
        else if (c == "dls") want = s >= 0 && !ready ? 0 : b == 5 || b == 6 ? (hostile || !wellFormed(p, (int)b) ? -1 : 1) : b >= 1 && b <= 4 && !bad.count((int)b) ? 0 : -1;
        else if (c == "param") want = goodParam(s, b, l.num(5)); else if (c == "getparam") want = goodModule(s, b);
        else if (c == "synthpoly" || c == "getsynthpoly") want = s == 0;
        if (x.faulted) want = -1;
        hh.u((u64)x.res);
        if (want >= 0) { checked++; if (ok != (want == 1)) { v.fail(want ? "refused" : "accepted", fmt("line %d \"%s\" returns %lld in state %lld", s0, l.str().substr(0, 80).c_str(), (long long)x.res, (long long)st)); break; } }
        // calls a valid stream state lets through may fail inside a damaged song and then do change the stream
        bool mayChange = c == "render" || (c == "prepare" && st == EAS_STATE_OPEN && !x.faulted) || ((c == "locate" || c == "meta") && ready) || c == "init" || c == "shutdown" || c == "close" || c == "mclose" || c == "closeall" || ((c == "pause" || c == "resume") && want == 1);
        if (queries.count(c)) { dropped.insert(s0); }
        else if (!ok && !mayChange) { dropped.insert(s0); refused++; }
        if (ok) { if (c == "open") { K[s] = 1; if (goodSong && !hostile) sound.insert({x.inst, s}); else sound.erase({x.inst, s}); } else if (c == "mopen") K[s] = 2; else if (c == "shutdown" || c == "init" || c == "closeall") K.clear(); if (c == "hdrsearch" && s) search = true; }
        if (c == "close" || c == "mclose") K.erase(s);
    }
    if (!v.violated && !dropped.empty()) {
        Plan w; vector<int> wsrc; for (size_t i = 0; i < p.lines.size(); i++) { if (dropped.count((int)i)) continue; const Line &l = p.lines[i]; bool fault = l.t[0] == "op" && (l.tok(2) == "falloc" || l.tok(2) == "fallocp");
            if (fault) continue; w.lines.push_back(l); wsrc.push_back((int)i); }
        o.verbose = false; Trace b = execPlan(w, o); map<int, const OpRec *> by; for (auto &x : b.ops) if (x.line >= 0) by[wsrc[(size_t)x.line]] = &x;
        for (auto &x : a.ops) {
            if (x.line < 0) break; int s0 = src[(size_t)x.line]; if (s0 < 0 || dropped.count(s0)) continue;
            if (x.faulted) break;                      // a call that met a fault and went on is M02's business
            if (!by.count(s0)) { v.fail("disturbed", fmt("line %d missing from the run without refused calls", s0)); break; }
            const OpRec &y = *by[s0]; if (opHash(x) != opHash(y)) { v.fail("disturbed", fmt("line %d \"%s\" returns %lld and other %s when the refused calls and queries before it are left out (%lld)", s0, q.lines[(size_t)x.line].str().substr(0, 80).c_str(), (long long)x.res, x.pcmHash != y.pcmHash ? "samples" : "values", (long long)y.res)); break; }
        }
    }
    if (refused) stat("fault.refused_call", refused); stat("sim.results_checked", checked); v.nontrivial = refused > 2; return v;
}
