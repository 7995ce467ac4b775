// D04: an instance remembers nothing of the streams it closed. The same closing scene is played by a used instance and by a new one.
#include "script.h"
void gen_D04(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.ops = (int)r.range(6, thorough ? 100 : 45); o.insts = 1; o.allocFaults = r.chance(0.25); o.fileFaults = r.chance(0.25); o.yields = false; o.hostileFiles = r.chance(0.4); o.badArgs = r.chance(0.3); o.shutdowns = false; o.maxRender = 25;
    Plan q; genFiles(r, q, o); q.add("op 0 init"); if (r.chance(0.65)) genScript(r, q, o); else genStorm(r, q, 0, o.ops, r.chance(0.5)); for (auto &l : q.lines) p.lines.push_back(l);
    if (r.chance(0.03)) { p.add("op 0 mopen 80"); p.add("op 0 burst 80 %lld %d", (long long)(65536 - r.range(0, 60)), (int)r.range(0, 15)); p.add("op 0 render 3"); }
    if (r.chance(0.5)) p.add("cfg limit %lld", (long long)r.range(1, 8));
    songToPlan(p, 50, genWildSong(r)); p.add("cfg scene %d", (int)r.range(0, 4)); p.add("cfg gap %lld", (long long)r.pick({0, 1, 2, r.range(0, 30)})); p.add("cfg tseed %lld", (long long)r.range(1, 1000000));
}
namespace {
// what may be there when the history is over: global collections outlive the streams, limits and effects are set by the host
bool history(const Line &l) { const string &c = l.tok(2); return l.t[0] == "op" && l.num(1) == 0 && c != "init" && c != "shutdown" && c != "hdrsearch" && c != "fyield" && !(c == "fread" && l.num(5) == FK_TRUNC); }   // a truncated file stays shorter
void scene(Plan &q, const Plan &p) {
    Rng r((u64)p.cfg("tseed", 1)); int kind = (int)p.cfg("scene"); bool second = kind == 1 || kind == 4;
    q.add("op 0 vol -1 90"); q.add("op 0 synthpoly 0 %d", VOICES); q.add("op 0 maxload 0"); q.add("op 0 heal"); q.add("op 0 param 2 0 1"); q.add("op 0 param 3 0 1");   // both effects bypassed
    if (kind == 2) { q.add("op 0 mopen 90"); } else { q.add("op 0 open 90 50"); q.add("op 0 prepare 90"); q.add("op 0 state 90"); q.add("op 0 loc 90"); q.add("op 0 getvol 90"); q.add("op 0 getpoly 90"); q.add("op 0 getprio 90"); q.add("op 0 getrepeat 90"); }
    if (kind == 3) q.add("op 0 dls 90 5");
    if (second) { q.add("op 0 mopen 91"); if (kind == 4) q.add("op 0 mopen 92"); }
    q.add("op 0 getsynthpoly 0 0"); if (i64 n = p.cfg("limit")) q.add("op 0 poly 90 %lld", (long long)std::min<i64>(VOICES, std::max<i64>(1, n)));
    for (int i = 0; i < 12; i++) {
        int m = kind == 2 ? 90 : 91; if (kind == 2 || second) q.add("op 0 mwrite %d %s", m, hex(genMidiBytes(r, (int)r.range(1, 5), false)).c_str());
        if (kind == 4 && i == 5) q.add("op 0 close 91"), second = false;
        q.add("op 0 render %d", i == 11 ? 150 : (int)r.range(1, 25)); if (kind != 2) { q.add("op 0 loc 90"); q.add("op 0 state 90"); } }
}
}
Verdict judge_D04(const Plan &p) {
    Verdict v; Plan q, ref; q.prop = ref.prop = p.prop; q.seed = ref.seed = p.seed; q.add("op 0 init"); ref.add("op 0 init");
    for (auto &l : p.lines) { if (l.t[0] == "op") { if (history(l)) q.lines.push_back(l); } else if (l.t[0] != "cfg") { q.lines.push_back(l); ref.lines.push_back(l); } }
    size_t hist = q.lines.size(); q.add("op 0 heal"); q.add("op 0 closeall"); i64 gap = std::min<i64>(200, std::max<i64>(0, p.cfg("gap"))); if (gap) q.add("op 0 render %lld", (long long)gap);
    size_t mark = q.lines.size(); scene(q, p); ExecOpts o; o.verbose = gVerbose; Trace a = execPlan(q, o); v.traceHash = a.hash(); if (a.exited) { v.nontrivial = false; return v; }
    // the last global collection that loaded belongs to both
    i64 coll = -1; int notes = 0; for (auto &x : a.ops) { if (x.line >= (int)hist) break; if (x.cmd == "dls" && x.res == EAS_SUCCESS && q.lines[(size_t)x.line].num(3) < 0) coll = q.lines[(size_t)x.line].num(4); if (x.cmd == "render") notes++; }
    if (coll >= 0) ref.add("op 0 dls -1 %lld", (long long)coll); size_t rmark = ref.lines.size(); scene(ref, p); o.verbose = false; Trace b = execPlan(ref, o); if (b.exited) { v.nontrivial = false; return v; }
    vector<const OpRec *> x, y; for (auto &k : a.ops) if (k.line >= (int)mark) x.push_back(&k); for (auto &k : b.ops) if (k.line >= (int)rmark) y.push_back(&k); bool clean = true; u64 heard = 0;
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
        if (i >= x.size() || i >= y.size()) { v.fail("scene", "the closing scene has fewer calls in one of the instances"); break; }
        if (y[i]->cmd == "render") heard++;
        if (opHash(*x[i]) != opHash(*y[i])) { v.fail(x[i]->res != y[i]->res ? "result" : x[i]->pcmHash != y[i]->pcmHash ? "sound" : "reading", fmt("call %d of the closing scene (%s): %lld in the used instance, %lld in a new one%s", (int)i, x[i]->cmd.c_str(), (long long)x[i]->res, (long long)y[i]->res, x[i]->pcmHash != y[i]->pcmHash ? " (different audio)" : "")); clean = false; break; } }
    (void)clean; stat("sim.scene_calls", (u64)x.size()); v.nontrivial = notes > 0 && heard > 0; return v; }

// V07: melodic channels are alike. The same song with its channels exchanged sounds the same, sample by sample.
void gen_V07(Rng &r, Plan &p, bool thorough) {
    Song s = genWildSong(r); vector<int> to; for (int i = 0; i < 16; i++) if (i != 9) to.push_back(i); for (size_t i = to.size() - 1; i > 0; i--) std::swap(to[i], to[(size_t)r.range(0, (i64)i)]); to.insert(to.begin() + 9, 9);
    s.ev.erase(std::remove_if(s.ev.begin(), s.ev.end(), [](const Ev &e) { return e.b.size() > 4 && e.b[0] == 0xf0 && e.b[3] == 0x0b; }), s.ev.end()); songToPlan(p, 1, s);
    for (int i = 0; i < 16; i++) if (to[(size_t)i] != i && (thorough || r.chance(0.9))) p.add("swap %d %d", i, to[(size_t)i]);
    if (r.chance(0.4)) { Plan q = probePlan(); if (r.chance(0.5)) { q.lines.clear(); genDls(r, q, 9, false); } for (auto &l : q.lines) p.lines.push_back(l); p.add("cfg coll %d", (int)r.range(1, 2)); }
    p.add("cfg live %d", (int)r.chance(0.4)); p.add("cfg transp %d", r.chance(0.3) ? (int)r.range(-12, 12) : 0); p.add("cfg tail %lld", (long long)r.pick({20, 200}));
}
Verdict judge_V07(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1 || tempoAmbiguous(s)) { v.nontrivial = false; return v; } double endMs; auto tl = songTimeline(s, &endMs); if (endMs > 20000) { v.nontrivial = false; return v; }
    int notes = 0; for (auto &e : s.ev) { notes += (e.b[0] & 0xf0) == 0x90 && e.b[2] > 0; if (e.b[0] == 0xf0 && e.b.size() > 3 && e.b[3] == 0x0b) notes = 1000; } if (VOICES < 64 || notes == 0 || notes > 24)
        { v.nontrivial = false; return v; }
    // the lines give a map; anything they leave out takes what remains, in order
    int to[16]; bool used[16] = {}; for (int &x : to) x = -1; to[9] = 9; used[9] = true; for (auto &l : p.lines) if (l.t[0] == "swap") { int a = (int)(l.num(1) & 15), b = (int)(l.num(2) & 15); if (to[a] < 0 && !used[b]) { to[a] = b; used[b] = true; } }
    for (int a = 0; a < 16; a++) if (to[a] < 0 && !used[a]) { to[a] = a; used[a] = true; } for (int a = 0; a < 16; a++) if (to[a] < 0) for (int b = 0; b < 16; b++) if (!used[b]) { to[a] = b; used[b] = true; break; }
    FileSet fs; fs.build(p); i64 n = (i64)(endMs / SLICE_MS) + std::min<i64>(400, std::max<i64>(0, p.cfg("tail"))) + 5; bool live = p.cfg("live") != 0; i64 coll = p.cfg("coll"), tr = std::max<i64>(-12, std::min<i64>(12, p.cfg("transp"))); Hash hh; bool moved = false; for (auto &e : s.ev) if (e.b[0] >= 0x80 && e.b[0] < 0xf0 && to[e.b[0] & 15] != (e.b[0] & 15)) moved = true; if (!moved) { v.nontrivial = false; return v; }
    auto run = [&](bool twin, Pcm &out) {
        Song q = s; if (twin) for (auto &e : q.ev) if (e.b[0] >= 0x80 && e.b[0] < 0xf0) e.b[0] = (u8)((e.b[0] & 0xf0) | to[e.b[0] & 15]);
        SimFile f; f.data = encodeSong(q); Stage st(StageOpt{0, false, !twin, 0}); SimFile *c = fs.get(9); if (coll == 1 && c) st.in.loadDls(c, nullptr);
        Str *a = live ? st.midi() : st.file(&f, true, 0); if (!a) return false; if (coll == 2 && c) st.in.loadDls(c, a->h); if (tr) EAS_SetTransposition(st.in.h, a->h, (EAS_I32)tr);
        if (!live) st.render(n); else { size_t j = 0; for (i64 k = 0; k < n; k++) { for (; j < tl.size() && tl[j].ms < (k + 1) * SLICE_MS; j++) { const Bytes &b = q.ev[(size_t)tl[j].idx].b; if (b[0] != 0xff && b[0] != 0xf7) st.write(a, b); } st.render(); } }
        if (!twin) for (auto x : st.sliceHash) hh.u(x);
        out = st.pcm; return true; };
    Pcm a, b; if (!run(false, a) || !run(true, b)) { v.fail("open", "the song does not open"); return v; } double loud = 0;
    for (size_t i = 0; i < a.n() && !v.violated; i++) { loud = std::max<double>(loud, fabs(a.l[i])); if (a.l[i] != b.l[i] || a.r[i] != b.r[i]) v.fail("channels-differ", fmt("with its channels exchanged the song sounds different, first %lld slices (%.1f ms) after its beginning", (long long)(i / SLICE), i * 1000.0 / RATE)); }
    v.traceHash = hh.h; v.nontrivial = loud > 20; stat("sim.samples_compared", (u64)a.n()); return v; }
