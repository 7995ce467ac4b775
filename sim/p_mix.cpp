// D03, L02, M04: several streams in one instance must sound like the sum of what each one plays alone.
#include "script.h"
#include "band.h"

namespace {
// what one stream experienced, step by step
struct Seen { vector<string> log; void add(i64 k, const string &s) { log.push_back(fmt("%lld %s", (long long)k, s.c_str())); } };
struct Run { vector<i64> result; Pcm pcm; map<int, Seen> unit; u64 fired = 0, failed = 0; bool dead = false; map<int, vector<int>> markers; map<int, i64> faultAt; bool overrun = false; };
struct Unit { std::unique_ptr<SimFile> file; Str *s = nullptr, *mate = nullptr; bool midi = false; u64 fired = 0; size_t heard = 0; vector<MetaEv> meta; };
}
// "u <i> file <fid>", "u <i> midi", "u <i> duo <fid>" (a file with an interactive stream on its synthesizer)
static Run play(const Plan &p, const std::function<bool(int)> &with, i64 n) {
    Run r; FileSet fs; fs.build(p); Stage st; map<int, Unit> U; map<int, Line> defs;
    if (SimFile *g = fs.get((int)p.cfg("global", -1))) st.in.loadDls(g, nullptr);
    for (auto &l : p.lines) if (l.t[0] == "u" && with((int)l.num(1))) defs[(int)l.num(1)] = l;
    EAS_DATA_HANDLE E = st.in.h;
    auto drain = [&](Unit &u) { if (!u.s) return; for (; u.heard < u.s->meta.size(); u.heard++) u.meta.push_back(u.s->meta[u.heard]); if (u.s->overrun) r.overrun = true; };
    auto open = [&](int i, Unit &u) -> i64 {
        const Line &d = defs[i]; i64 res = 0; drain(u); u.heard = 0; u.mate = nullptr; u.midi = d.tok(2) == "midi";
        if (u.midi) { u.s = st.midi(nullptr, &res); return res; }
        SimFile *f = fs.get((int)d.num(3)); if (!f) return -500;
        if (!u.file) { u.file.reset(new SimFile); u.file->data = f->data; }
        u.s = st.file(u.file.get(), true, 48, &res);
        if (u.s && d.tok(2) == "duo") u.mate = st.midi(u.s);
        return res;
    };
    for (auto &d : defs) { i64 res = open(d.first, U[d.first]); r.unit[d.first].add(-1, fmt("open %lld", (long long)res)); }
    auto A = acts(p); size_t ai = 0;
    for (i64 k = 0; k < n; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const string &c = A[ai].cmd(); int i = (int)A[ai].num(1); i64 x = A[ai].num(2), y = A[ai].num(3), res = 0;
            if (c == "gdls") { if (SimFile *f = fs.get((int)A[ai].num(1))) { if (x > 0) { f->armIn = x - 1; f->armKind = FK_ERROR; f->armCount = 1; } st.in.loadDls(f, nullptr); f->armIn = -1; } continue; }
            if (c == "master") { EAS_SetVolume(E, nullptr, A[ai].num(1)); continue; }
            auto it = U.find(i); if (it == U.end()) continue;
            Unit &u = it->second; EAS_HANDLE h = u.s ? u.s->h : nullptr; u64 f0 = u.file ? u.file->fired : 0;
            if (c == "fread") { if (u.file) { u.file->armIn = x; u.file->armKind = (int)y; u.file->armArg = A[ai].num(4); u.file->armCount = A[ai].num(5, 1); } continue; }
            if (c == "heal") { if (u.file) u.file->armIn = -1; continue; }
            if (c == "close") { if (!h) continue; drain(u); if (u.mate) st.close(u.mate); res = st.close(u.s); u.s = u.mate = nullptr; }
            else if (c == "open") { if (h) continue; res = open(i, u); }
            else if (!h) continue;
            else if (c == "write") { Str *to = u.midi ? u.s : u.mate; if (!to) continue; res = st.write(to, unhex(A[ai].tok(2))); }
            else if (c == "dls") { SimFile *f = fs.get((int)x); if (!f) continue; if (y > 0) { f->armIn = y - 1; f->armKind = FK_ERROR; f->armCount = 1; } res = st.in.loadDls(f, h); f->armIn = -1; }
            else if (c == "vol") res = EAS_SetVolume(E, h, x);
            else if (c == "transp") res = EAS_SetTransposition(E, h, x);
            else if (c == "rate") res = EAS_SetPlaybackRate(E, h, (EAS_U32)x);
            else if (c == "pause") res = EAS_Pause(E, h);
            else if (c == "resume") res = EAS_Resume(E, h);
            else if (c == "repeat") res = EAS_SetRepeat(E, h, x);
            else if (c == "prio") res = EAS_SetPriority(E, h, x);
            else if (c == "locate") res = EAS_Locate(E, h, x, 0);
            else continue;
            if (u.file && u.file->fired != f0 && !r.faultAt.count(i)) r.faultAt[i] = k;
            r.unit[i].add(k, c + fmt(" -> %lld", (long long)res));
        }
        map<int, u64> before; for (auto &q : U) if (q.second.file) before[q.first] = q.second.file->fired;
        i64 res = 0;
        for (int t = 0; t < 5; t++) {      // a step that fails delivers no frames: the host asks again
            res = st.render(); if (res == EAS_SUCCESS) break;
            st.slice--; st.pcm.l.resize(st.pcm.l.size() - SLICE); st.pcm.r.resize(st.pcm.r.size() - SLICE); r.failed++;
        }
        if (res != EAS_SUCCESS) { r.dead = true; st.pcm.l.resize(st.pcm.l.size() + SLICE); st.pcm.r.resize(st.pcm.r.size() + SLICE); st.slice++; }
        r.result.push_back(res);
        for (auto &q : U) if (q.second.s && q.second.s->h) {
            i64 s = st.state(q.second.s), at = st.loc(q.second.s);
            r.unit[q.first].add(k, fmt("state %lld at %lld", (long long)s, (long long)at));
            if (q.second.file && q.second.file->fired != before[q.first] && !r.faultAt.count(q.first)) r.faultAt[q.first] = k;
        }
    }
    for (auto &q : U) {
        drain(q.second);
        for (auto &m : q.second.meta) { r.unit[q.first].add(m.slice, fmt("text %d %s", m.type, m.text.c_str())); int x = markerIndex(m.text); if (x >= 0) r.markers[q.first].push_back(x); }
        if (q.second.file) r.fired += q.second.file->fired;
    }
    r.pcm = st.pcm; return r;
}
static vector<int> units(const Plan &p) { set<int> s; for (auto &l : p.lines) if (l.t[0] == "u") s.insert((int)l.num(1)); return vector<int>(s.begin(), s.end()); }

// the sum rule and the step-by-step comparison of every stream with its solo run
static void compare(const Plan &p, i64 n, Verdict &v, u64 *fired = nullptr, bool steps = true) {
    vector<int> ids; int slots = 4;
    for (int i : units(p)) { int need = 1; for (auto &l : p.lines) if (l.t[0] == "u" && (int)l.num(1) == i) need = l.tok(2) == "duo" ? 2 : 1; if (slots >= need) { slots -= need; ids.push_back(i); } }
    auto in = [&](int i) { return std::find(ids.begin(), ids.end(), i) != ids.end(); };
    vector<Run> solo; for (int i : ids) solo.push_back(play(p, [&](int j) { return i == j; }, n));
    Run all = play(p, in, n); if (fired) *fired = all.fired;
    if (all.dead) v.fail("dead", "rendering keeps failing");
    if (all.failed) stat("fault.render_error", all.failed);
    Hash hh; double peak = 0; u64 loud = 0, clipped = 0;
    for (size_t a = 0; a < ids.size() && !v.violated; a++) {
        auto &x = all.unit[ids[a]].log, &y = solo[a].unit[ids[a]].log;
        if (steps) for (size_t j = 0; j < std::max(x.size(), y.size()); j++) if (j >= x.size() || j >= y.size() || x[j] != y[j]) {
            v.fail("history", fmt("stream %d in company: %s; alone: %s", ids[a], j < x.size() ? x[j].c_str() : "nothing", j < y.size() ? y[j].c_str() : "nothing")); break; }
        for (auto &s : x) hh.s(s);
        if (all.overrun || solo[a].overrun) v.fail("overrun", "a text callback wrote past its buffer");
    }
    const float TOP = 32767, BOTTOM = -32768; i64 vol = 90; for (auto &a : acts(p)) if (a.cmd() == "master") vol = std::max<i64>(vol, std::min<i64>(100, a.num(1)));
    double tol = ids.size() * (1 + 4 * pow(10, (vol - 100) / 20.0)) + 1;     // the mix is cut to 2^-7 steps before the master gain, up to 4 output steps each
    for (int ch = 0; ch < 2 && !v.violated; ch++) {
        const vector<float> &f = ch ? all.pcm.r : all.pcm.l;
        for (size_t t = 0; t < f.size() && !v.violated; t++) {
            double lo = 0, hi = 0;
            for (auto &s : solo) {
                float x = ch ? s.pcm.r[t] : s.pcm.l[t];
                lo += x <= BOTTOM ? -1e9 : x; hi += x >= TOP ? 1e9 : x;      // a clipped solo sample stands for anything beyond
            }
            lo -= tol; hi += tol; lo = std::max((double)BOTTOM, std::min((double)TOP, lo)); hi = std::max((double)BOTTOM, std::min((double)TOP, hi));
            if (f[t] < lo || f[t] > hi) v.fail("sum", fmt("slice %d sample %d %s is %.0f, the streams alone give %.0f to %.0f", (int)(t / SLICE), (int)(t % SLICE), ch ? "right" : "left", f[t], lo, hi));
            peak = std::max(peak, (double)fabs(f[t])); if (fabs(f[t]) > 4) loud++; if (f[t] >= TOP || f[t] <= BOTTOM) clipped++;
        }
    }
    hh.u(loud); v.traceHash = hh.h; v.nontrivial = loud > 500 && ids.size() > 1;
    stat("sim.streams", ids.size()); if (clipped) stat("sim.clipped_runs");
}

static void mixSong(Rng &r, Plan &p, int fid, int notes, bool markers, double maxMs) {
    GenSongOpt g; g.maxNotes = notes; g.maxTracks = 3; g.maxMs = maxMs; g.sysex = true; Song s = genSong(r, g); if (markers) s = withMarkers(s); songToPlan(p, fid, s);
}
static void mixDls(Rng &r, Plan &p, int fid, int amp) {      // programs 0..7 and a drum kit, each key one voice
    p.add("D %d 0", fid); int base = (int)r.range(20, 60);
    for (int i = 0, n = (int)r.range(1, 4); i < n; i++) p.add("P %d %d 0 0 %d %d %d 40 40 %d", fid, i, (int)r.range(0, 7), i == 3, base + 41 * i % 120, amp);
}
static void mixActs(Rng &r, Plan &p, int units, i64 n, int budget, const vector<int> &dls, double faultP) {
    int steps = (int)r.range(2, 24);
    vector<int> kind((size_t)units); int writes = budget;
    for (int i = 0; i < units; i++) { kind[(size_t)i] = r.chance(0.55) ? 0 : r.chance(0.6) ? 1 : 2; if (kind[(size_t)i] == 1) p.add("u %d midi", i); else p.add("u %d %s %d", i, kind[(size_t)i] == 2 ? "duo" : "file", 1 + i); }
    for (int j = 0; j < steps; j++) {
        i64 k = r.range(0, n - 6); int i = (int)r.range(0, units - 1);
        if (kind[(size_t)i] && r.chance(0.5) && writes > 0) {
            Bytes b; int c = (int)r.range(0, 15);
            if (r.chance(0.3)) b = {(u8)(0xc0 | c), (u8)r.range(0, 127)};
            for (int m = 0, w = (int)r.range(1, 4); m < w && writes > 0; m++, writes--) { u8 key = (u8)r.range(36, 84); b.insert(b.end(), {(u8)(0x90 | c), key, (u8)r.range(20, 127)}); if (r.chance(0.5)) p.add("a %lld write %d %02x%02x00", (long long)(k + r.range(0, 10)), i, 0x80 | c, key); }
            if (r.chance(0.2)) b.insert(b.end(), {(u8)(0xb0 | c), (u8)r.pick({1, 7, 10, 11, 64, 120, 121, 123}), (u8)r.range(0, 127)});
            if (r.chance(0.1)) b.insert(b.end(), {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)});
            if (r.chance(0.04)) b.insert(b.end(), {0xf0, 0x7e, 0x7f, 9, 1, 0xf7});
            p.add("a %lld write %d %s", (long long)k, i, hex(b).c_str()); continue;
        }
        if (!dls.empty() && r.chance(0.35)) { p.add("a %lld dls %d %d %d", (long long)k, i, (int)dls[(size_t)r.range(0, (i64)dls.size() - 1)], (int)(r.chance(0.3) ? r.range(1, 60) : 0)); continue; }
        if (r.chance(faultP)) { p.add("a %lld fread %d %lld %d %d %d", (long long)k, i, (long long)r.pick({0, 1, r.range(0, 40), r.range(0, 200)}), (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO}), (int)r.range(0, 3), (int)r.pick({1, 1, 3, 100000})); continue; }
        switch (r.weighted({4, 3, 3, 3, 3, 3, 1, 2, 2, 1})) {
            case 0: p.add("a %lld vol %d %lld", (long long)k, i, (long long)r.pick({0, 20, 50, 70, 90, 100, 101, -1, r.range(0, 100)})); break;
            case 1: p.add("a %lld transp %d %lld", (long long)k, i, (long long)r.range(-13, 13)); break;
            case 2: p.add("a %lld rate %d %lld", (long long)k, i, (long long)r.range(1 << 27, 1 << 29)); break;
            case 3: p.add("a %lld pause %d", (long long)k, i); if (r.chance(0.7)) p.add("a %lld resume %d", (long long)(k + r.range(0, 20)), i); break;
            case 4: p.add("a %lld resume %d", (long long)k, i); break;
            case 5: p.add("a %lld locate %d %lld", (long long)k, i, (long long)r.range(0, 900)); break;
            case 6: p.add("a %lld prio %d %lld", (long long)k, i, (long long)r.range(1, 15)); break;
            case 7: p.add("a %lld close %d", (long long)k, i); if (r.chance(0.7)) p.add("a %lld open %d", (long long)(k + r.range(0, 10)), i); break;
            case 8: p.add("a %lld open %d", (long long)k, i); break;
            default: p.add("a %lld master %lld", (long long)k, (long long)r.range(0, 100)); break;
        }
    }
}
void gen_D03(Rng &r, Plan &p, bool thorough) {
    int n = (int)r.range(2, 4); i64 slices = r.range(30, thorough ? 400 : 160); p.add("cfg slices %lld", (long long)slices);
    bool loud = r.chance(0.35); if (r.chance(0.6)) { mixDls(r, p, 9, loud ? 30000 : (int)r.range(300, 3000)); p.add("cfg global 9"); }
    int budget = 52 / (n + 1); for (int i = 0; i < n; i++) mixSong(r, p, 1 + i, budget / 2, false, (double)slices * SLICE_MS);
    if (loud) p.add("a 0 master 100");
    mixActs(r, p, n, slices, budget, {}, 0);
}
Verdict judge_D03(const Plan &p) { Verdict v; compare(p, std::min<i64>(p.cfg("slices", 100), 4000), v); return v; }

// ---------------------------------------------------------------- L02: collections stay in their scope
// mode "probe": interactive streams; the tone of a note tells which collection it comes from
static const int COLLS = 4, COLL_KEYS = 12;
static int collBin(int j, int key) { return 16 + 40 * j + 2 * key; }
void gen_L02(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.5)) {
        p.add("cfg mode probe"); p.add("cfg streams %lld", (long long)r.pick({1, 2, 2, 3, 3, 4}));
        for (int j = 0, n = (int)r.range(8, thorough ? 120 : 50); j < n; j++) {
            int s = (int)r.range(0, 3), c = (int)r.range(0, COLLS - 1), fault = r.chance(0.3) ? (int)r.range(1, 60) : 0;
            switch (r.weighted({40, 12, 20, 8, 8, 6, 6})) {
                case 0: p.add("a %d note %d %d %d", j, s, (int)r.range(0, 15), (int)r.range(0, COLL_KEYS - 1)); break;
                case 1: p.add("a %d gdls %d %d %d", j, c, fault, (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO, 100})); break;
                case 2: p.add("a %d dls %d %d %d %d", j, s, c, fault, (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO, 100})); break;
                case 3: p.add("a %d close %d", j, s); break;
                case 4: p.add("a %d open %d", j, s); break;
                case 5: p.add("a %d bad %d", j, (int)r.range(-1, 3)); break;
                default: p.add("a %d hold %d %d %d", j, s, (int)r.range(0, 15), (int)r.range(0, COLL_KEYS - 1)); break;
            }
        }
        return;
    }
    int n = (int)r.range(2, 4); i64 slices = r.range(30, thorough ? 400 : 160); p.add("cfg slices %lld", (long long)slices);
    for (int f = 20; f < 23; f++) mixDls(r, p, f, (int)r.range(300, 3000));
    genDls(r, p, 23, false); if (r.chance(0.4)) p.add("cfg global %d", (int)r.range(20, 22));
    int budget = 52 / (n + 1); for (int i = 0; i < n; i++) mixSong(r, p, 1 + i, budget / 2, false, (double)slices * SLICE_MS);
    mixActs(r, p, n, slices, budget, {20, 21, 22}, 0);
    for (int j = 0, m = (int)r.range(0, 3); j < m; j++) p.add("a %lld gdls %d %d", (long long)r.range(0, slices), (int)r.range(20, 23), (int)(r.chance(0.4) ? r.range(1, 80) : 0));
}
static Verdict judgeProbeL02(const Plan &p) {
    Verdict v; int n = (int)std::max<i64>(1, std::min<i64>(4, p.cfg("streams", 2))), pairs = std::min(n, 4 - n);      // the first streams share the synthesizer of a silent file, which can own a collection
    Plan q; for (int j = 0; j < COLLS; j++) { q.add("D %d 0", j); for (int d = 0; d < 2; d++) q.add("P %d %d 0 0 0 %d %d 48 %d 800 0 2", j, d, d, collBin(j, 0), COLL_KEYS); }
    Bytes junk(200, 0x41); q.add("R 8 %s", hex(junk).c_str()); q.add("R 9 524946460000000000");
    FileSet fs; fs.build(q); Stage st; EAS_DATA_HANDLE E = st.in.h; Hash hh;
    vector<std::unique_ptr<SimFile>> dummies; struct Chan { Str *s = nullptr, *host = nullptr; int own = -1, inherited = -1; int held = -1, heldKey = 0, heldCh = 0; }; vector<Chan> S((size_t)n); int global = -1, checks = 0, faults = 0;
    auto openS = [&](int i) {
        Chan &c = S[(size_t)i]; c = Chan(); c.inherited = global;
        if (i < pairs) { dummies.emplace_back(dummyFile()); c.host = st.file(dummies.back().get(), true, 0); if (!c.host) return false; }
        c.s = st.midi(c.host); return c.s != nullptr;
    };
    for (int i = 0; i < n; i++) if (!openS(i)) { v.fail("open", "interactive stream"); return v; }
    auto load = [&](int j, EAS_HANDLE h, int fault, int kind) {
        SimFile *f = fs.get(j); gHeap.failAfter = -1;
        if (fault > 0 && kind == 100) { gHeap.failAfter = fault % 4; gHeap.failCount = 1; } else if (fault > 0) { f->armIn = fault - 1; f->armKind = kind; f->armArg = fault % 5; f->armCount = 1; }
        u64 f0 = f->fired, h0 = gHeap.failed; i64 res = st.in.loadDls(f, h); bool hit = f->fired != f0 || gHeap.failed != h0; f->armIn = -1; gHeap.failAfter = -1; if (hit) faults++;
        if (!hit && res != EAS_SUCCESS) v.fail("load", fmt("loading a valid collection returned %lld", (long long)res));
        return res == EAS_SUCCESS;
    };
    for (auto &a : acts(p)) {
        if (v.violated) break;
        const string &c = a.cmd(); int i = wrap(a.num(1), n);
        if (c == "gdls") { int j = wrap(a.num(1), COLLS); if (load(j, nullptr, (int)a.num(2), (int)a.num(3))) global = j; }
        else if (c == "dls") { int j = wrap(a.num(2), COLLS); if (!S[(size_t)i].host) continue; if (load(j, S[(size_t)i].host->h, (int)a.num(3), (int)a.num(4))) { S[(size_t)i].own = j; S[(size_t)i].held = -1; } }
        else if (c == "bad") { int k = wrap(a.num(1) + 1, 5); SimFile *f = fs.get(a.num(1) & 1 ? 8 : 9); EAS_HANDLE h = k < n && S[(size_t)k].host ? S[(size_t)k].host->h : nullptr; if (st.in.loadDls(f, h) == EAS_SUCCESS) v.fail("load", "garbage loads as a collection"); }
        else if (c == "close") { if (S[(size_t)i].s) st.close(S[(size_t)i].s); if (S[(size_t)i].host) st.close(S[(size_t)i].host); S[(size_t)i] = Chan(); }
        else if (c == "open") { if (S[(size_t)i].s) continue; if (!openS(i)) v.fail("open", "interactive stream"); }
        else if (c == "note" || c == "hold") {
            Chan &t = S[(size_t)i]; int ch = wrap(a.num(2), 16), key = wrap(a.num(3), COLL_KEYS), want = t.own >= 0 ? t.own : t.inherited; if (!t.s) continue;
            if (c == "hold") { if (t.held >= 0 || want < 0) continue; t.held = want; t.heldKey = key; t.heldCh = ch; }
            else if (t.held >= 0 && t.heldKey == key) continue;
            st.write(t.s, {(u8)(0x90 | ch), (u8)(48 + key), 127}); st.render(8); i64 sl = st.slice - 1;
            auto sp = st.spectrum(sl - 3, 4); map<int, int> expect; for (auto &x : S) if (x.held >= 0) expect[collBin(x.held, x.heldKey)]++;
            bool builtin = want < 0; if (!builtin && c == "note") expect[collBin(want, key)]++;
            if (!builtin) for (int j = 0; j < COLLS; j++) for (int y = 0; y < COLL_KEYS; y++) {
                int b = collBin(j, y); double level = sp[(size_t)b]; bool on = expect.count(b) != 0;                  // two equal tones may cancel each other
                if (on && expect[b] == 1 && level < 200) v.fail("missing", fmt("collection %d key %d should sound, bin %d measures %.0f, after: %s", j, y, b, level, a.l->str().c_str()));
                if (!on && level > 80) v.fail("foreign", fmt("collection %d key %d sounds (%.0f), after: %s", j, y, level, a.l->str().c_str()));
            }
            checks++; hh.u((u64)want + 1); hh.u((u64)key);
            if (c == "note") { st.write(t.s, {(u8)(0x80 | ch), (u8)(48 + key), 0}); st.render(builtin ? 1 : 6); if (builtin) { st.write(t.s, {(u8)(0xb0 | ch), 120, 0}); st.render(6); if (t.held >= 0 && t.heldCh == ch) t.held = -1; } }
        }
    }
    stat("sim.voice_checks", (u64)checks); if (faults) stat("fault.during_load", (u64)faults);
    v.nontrivial = checks > 1; v.traceHash = hh.h; return v;
}
Verdict judge_L02(const Plan &p) { if (p.cfgs("mode") == "probe") return judgeProbeL02(p); Verdict v; compare(p, std::min<i64>(p.cfg("slices", 100), 4000), v); return v; }

// ---------------------------------------------------------------- M04: read faults stay in the stream that suffers them
void gen_M04(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.2)) { p.add("cfg mode cut"); i64 slices = r.range(20, 200); p.add("cfg slices %lld", (long long)slices); mixSong(r, p, 1, 20, true, (double)slices * SLICE_MS); Song s; songFromPlan(p, 1, s); p.add("cfg off %lld", (long long)(r.chance(0.1) ? r.range(0, 3) : r.range(0, (i64)encodeSong(s).size()))); if (r.chance(0.3)) p.add("cfg how 1"); return; }
    if (r.chance(0.5)) {      // one file, faults, then closed, healed and opened again
        p.add("cfg mode heal"); i64 slices = r.range(20, 140); p.add("cfg slices %lld", (long long)slices); mixSong(r, p, 1, 20, true, (double)slices * SLICE_MS); p.add("u 0 file 1");
        for (int j = 0, m = (int)r.range(1, 3); j < m; j++) p.add("a %lld fread 0 %lld %d %d %lld", (long long)(r.chance(0.3) ? 0 : r.range(0, slices)), (long long)r.pick({0, 1, r.range(0, 60), r.range(0, 300)}), (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO}), (int)r.range(0, 3), (long long)r.pick({1, 1, 2, 10, 1000000}));
        if (r.chance(0.5)) {      // instead one fault on a chosen byte, most often one that carries a tempo
            p.lines.erase(std::remove_if(p.lines.begin(), p.lines.end(), [](const Line &l) { return l.t.size() > 2 && l.t[2] == "fread"; }), p.lines.end());
            Song s; songFromPlan(p, 1, s); Bytes d = encodeSong(s); vector<i64> hot; for (size_t i = 0; i + 6 < d.size(); i++) if (d[i] == 0xff && d[i + 1] == 0x51) for (i64 q = -1; q < 7; q++) hot.push_back((i64)i + q);
            p.add("cfg foff %lld", (long long)(hot.size() && r.chance(0.7) ? hot[(size_t)r.range(0, (i64)hot.size() - 1)] : r.range(14, (i64)d.size() - 1))); p.add("cfg fkind %d", (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO})); p.add("cfg fskip %d", (int)r.pick({0, 0, 0, 1})); return;
        }
        if (r.chance(0.2)) p.add("cfg atopen %lld", (long long)r.range(1, 80));
        for (int j = 0, m = (int)r.range(0, 3); j < m; j++) { i64 k = r.range(0, slices); p.add("a %lld pause 0", (long long)k); p.add("a %lld resume 0", (long long)(k + r.range(0, 8))); }
        return;
    }
    int n = (int)r.range(2, 4); i64 slices = r.range(30, thorough ? 400 : 160); p.add("cfg slices %lld", (long long)slices);
    if (r.chance(0.5)) { mixDls(r, p, 9, (int)r.range(300, 3000)); p.add("cfg global 9"); }
    int budget = 52 / (n + 1); for (int i = 0; i < n; i++) mixSong(r, p, 1 + i, budget / 2, true, (double)slices * SLICE_MS);
    mixActs(r, p, n, slices, budget, {}, 0.5);
    for (int j = 0, m = (int)r.range(1, 3); j < m; j++) p.add("a %lld fread %d %lld %d %d %lld", (long long)r.range(0, slices / 2), (int)r.range(0, n - 1), (long long)r.range(0, 100), (int)r.pick({FK_ERROR, FK_SHORT, FK_ZERO}), (int)r.range(0, 3), (long long)r.pick({1, 1, 1000000}));
}
static Verdict judgeHeal(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000), open = p.cfg("atopen"); FileSet fs; fs.build(p); SimFile *src = fs.get(1); Song song; if (!src || !songFromPlan(p, 1, song)) { v.nontrivial = false; return v; }
    auto A = acts(p); Hash hh;
    struct H { vector<MetaEv> meta; vector<i64> state, result; Pcm pcm; vector<MetaEv> meta2; Pcm pcm2; vector<i64> state2; u64 fired = 0; i64 at = -1; bool opened = true; };
    auto run = [&](bool faults, bool again) {
        H h; SimFile f; f.data = src->data; Stage st; if (faults && open) { f.armIn = open - 1; f.armKind = FK_ERROR; f.armCount = 1; }
        bool off = faults && p.cfg("foff", -1) >= 0; if (off) { f.offAt = p.cfg("foff"); f.offSkip = p.cfg("fskip"); f.armKind = (int)p.cfg("fkind", FK_ERROR); f.armArg = 0; }
        i64 res = 0; Str *s = st.file(&f, true, 48, &res); f.armIn = -1; h.opened = s != nullptr;
        if (!s && !f.fired) v.fail("open", fmt("opening the file without a fault returned %lld", (long long)res));
        size_t ai = 0; if (f.fired) h.at = -1;
        for (i64 k = 0; k < n && s; k++) {
            for (; ai < A.size() && A[ai].at <= k; ai++) { auto &a = A[ai]; const string &c = a.cmd(); if (c == "pause") EAS_Pause(st.in.h, s->h); else if (c == "resume") EAS_Resume(st.in.h, s->h); else if (c == "fread" && faults) { f.armIn = a.num(2); f.armKind = (int)a.num(3); f.armArg = a.num(4); f.armCount = a.num(5, 1); } }
            u64 f0 = f.fired; h.result.push_back(st.render()); h.state.push_back(st.state(s)); if (f.fired != f0 && h.at < 0) h.at = k;
        }
        if (s) h.meta = s->meta; h.pcm = st.pcm; h.fired = f.fired; f.armIn = f.offAt = -1;
        if (again) {
            if (s) { i64 r = st.close(s); if (r != EAS_SUCCESS) v.fail("close", fmt("closing the stream after the fault returned %lld", (long long)r)); }
            Str *t = st.file(&f, true, 48, &res); if (!t) { v.fail("reopen", fmt("opening the healed file returned %lld", (long long)res)); return h; }
            size_t o = st.pcm.n(); i64 k0 = st.slice;
            for (i64 k = 0; k < n; k++) { for (size_t j = 0; j < A.size(); j++) if (A[j].at == k) { if (A[j].cmd() == "pause") EAS_Pause(st.in.h, t->h); else if (A[j].cmd() == "resume") EAS_Resume(st.in.h, t->h); } st.render(); h.state2.push_back(st.state(t)); }
            h.meta2 = t->meta; for (auto &m : h.meta2) m.slice -= k0;
            h.pcm2.l.assign(st.pcm.l.begin() + (long)o, st.pcm.l.end()); h.pcm2.r.assign(st.pcm.r.begin() + (long)o, st.pcm.r.end());
        }
        return h;
    };
    H good = run(false, false), bad = run(true, true); if (v.violated) return v;
    // the healed file plays as if nothing had happened
    if (good.state != bad.state2) v.fail("heal-state", "the healed stream goes through other states than a fresh one");
    for (size_t i = 0; i < std::max(good.meta.size(), bad.meta2.size()) && !v.violated; i++) if (i >= good.meta.size() || i >= bad.meta2.size() || good.meta[i].slice != bad.meta2[i].slice || good.meta[i].text != bad.meta2[i].text || good.meta[i].type != bad.meta2[i].type) v.fail("heal-events", fmt("text event %d of the healed stream differs from a fresh one", (int)i));
    for (size_t i = 0; i < good.pcm.n() && !v.violated; i++) if (good.pcm.l[i] != bad.pcm2.l[i] || good.pcm.r[i] != bad.pcm2.r[i]) v.fail("heal-audio", fmt("the healed stream's audio differs from a fresh one at slice %d", (int)(i / SLICE)));
    // before the first fault nothing differs; after it no event appears that the file does not contain at that place
    i64 at = bad.opened ? bad.fired ? bad.at : n : 0;
    for (i64 k = 0; k < at && !v.violated; k++) if (bad.state[(size_t)k] != good.state[(size_t)k] || memcmp(&bad.pcm.l[(size_t)k * SLICE], &good.pcm.l[(size_t)k * SLICE], SLICE * sizeof(float))) v.fail("early", fmt("slice %lld differs although the first fault comes in slice %lld", (long long)k, (long long)at));
    bool error = false, tempo = false; for (auto &e : song.ev) if (e.b[0] == 0xff && e.b.size() > 1 && e.b[1] == 0x51) tempo = true;      // a lost tempo change shifts the other tracks
    for (i64 x : bad.result) if (x != EAS_SUCCESS) error = true;
    for (i64 x : good.result) if (x != EAS_SUCCESS) v.fail("open", "rendering without faults fails");
    i64 slack = 1; for (i64 x : good.state) if (x == 3 || x == 5) slack++;      // an event at the edge of a pause may change sides
    size_t lost = 0; std::multimap<string, i64> have; for (auto &m : good.meta) have.insert({fmt("%d ", m.type) + m.text, m.slice});
    set<string> inSong; for (auto &e : song.ev) if (e.b[0] == 0xff && e.b.size() >= 2) { string t(e.b.begin() + 2, e.b.end()); inSong.insert(t.substr(0, t.find('\0')).substr(0, 47)); }
    for (auto &m : bad.meta) {
        auto range = have.equal_range(fmt("%d ", m.type) + m.text); bool hit = false;
        for (auto i = range.first; i != range.second; ++i) if (std::llabs(i->second - m.slice) <= slack || error || tempo) { have.erase(i); hit = true; break; }
        if (!hit && tempo && inSong.count(m.text)) hit = true;      // beyond the end of the reference run
        if (!hit) { v.fail("fabricated", fmt("text \"%s\" in slice %lld, which the file does not have there", m.text.c_str(), (long long)m.slice)); break; }
    }
    lost = have.size();
    // every track was delivered as a prefix of its own events
    if (!v.violated) {
        vector<TEv> tl = songTimeline(song, nullptr); set<int> got; for (auto &m : bad.meta) { int x = markerIndex(m.text); if (x >= 0) got.insert(x); }
        map<int, bool> ended; for (auto &t : tl) { auto &e = song.ev[(size_t)t.idx]; if (e.b[0] != 0xff || e.b.size() < 2 || e.b[1] != 5) continue; int x = markerIndex(string(e.b.begin() + 2, e.b.end())); if (x < 0) continue; bool inGood = false; for (auto &m : good.meta) if (markerIndex(m.text) == x) { inGood = true; break; } if (!inGood) continue; if (!got.count(x)) ended[t.trk] = true; else if (ended[t.trk]) { v.fail("gap", fmt("event %d of track %d plays although an earlier one of the track was lost", x, t.trk)); break; } }
    }
    // what still plays keeps the time that the delivered part of the file sets: each track ends somewhere, and only the tempo events before that place count
    bool pauses = false; for (auto &a : A) if (a.cmd() == "pause") pauses = true;
    if (!v.violated && bad.fired && !pauses && bad.opened) {
        vector<vector<int>> byTrk((size_t)song.ntrk); for (auto &t : songTimeline(song, nullptr)) byTrk[(size_t)t.trk].push_back(t.idx);
        std::set<string> got; for (auto &m : bad.meta) got.insert(m.text); vector<vector<size_t>> cuts((size_t)song.ntrk);     // candidate lengths of each track: up to the first marker that never came
        for (int t = 0; t < song.ntrk; t++) { size_t lo = 0, hi = byTrk[(size_t)t].size(); for (size_t i = 0; i < byTrk[(size_t)t].size(); i++) { auto &e = song.ev[(size_t)byTrk[(size_t)t][i]]; if (e.b[0] != 0xff || e.b.size() < 2 || e.b[1] != 5) continue; string x(e.b.begin() + 2, e.b.end()); if (markerIndex(x) < 0) continue; if (got.count(x)) lo = i + 1; else { hi = i; break; } }
            cuts[(size_t)t].push_back(hi); for (size_t i = lo; i < hi; i++) { auto &e = song.ev[(size_t)byTrk[(size_t)t][i]]; if (e.b[0] == 0xff && e.b.size() > 1 && e.b[1] == 0x51) cuts[(size_t)t].push_back(i); } }
        vector<size_t> pick((size_t)song.ntrk, 0); bool fits = false; string why; int tries = 0;
        for (;; ) { Song cut = song; cut.ev.clear(); vector<char> keep(song.ev.size(), 0); for (int t = 0; t < song.ntrk; t++) for (size_t i = 0; i < cuts[(size_t)t][pick[(size_t)t]]; i++) keep[(size_t)byTrk[(size_t)t][i]] = 1; for (size_t i = 0; i < song.ev.size(); i++) if (keep[i]) cut.ev.push_back(song.ev[i]);
            map<int, double> due; for (auto &t : songTimeline(cut, nullptr)) { auto &e = cut.ev[(size_t)t.idx]; if (e.b[0] == 0xff && e.b.size() > 1 && e.b[1] == 5) due[markerIndex(string(e.b.begin() + 2, e.b.end()))] = t.ms; }
            bool ok = true; for (auto &m : bad.meta) { int x = markerIndex(m.text); if (x < 0 || !due.count(x)) continue; double t = due[x], d = driftMs(cut, t); if (t > (m.slice + 1) * SLICE_MS + d || t < m.slice * SLICE_MS - d - 0.5) { ok = false; why = fmt("event %d plays in slice %lld, %.1f ms, but the delivered part of the file has it at %.1f ms", x, (long long)m.slice, m.slice * SLICE_MS, t); break; } }
            if (ok) { fits = true; break; } size_t t = 0; for (; t < pick.size(); t++) { if (++pick[t] < cuts[t].size()) break; pick[t] = 0; } if (t == pick.size()) break; if (++tries > 200) { fits = true; break; } }
        if (!fits && !tempoAmbiguous(song)) v.fail("fabricated-time", why); stat("sim.fault_timelines", 1);
    }
    if (lost && !bad.fired) v.fail("lost", "events are missing although no fault occurred");
    for (auto &m : bad.meta) hh.u((u64)m.slice); for (i64 s : bad.state) hh.u((u64)s); hh.u(bad.fired);
    if (bad.fired) { stat("fault.read", bad.fired); if (error) stat("fault.render_error"); }
    v.nontrivial = bad.fired > 0; v.traceHash = hh.h; return v;
}
// a file that ends inside its last track: the same as one whose last track properly ends there
static Verdict judgeCut(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); Song song; if (!songFromPlan(p, 1, song)) { v.nontrivial = false; return v; }
    Bytes d = encodeSong(song); auto be = [&](size_t o) { return o + 4 <= d.size() ? (size_t)d[o] << 24 | (size_t)d[o + 1] << 16 | (size_t)d[o + 2] << 8 | d[o + 3] : 0; };
    size_t at = 8 + be(4), last = 0, end = 0; while (at + 8 <= d.size()) { size_t len = be(at + 4); if (!memcmp(&d[at], "MTrk", 4)) { last = at; end = at + 8 + len; } at += 8 + len; }
    if (!last || end > d.size() || end < last + 12) { v.nontrivial = false; return v; }
    size_t off = last + 8 + (size_t)wrap(p.cfg("off"), (i64)(end - last - 8)), q = last + 8, keep = 0; int rs = 0; bool delta = false, partialMeta = false;
    auto vlq = [&](size_t &x) { size_t y = 0; while (x < end) { u8 b = d[x++]; y = y << 7 | (b & 127); if (!(b & 128)) break; } return y; };
    while (q < end) {
        size_t start = q; vlq(q); if (off < q || off <= start) { keep = start; delta = true; break; }
        size_t body = q; u8 b = d[q]; bool chan = b < 0xf0; if (b & 0x80) { q++; if (chan) rs = b; } else b = (u8)rs;
        if (chan) q += (b & 0xe0) == 0xc0 ? 1 : 2; else { if (b == 0xff) q++; size_t len = vlq(q); q += len; }
        if (off < q) { keep = body; partialMeta = !chan && off > body; break; }
    }
    if (!keep) { v.nontrivial = false; return v; }
    SimFile a, b; a.data.assign(d.begin(), d.begin() + (long)off); if (p.cfg("how")) a.sizeOverride = (i64)d.size();
    bool none = delta && keep == last + 8; stat("fault.truncated");
    b.data.assign(d.begin(), d.begin() + (long)keep); if (delta) b.data.push_back(0); for (int x : {0xff, 0x2f, 0}) b.data.push_back((u8)x); size_t len = b.data.size() - last - 8; for (int i = 0; i < 4; i++) b.data[last + 4 + (size_t)i] = (u8)(len >> (24 - 8 * i));
    struct R { vector<i64> res, state; vector<MetaEv> meta; Pcm pcm; };
    auto run = [&](SimFile &f, R &r) { Stage st; i64 res = 0; Str *s = st.file(&f, true, 48, &res); if (!s) return res; for (i64 k = 0; k < n; k++) { r.res.push_back(st.render()); r.state.push_back(st.state(s)); } r.meta = s->meta; r.pcm = st.pcm; return res; };
    R x, y; i64 rx = run(a, x);
    if (none) { if (rx == EAS_SUCCESS) v.fail("open", "a file that ends before the first event of a track is prepared"); v.traceHash = (u64)rx; return v; }
    i64 ry = run(b, y); if (ry != EAS_SUCCESS) { v.nontrivial = false; return v; }
    if (rx != EAS_SUCCESS) { v.fail("cut-open", fmt("opening a file that ends inside its last track returned %lld", (long long)rx)); return v; }
    if (partialMeta) { v.nontrivial = false; return v; }      // what a torn text, unknown event or system-exclusive message does is not specified
    for (i64 k = 0; k < n && !v.violated; k++) { size_t K = (size_t)k;
        if (x.res[K] != y.res[K]) v.fail("cut-result", fmt("slice %lld: rendering the truncated file returns %lld, the properly ended one %lld", (long long)k, (long long)x.res[K], (long long)y.res[K]));
        else if (x.state[K] != y.state[K]) v.fail("cut-state", fmt("slice %lld: the truncated file is in state %lld, the properly ended one in state %lld", (long long)k, (long long)x.state[K], (long long)y.state[K]));
        else if (memcmp(&x.pcm.l[K * SLICE], &y.pcm.l[K * SLICE], SLICE * sizeof(float)) || memcmp(&x.pcm.r[K * SLICE], &y.pcm.r[K * SLICE], SLICE * sizeof(float))) v.fail("cut-audio", fmt("slice %lld: the truncated file sounds unlike the one that is properly ended at the same place", (long long)k)); }
    for (size_t i = 0; i < std::max(x.meta.size(), y.meta.size()) && !v.violated; i++) if (i >= x.meta.size() || i >= y.meta.size() || x.meta[i].slice != y.meta[i].slice || x.meta[i].text != y.meta[i].text || x.meta[i].type != y.meta[i].type) v.fail("cut-events", fmt("text event %d of the truncated file differs from the properly ended one", (int)i));
    Hash h; for (auto &m : x.meta) { h.u((u64)m.slice); h.s(m.text); } for (i64 s : x.state) h.u((u64)s); v.traceHash = h.h; return v;
}
Verdict judge_M04(const Plan &p) {
    if (p.cfgs("mode") == "heal") return judgeHeal(p);
    if (p.cfgs("mode") == "cut") return judgeCut(p);
    Verdict v; u64 fired = 0; compare(p, std::min<i64>(p.cfg("slices", 100), 4000), v, &fired); if (fired) stat("fault.read", fired); if (!fired) v.nontrivial = false; return v;
}
