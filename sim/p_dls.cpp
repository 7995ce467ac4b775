// L01: a sound collection plays the regions, tuning, levels, loops and envelopes it says, whatever its byte layout.
#include "band.h"

namespace {
const int DST_GAIN = 1, DST_PITCH = 3, DST_PAN = 4, DST_ATTACK = 0x206, DST_DECAY = 0x207, DST_RELEASE = 0x209, DST_SUSTAIN = 0x20a, DST_DELAY = 0x20b, DST_HOLD = 0x20c;
const double MS = 1000.0 * SLICE / RATE;
i64 timecents(double ms) { return (i64)lround(1200 * log2(ms / 1000)) * 65536; }

// the articulation a region ends up with, in the units of the format
struct Art { double delay = 0, attack = 0, hold = 0, decay = 0, release = 0, sustain = 1, velAttack = 0, keyDecay = 0, keyHold = 0, pan = 0, tuning = 0, keyPitch = 12800; bool velGain = true; };
double ms(i64 scale) { double tc = (double)(scale >> 16); return tc <= -32768 ? 0 : 1000 * pow(2, tc / 1200); }
Art artOf(const vector<DlsConn> &c) {
    Art a;      // an articulation without any known connection is no articulation
    for (auto &x : c) {
        double s = (double)(x.scale >> 16);
        if (x.ctl) continue;
        if (x.src == 0) switch (x.dst) {
            case DST_DELAY: a.delay = ms(x.scale); break;
            case DST_ATTACK: a.attack = ms(x.scale); break;
            case DST_HOLD: a.hold = ms(x.scale); break;
            case DST_DECAY: a.decay = ms(x.scale); break;
            case DST_RELEASE: a.release = ms(x.scale); break;
            case DST_SUSTAIN: a.sustain = s / 1000; break;
            case DST_PAN: a.pan = s / 500; break;
            case DST_PITCH: a.tuning = s; break; }
        else if (x.src == 2 && x.dst == DST_ATTACK) a.velAttack = s;
        else if (x.src == 2 && x.dst == DST_GAIN) a.velGain = s != 0;
        else if (x.src == 3 && x.dst == DST_DECAY) a.keyDecay = s;
        else if (x.src == 3 && x.dst == DST_HOLD) a.keyHold = s;
        else if (x.src == 3 && x.dst == DST_PITCH) a.keyPitch = s;
    }
    return a;
}
bool known(const vector<DlsConn> &c) {
    for (auto &x : c) { if (x.ctl) continue;
        if (x.src == 0 && (x.dst == DST_PITCH || x.dst == DST_PAN || x.dst == DST_ATTACK || x.dst == DST_DECAY || x.dst == DST_RELEASE || x.dst == DST_SUSTAIN || x.dst == DST_DELAY || x.dst == DST_HOLD)) return true;
        if (x.src == 2 && (x.dst == DST_ATTACK || x.dst == DST_GAIN)) return true;
        if (x.src == 3 && (x.dst == DST_DECAY || x.dst == DST_HOLD || x.dst == DST_PITCH)) return true; }
    return false;
}
// what is left of a stretch of sound after the best fitting sine of one frequency is taken away
double residual(const vector<float> &v, size_t a, size_t n, double f) {
    double cc = 0, ss = 0, cs = 0, vc = 0, vs = 0, vv = 0;
    for (size_t i = 0; i < n; i++) { double c = cos(2 * M_PI * f * (double)i), s = sin(2 * M_PI * f * (double)i), x = v[a + i]; cc += c * c; ss += s * s; cs += c * s; vc += x * c; vs += x * s; vv += x * x; }
    double d = cc * ss - cs * cs, A = (vc * ss - vs * cs) / d, B = (vs * cc - vc * cs) / d;
    return sqrt(std::max(0.0, vv - A * vc - B * vs) / (double)n);
}
struct Sound {      // what one region makes of one note
    double freq = 0, amp = 0, pan = 0, lenMs = 0; Art art; int key = 0, vel = 0; bool looped = false;
    // level of the envelope at time t after the note began, the key being released at `off`
    double env(double t, double off, double shift) const {      // shift: how much earlier the envelope runs
        double x = t < off ? held(t + shift) : 0;
        if (t < off) return x;
        double start = 20 * log10(std::max(1e-9, held(off + shift)));
        if (art.release <= 0) return 0;
        return pow(10, (start - 96.0 * (t - off) / art.release) / 20);
    }
    double held(double t) const {
        if (t < 0) return 0;
        double at = art.attack > 0 ? art.attack * pow(2, art.velAttack * vel / 128 / 1200) : 0, ho = art.hold > 0 ? art.hold * pow(2, art.keyHold * key / 128 / 1200) : 0, de = art.decay > 0 ? art.decay * pow(2, art.keyDecay * key / 128 / 1200) : 0;
        if ((t -= art.delay) < 0) return 0;
        if (t < at) return t / at;
        t -= at; if (t < ho) return 1;
        t -= ho; double db = -96 * (1 - art.sustain); if (de > 0) db = std::max(db, -96 * t / de); else db = 0;
        return pow(10, db / 20);
    }
};
double waveFreq(const Plan &p, int fid, int wave, double *amp, i64 *samples) {      // cycles per sample, amplitude and length of a generated wave
    for (auto &l : p.lines) if (l.t[0] == "W" && l.num(1) == fid && l.num(2) == wave && l.tok(5) == "sine") { *samples = l.num(6); *amp = (double)l.num(8); return l.num(6) > 0 ? l.num(7) / 1000.0 / (double)l.num(6) : 0; }
    return 0;
}
Sound soundOf(const Plan &p, int fid, const DlsIns &in, const DlsRgn &g, const Dls &d, int waveId, int key, int vel) {
    Sound s; double amp = 0; i64 n = 0; double cps = waveFreq(p, fid, waveId, &amp, &n);
    const DlsWave &w = d.wave[(size_t)g.wave];
    int unity = 60, fine = 0; i64 gain = 0, ls = -1, ll = 0;
    if (w.wsmp) { unity = w.unity; fine = w.fine; gain = w.gain; ls = w.loopStart; ll = w.loopLen; }
    if (g.wsmp) { unity = g.unity; fine = g.fine; gain = g.gain; ls = g.loopStart; ll = g.loopLen; }
    s.art = artOf(known(g.art) ? g.art : in.art); s.key = key; s.vel = vel; s.looped = ls >= 0 && ll > 0;
    double cents = s.art.tuning + fine - unity * 100 + s.art.keyPitch * key / 128;
    double ratio = pow(2, cents / 1200) * w.rate / RATE;
    s.freq = cps * ratio * RATE; s.pan = s.art.pan; s.lenMs = (double)n / ratio / (RATE / 1000.0);
    double v = s.art.velGain ? vel / 128.0 * vel / 128.0 : 1;
    s.amp = amp * v * pow(10, std::min<i64>(0, gain) / 655360.0 / 20);
    return s;
}
}

// ---------------------------------------------------------------- generator
static void genArt(Rng &r, Plan &p, int fid, int ins, int rgn, bool env) {
    auto A = [&](int src, int dst, i64 scale) { p.add("A %d %d %d %d 0 %d %lld", fid, ins, rgn, src, dst, (long long)scale); };
    if (r.chance(0.4)) A(0, DST_PAN, r.range(-500, 500) * 65536);
    if (r.chance(0.3)) A(0, DST_PITCH, r.range(-600, 600) * 65536);
    if (r.chance(0.15)) A(2, DST_GAIN, r.chance(0.5) ? 0 : 960 * 65536);
    if (r.chance(0.1)) A(3, DST_PITCH, r.pick({12800, 6400, 0, 12800}) * 65536);
    if (r.chance(0.2)) A((int)r.pick({7, 0x99, 0, 5}), (int)r.pick({0x700, 0x99, 9}), r.range(-100000, 100000) * 1000);      // connections nobody knows
    if (!env) return;
    if (r.chance(0.3)) A(0, DST_DELAY, timecents((double)r.range(20, 150)));
    if (r.chance(0.5)) { A(0, DST_ATTACK, timecents((double)r.range(20, 400))); if (r.chance(0.4)) A(2, DST_ATTACK, r.range(-1500, 600) * 65536); }
    if (r.chance(0.4)) { A(0, DST_HOLD, timecents((double)r.range(20, 150))); if (r.chance(0.4)) A(3, DST_HOLD, r.range(-1500, 600) * 65536); }
    if (r.chance(0.5)) { A(0, DST_DECAY, timecents((double)r.range(100, 2000))); A(0, DST_SUSTAIN, r.pick({1000, 900, 750, 600, 0, r.range(300, 1000)}) * 65536); if (r.chance(0.4)) A(3, DST_DECAY, r.range(-1500, 600) * 65536); }
    if (r.chance(0.6)) A(0, DST_RELEASE, timecents((double)r.range(30, 1200)));
}
static void genCollection(Rng &r, Plan &p, int fid, bool env, bool big) {      // big: collections like the ones sold, long waves and many of everything
    p.add("D %d %d", fid, (int)r.pick({0, 0, 3, 50}));
    bool longW = big && r.chance(0.6); int nw = (int)r.range(1, big && r.chance(0.5) ? 60 : 6); if (longW) nw = std::min(nw, 8);
    for (int i = 0; i < nw; i++) {
        int cyc = (int)r.range(1, 12), spc = (int)r.range(18, 48), L = cyc * spc, n, rate = (int)r.pick({44100, 44100, 22050, 32000, 48000, 16000}); i64 ls = -1, ll = 0; int bits = r.chance(0.15) ? 8 : 16;
        int loop = r.weighted({35, 45, 20}); bool lw = longW && r.chance(0.6); if (lw && r.chance(0.5)) { cyc = (int)r.range(500, 2500); L = cyc * spc; }
        if (loop == 0) { n = L; ls = 0; ll = L; }
        else if (loop == 1) { ls = r.range(0, lw ? 40000 : 900); ll = L; n = (int)(ls + ll + r.pick({0, 0, r.range(0, 400)})); }
        else n = (int)r.range(400, lw ? 90000 : 9000);
        p.add("W %d %d %d %d sine %d %lld %lld %lld %lld %d %d %lld", fid, i, rate, bits, n, (long long)llround(1000.0 * n / spc), (long long)r.range(bits == 8 ? 12000 : 6000, 20000), (long long)ls, (long long)ll, (int)r.range(48, 72), (int)r.range(-50, 50), (long long)(r.chance(0.7) ? 0 : -r.range(0, 240) * 65536));
    }
    int ni = (int)r.range(1, big && r.chance(0.5) ? 60 : 5); set<string> used;
    for (int i = 0; i < ni; i++) {
        bool drum = r.chance(0.2); int msb = drum ? 0 : (int)r.pick({0, 0, 1, 3, 121}), lsb = drum ? 0 : (int)r.pick({0, 0, 2, 5}), prog = (int)(drum ? r.pick({0, 8, 25}) : r.range(0, 127));
        if (!used.insert(fmt("%d %d %d %d", msb, lsb, prog, drum)).second) continue;
        p.add("I %d %d %d %d %d %d", fid, i, msb, lsb, prog, drum);
        if (r.chance(0.4)) genArt(r, p, fid, i, -1, env);
        bool fine = big && r.chance(0.4); int ng = (int)r.range(1, fine ? 40 : 4), lo = (int)r.range(0, 50), g = 0; bool byVel = !fine && r.chance(0.3);
        for (; g < ng && lo <= 127; g++) {
            int hi = byVel ? 127 : std::min<int>(127, lo + (int)r.range(fine ? 0 : 3, fine ? 3 : 40)), vlo = 0, vhi = 127; if (byVel) { vlo = g * 128 / ng; vhi = (g + 1) * 128 / ng - 1; if (r.chance(0.1)) vhi = std::min(127, vhi + 10); }
            int w = (int)r.range(0, nw - 1), unity = std::max(0, std::min(127, (byVel ? 60 : (lo + hi) / 2) + (int)r.range(-9, 9)));
            string own; const Line *wl = nullptr; for (auto &l : p.lines) if (l.t[0] == "W" && l.num(1) == fid && l.num(2) == w) wl = &l;
            if (r.chance(0.7)) {
                i64 n = wl->num(6), ls = wl->num(9), ll = wl->num(10); double spc = (double)n / (wl->num(7) / 1000.0);
                if (r.chance(0.3)) { int m = (int)r.range(1, 8); ll = llround(m * spc); ls = r.range(0, std::max<i64>(0, n - ll)); if (r.chance(0.3)) ls = n - ll; if (ls < 0 || ll > n) { ls = -1; ll = 0; } }
                else if (r.chance(0.15)) { ls = -1; ll = 0; }
                own = fmt(" %d %d %lld %lld %lld", unity, (int)r.range(-50, 50), (long long)(r.chance(0.6) ? 0 : -r.range(0, 240) * 65536), (long long)ls, (long long)ll);
            }
            p.add("G %d %d %d %d %d %d 0 %d %d%s", fid, i, lo, hi, vlo, vhi, (int)(r.chance(0.15) ? r.range(1, 15) : 0), w, own.c_str());
            if (r.chance(0.35)) genArt(r, p, fid, i, g, env);
            if (!byVel) lo = hi + 1 + (int)(r.chance(0.2) ? r.range(0, 6) : 0) - (int)(r.chance(0.08) ? 2 : 0);
        }
    }
}
void gen_L01(Rng &r, Plan &p, bool thorough) {
    bool env = r.chance(0.6), big = r.chance(0.06); genCollection(r, p, 9, env, big);
    if (r.chance(0.7)) p.add("Y 9 %d %lld", (int)(r.chance(0.4) ? 1 << r.range(0, 11) : r.range(0, 4095)), (long long)r.range(1, 1000000));
    for (auto &l : p.lines) if (l.t[0] == "I" && r.chance(0.12)) l.t.push_back(fmt("%d", (int)r.range(0, 3)));
    vector<const Line *> rg; vector<int> ins; for (auto &l : p.lines) { if (l.t[0] == "G") rg.push_back(&l); if (l.t[0] == "I") ins.push_back((int)l.num(2)); }
    vector<string> notes; int n = (int)r.range(2, thorough ? 24 : 8);
    for (int i = 0; i < n; i++) {
        if (r.chance(0.12)) { notes.push_back(fmt("u %d %d %d %d %d %d %lld", (int)r.pick({0, 0, 1, 3, 121}), (int)r.pick({0, 0, 2}), (int)r.range(0, 127), (int)r.chance(0.25), (int)r.range(20, 100), (int)r.range(1, 127), (long long)r.range(2, 30))); continue; }
        const Line *g = rg[(size_t)r.range(0, (i64)rg.size() - 1)]; int ii = (int)g->num(2), key = (int)r.range(g->num(3), g->num(4)), vel = (int)r.range(std::max<i64>(1, g->num(5)), std::max<i64>(1, g->num(6)));
        if (r.chance(0.5)) { int u = (int)g->num(10, 60); key = (int)std::max(g->num(3), std::min(g->num(4), (i64)u + r.range(-12, 12))); }
        if (r.chance(0.3)) key = (int)(r.chance(0.5) ? g->num(3) : g->num(4));
        if (r.chance(0.06)) key = (int)r.range(0, 127);
        if (r.chance(0.5)) vel = std::max(vel, 90);
        notes.push_back(fmt("n %d %d %d %lld %lld", ii, key, vel, (long long)(big && r.chance(0.5) ? r.range(160, 500) : r.pick({r.range(12, 40), r.range(12, 160), 60})), (long long)r.range(8, 60)));
    }
    for (auto &s : notes) p.add("%s", s.c_str());
    if (r.chance(0.3)) p.add("cfg pan %d", (int)r.pick({0, 127, 64, r.range(0, 127)}));
}

// ---------------------------------------------------------------- judge
// which instrument of the collection a program selects: exact bank first, then the default bank and bank 0
static bool defines(const Dls &d, int msb, int lsb, int prog, bool drum) { (void)msb; (void)lsb; for (auto &i : d.ins) if (i.drum == drum && (i.prog == prog || (drum && i.prog == 0)) && !i.rgn.empty()) return true; return false; }
static void selectProgram(Band &b, int ch, int msb, int lsb, int prog) { b.cc(0, ch, 0, msb); b.cc(0, ch, 32, lsb); b.prog(0, ch, prog); }

Verdict judge_L01(const Plan &p) {
    Verdict v; const int fid = 9; Dls d, plainD; if (!dlsFromPlan(p, fid, d) || d.ins.empty() || d.wave.empty()) { v.nontrivial = false; return v; }
    for (auto &in : d.ins) for (auto &g : in.rgn) if (g.wave < 0 || g.wave >= (int)d.wave.size()) { v.nontrivial = false; return v; }      // left over from minimisation
    { set<int> ids, ins; for (auto &l : p.lines) if (l.t[0] == "W" && l.num(1) == fid) ids.insert((int)l.num(2)); else if (l.t[0] == "I" && l.num(1) == fid) ins.insert((int)l.num(2)); bool ok = true; for (auto &l : p.lines) if (l.t[0] == "G" && l.num(1) == fid && (!ids.count((int)l.num(9)) || !ins.count((int)l.num(2)))) ok = false; if (!ok) { v.nontrivial = false; return v; } }
    for (auto &w : d.wave) if (w.data.empty()) { v.nontrivial = false; return v; }
    for (auto &in : d.ins) if (in.hdrRegions >= 0 && in.hdrRegions < (int)in.rgn.size()) in.rgn.resize((size_t)in.hdrRegions);      // the header's count is binding
    bool any = false; for (auto &in : d.ins) any = any || !in.rgn.empty(); if (!any) { v.nontrivial = false; return v; }
    map<int, int> waveId; { int i = 0; set<int> ids; for (auto &l : p.lines) if (l.t[0] == "W" && l.num(1) == fid) ids.insert((int)l.num(2)); for (int id : ids) waveId[i++] = id; }
    map<int, size_t> insIdx; { set<int> ids; for (auto &l : p.lines) if (l.t[0] == "I" && l.num(1) == fid) ids.insert((int)l.num(2)); size_t i = 0; for (int id : ids) insIdx[id] = i++; }
    // level of a full-scale note: measured once on the simplest collection there is
    const double REF = 8000; double full, centre;
    { Plan q; q.add("D 9 0"); q.add("W 9 0 44100 16 sine 256 8000 8000 0 256 60 0 0"); q.add("I 9 0 0 0 0 0"); q.add("G 9 0 0 127 0 127 0 0 0"); Band ref(q, 1); if (!ref.ok) { v.fail("open", "the simplest collection does not load"); return v; }
      selectProgram(ref, 0, 0, 0, 0); ref.note(0, 0, 60, 127); ref.st.render(6); full = rms(ref.st.pcm.l, 2 * SLICE, 4 * SLICE) * M_SQRT2 / REF / (127.0 * 127 / 128 / 128); centre = full; }
    Plan plain = cloneWithout(p, [](const Line &l) { return l.t[0] == "Y"; }); bool layout = plain.lines.size() != p.lines.size();
    Plan none; Band b(p, 1, fid); std::unique_ptr<Band> builtin(new Band(none, 1, fid, false)), canon; if (layout) canon.reset(new Band(plain, 1, fid, false));
    if (!b.ok) { v.fail("refused", "a well-formed collection is refused"); return v; }
    if (layout && !canon->ok) { v.fail("refused", "a well-formed collection in its simplest layout is refused"); return v; }
    Hash hh; int checked = 0, notes = 0, panCtl = wrap(p.cfg("pan", 64), 128);
    if (panCtl != 64) for (Band *x : {&b, builtin.get(), canon.get()}) if (x) for (int ch : {1, 2, 9}) x->cc(0, ch, 10, panCtl);
    for (auto &l : p.lines) {
        if (v.violated) break;
        if (l.t[0] == "u") {       // a program the collection does not define: the built-in sound, bit by bit
            int msb = l.num(4) ? 0 : wrap(l.num(1), 128), lsb = wrap(l.num(2), 128), prog = wrap(l.num(3), 128), ch = l.num(4) ? 9 : 2; i64 hold = std::min<i64>(200, std::max<i64>(1, l.num(7)));
            if (defines(d, msb, lsb, prog, ch == 9)) continue;
            size_t from = b.st.pcm.n(), bf = builtin->st.pcm.n();
            for (Band *x : {&b, builtin.get()}) { selectProgram(*x, ch, msb, lsb, prog); x->note(0, ch, (int)l.num(5) & 127, std::max<int>(1, (int)l.num(6) & 127)); x->st.render(hold); x->off(0, ch, (int)l.num(5) & 127); x->st.render(6); x->cc(0, ch, 120, 0); x->st.render(16); }
            if (layout) canon->st.render(hold + 22);
            for (size_t i = 0; from + i < b.st.pcm.n(); i++) if (b.st.pcm.l[from + i] != builtin->st.pcm.l[bf + i] || b.st.pcm.r[from + i] != builtin->st.pcm.r[bf + i]) { v.fail("builtin", fmt("program %d of bank %d/%d%s is not in the collection but does not sound like the built-in one", prog, msb, lsb, ch == 9 ? " (drums)" : "")); break; }
            if (layout) canon->st.render(0); notes++; continue; }
        if (l.t[0] != "n" || !insIdx.count((int)l.num(1))) continue;
        const DlsIns &in = d.ins[insIdx[(int)l.num(1)]]; int key = (int)l.num(2) & 127, vel = std::max<int>(1, (int)l.num(3) & 127), ch = in.drum ? 9 : 1; i64 hold = std::min<i64>(900, std::max<i64>(4, l.num(4))), tail = std::min<i64>(400, std::max<i64>(4, l.num(5)));
        if (in.rgn.empty()) continue;
        size_t from = b.st.pcm.n(), k0 = (size_t)b.st.slice;
        for (Band *x : {&b, canon.get()}) { if (!x) continue; selectProgram(*x, ch, in.bankMsb, in.bankLsb, in.prog); x->note(0, ch, key, vel); x->st.render(hold); x->off(0, ch, key); x->st.render(tail); x->cc(0, ch, 120, 0); x->st.render(16); }
        builtin->st.render(0); notes++;
        if (layout) for (i64 k = (i64)k0; k < b.st.slice; k++) if (canon->st.sliceHash[canon->st.sliceHash.size() - (size_t)(b.st.slice - k)] != b.st.sliceHash[(size_t)k]) { v.fail("layout", fmt("instrument %lld key %d: slice %lld of the note sounds different in another layout of the same collection", (long long)l.num(1), key, (long long)(k - (i64)k0))); break; }
        if (v.violated) break;
        hh.u(fastHash(b.st.pcm.l.data() + from, (b.st.pcm.n() - from) * 4));
        auto where = [&] { return fmt("instrument %lld key %d velocity %d", (long long)l.num(1), key, vel); };
        const vector<float> &L = b.st.pcm.l, &R = b.st.pcm.r;
        if (!b.st.silent(b.st.slice - 2, 2)) v.fail("stuck", where() + " still sounds after all sound off");
        vector<Sound> s; bool sameGroup = false; set<int> groups; for (auto &g : in.rgn) if (key >= g.keyLo && key <= g.keyHi && vel >= g.velLo && vel <= g.velHi) { if (g.group && !groups.insert(g.group).second) sameGroup = true; s.push_back(soundOf(p, fid, in, g, d, waveId[g.wave], key, vel)); }
        if (s.empty()) { for (size_t i = from; i < L.size() && !v.violated; i++) if (L[i] || R[i]) v.fail("region", where() + ": no region contains the note, but it sounds"); checked++; continue; }
        bool measurable = true; double top = 0; for (auto &x : s) { top += x.amp * full; if (x.freq < 180 || x.freq > 6000) measurable = false; }
        if (!measurable || s.size() > 1) {      // layers and extreme pitches: only that each is heard; a channel plays no more than two voices of one key
            if (s.size() == 2 && !sameGroup) for (auto &x : s) if (measurable && x.looped && x.art.attack + x.art.delay + 8 * MS < hold * MS && x.held(hold * MS) > 0.5 && x.amp * full > 40) {
                bool apart = true; for (auto &y : s) if (&y != &x && (fabs(y.freq - x.freq) < 90 || y.amp / (M_PI * fabs(y.freq - x.freq) * 6 * MS / 1000) > 0.2 * x.amp)) apart = false;
                if (!apart) continue;
                size_t a = from + (size_t)(hold - 6) * SLICE; double al = goertzel(L, a, 6 * SLICE, x.freq / RATE), ar = goertzel(R, a, 6 * SLICE, x.freq / RATE), want = x.amp * full * M_SQRT2 * x.held((hold - 3) * MS);
                if (hypot(al, ar) < 0.6 * want) v.fail("layer", fmt("%s: the layer at %.1f Hz sounds at %.0f instead of %.0f", where().c_str(), x.freq, hypot(al, ar), want)); checked++; }
            continue; }
        Sound &x = s[0]; double A = x.amp * full; if (A < 60) continue;
        x.pan = std::max(-1.0, std::min(1.0, x.pan + (panCtl - 64) / 63.0));      // the channel's balance shifts the region's, up to hard left or right
        double ends = x.looped ? 1e9 : x.lenMs; (void)centre;
        // envelope, slice by slice: within what the envelope says four slices earlier to four later
        double left = cos(M_PI / 4 + x.pan * M_PI / 4) * M_SQRT2, right = sin(M_PI / 4 + x.pan * M_PI / 4) * M_SQRT2;
        for (i64 k = 0; k < hold + tail && !v.violated && x.freq > 350; k++) {
            double t = (double)k * MS, lo = 1e9, hi = 0; for (int i = -5; i <= 5; i++) for (int s = -12; s <= 12; s++) { double e = x.env(t + MS / 2 + i * MS / 2, hold * MS, s * MS / 3); lo = std::min(lo, e); hi = std::max(hi, e); }
            if (t + 3 * MS > ends) lo = 0;
            if (t - 3 * MS > ends) hi = 0;
            double l2 = rms(L, from + (size_t)k * SLICE, SLICE), r2 = rms(R, from + (size_t)k * SLICE, SLICE), got = hypot(l2, r2) / A;
            if (got > hi * 1.12 + (8 + 0.01 * A) / A || got < lo * 0.88 - (8 + 0.01 * A) / A) v.fail("level", fmt("%s: %.0f ms after its start it sounds at %.3f, but between %.3f and %.3f is what the collection says", where().c_str(), t, got, lo, hi));
        }
        if (v.violated) break;
        // pitch, purity and balance where the envelope is flat
        i64 a = -1, z = -1; double e0 = 1; for (i64 k = 3; k < hold - 1; k++) { double e = x.held((double)k * MS); bool flat = e > 0.05 && x.held((double)(k + 3) * MS) < 1.15 * e && x.held((double)(k + 3) * MS) > 0.87 * e && x.held((double)(k - 3) * MS) > 0.87 * e && x.held((double)(k - 3) * MS) < 1.15 * e && (a < 0 || fabs(e / e0 - 1) < 0.4) && (double)(k + 2) * MS < ends && e * A > 50; if (flat) { if (a < 0) { a = k; e0 = e; } z = k + 1; } else if (a >= 0) break; }
        if (a < 0 || z - a < 4) continue;
        size_t i0 = from + (size_t)a * SLICE, n = (size_t)(z - a) * SLICE; const vector<float> &C = x.pan <= 0 ? L : R;
        double f = toneFreq(C, i0, n), per = RATE / x.freq, tol = 0.004 * x.freq + 0.15 * x.freq * per / (double)n;
        if (fabs(f - x.freq) > tol) v.fail("pitch", fmt("%s sounds at %.1f Hz instead of %.1f Hz", where().c_str(), f, x.freq));
        double lm = rms(L, i0, n), rm = rms(R, i0, n), sum = hypot(lm, rm); if (sum > 0 && (fabs(lm / sum * M_SQRT2 - left) > 0.12 || fabs(rm / sum * M_SQRT2 - right) > 0.12)) v.fail("pan", fmt("%s: left %.2f right %.2f instead of %.2f and %.2f", where().c_str(), lm / sum * M_SQRT2, rm / sum * M_SQRT2, left, right));
        // purity: what is left besides the tone, over the flattest stretch
        if (x.art.attack <= 0 && x.art.decay <= 0 && x.looped && z - a >= 8) for (size_t part = 0, parts = (n + 160 * SLICE - 1) / (160 * SLICE); part < parts && !v.violated; part++) {
            size_t m = n / parts, j0 = i0 + part * m; f = toneFreq(C, j0, m); double w = 0.3 / (double)m, f0 = f / RATE, rest = residual(C, j0, m, f0), all = rms(C, j0, m);
            for (int i = 0; i < 9; i++, w /= 2) { double u = residual(C, j0, m, f0 + w), d2 = residual(C, j0, m, f0 - w); if (u < rest && u <= d2) { f0 += w; rest = u; } else if (d2 < rest) { f0 -= w; rest = d2; } }
            if (rest > 0.02 * all + 4) v.fail("loop", fmt("%s: %.1f %% of the sound is not the tone of its wave", where().c_str(), 100 * rest / all)); }
        checked++;
    }
    stat("sim.notes", (u64)notes); stat("sim.notes_measured", (u64)checked); v.traceHash = hh.h; v.nontrivial = checked > 0; return v;
}
