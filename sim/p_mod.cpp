// L04 the modulators of a loaded collection: both oscillators, the modulation envelope and the filter move pitch, level and brightness as written.
#include "band.h"

namespace {
const double MS = 1000.0 * SLICE / RATE;
i64 timecents(double ms) { return (i64)lround(1200 * log2(ms / 1000)) * 65536; }
i64 hertzCents(double hz) { return (i64)lround(6900 + 1200 * log2(hz / 440)) * 65536; }
struct Mods {       // a collection's modulators, in the units of the format
    double lfoHz[2] = {5, 5}, lfoDelay[2] = {10, 10};                      // 0: modulation, 1: vibrato
    double pitch[2][3] = {{0}}, gain[3] = {0}, cut[3] = {0};               // depth alone, per full wheel, per full pressure
    double delay = 0, attack = 0, hold = 0, decay = 0, sustain = 1, release = 0, velAttack = 0, keyDecay = 0, keyHold = 0, egPitch = 0, egCut = 0;
    double fc = -1, q = 0, velFc = 0, keyFc = 0, tuning = 0, volRelease = 0, regionGain = 0;
};
double ms(i64 scale) { double tc = (double)(scale >> 16); return tc <= -32768 ? 0 : 1000 * pow(2, tc / 1200); }
double hz(i64 scale) { return 440 * pow(2, ((double)(scale >> 16) - 6900) / 1200); }
bool modsOf(const vector<DlsConn> &c, Mods &m) {
    for (auto &x : c) { double s = (double)(x.scale >> 16); int k = x.ctl == 0 ? 0 : x.ctl == 0x81 ? 1 : x.ctl == 8 ? 2 : -1; if (k < 0) return false;
        if ((x.src == 1 || x.src == 9) && x.dst == 3) m.pitch[x.src == 9][k] = s;
        else if (x.src == 1 && x.dst == 1) m.gain[k] = s / 10;
        else if (x.src == 1 && x.dst == 0x500) m.cut[k] = s;
        else if (k) return false;
        else if (x.src == 0) switch (x.dst) {
            case 0x104: m.lfoHz[0] = hz(x.scale); break; case 0x105: m.lfoDelay[0] = ms(x.scale); break; case 0x114: m.lfoHz[1] = hz(x.scale); break; case 0x115: m.lfoDelay[1] = ms(x.scale); break;
            case 0x30a: m.attack = ms(x.scale); break; case 0x30b: m.decay = ms(x.scale); break; case 0x30d: m.release = ms(x.scale); break; case 0x30e: m.sustain = s / 1000; break; case 0x30f: m.delay = ms(x.scale); break; case 0x310: m.hold = ms(x.scale); break;
            case 0x500: m.fc = s; break; case 0x501: m.q = s / 10; break; case 3: m.tuning = s; break; case 0x209: m.volRelease = ms(x.scale); break; default: return false; }
        else if (x.src == 2 && x.dst == 0x30a) m.velAttack = s; else if (x.src == 3 && x.dst == 0x30b) m.keyDecay = s; else if (x.src == 3 && x.dst == 0x310) m.keyHold = s;
        else if (x.src == 5 && x.dst == 3) m.egPitch = s; else if (x.src == 5 && x.dst == 0x500) m.egCut = s;
        else if (x.src == 2 && x.dst == 0x500) m.velFc = s; else if (x.src == 3 && x.dst == 0x500) m.keyFc = s; else return false; }
    return true;
}
double tri(double p) { p -= floor(p); return p < 0.25 ? 4 * p : p < 0.75 ? 2 - 4 * p : 4 * p - 4; }
struct Model {
    Mods m; int key = 60, vel = 100; double off = 0, lag = 1; /* waits come out up to a fifteenth longer */ vector<std::array<double, 2>> ctl;     // wheel and pressure per slice
    double eg2(double t) const { return t < off ? held(t) : m.release > 0 ? std::max(0.0, held(off) - (t - off) / m.release) : 0; }
    double held(double t) const {
        double at = m.attack > 0 ? m.attack * pow(2, m.velAttack * vel / 128 / 1200) : 0, ho = m.hold > 0 ? m.hold * pow(2, m.keyHold * key / 128 / 1200) : 0, de = m.decay > 0 ? m.decay * pow(2, m.keyDecay * key / 128 / 1200) : 0;
        if ((t -= m.delay * lag) < 0) return 0; if (t < at) return t / at; t -= at; if (t < ho * lag) return 1; t -= ho * lag; return de > 0 ? std::max(m.sustain, 1 - t / de) : 1; }
    double lfo(int i, double t, double rate) const { t -= m.lfoDelay[i] * lag; return t < 0 ? 0 : tri(t * rate * m.lfoHz[i] / 1000); }
    double depth(const double *d, double t) const { size_t k = (size_t)std::max(0.0, std::min((double)ctl.size() - 1, floor(t / MS))); return d[0] + d[1] * ctl[k][0] / 128 + d[2] * ctl[k][1] / 128; }
    double cents(int part, double t, double rate) const { return part == 0 ? depth(m.pitch[0], t) * lfo(0, t, rate) : part == 1 ? depth(m.pitch[1], t) * lfo(1, t, rate) : m.egPitch * eg2(t); }
    double db(double t, double rate) const { return std::min(0.0, m.regionGain + depth(m.gain, t) * lfo(0, t, rate)); }
    double cutoff(int part, double t, double rate) const { return part == 0 ? depth(m.cut, t) * lfo(0, t, rate) : m.egCut * eg2(t); }
    double cutoffHz(double cents) const { cents += m.fc + m.velFc * vel / 128 + m.keyFc * key / 128; return 440 * pow(2, (std::max(5389.0 - (RATE < 40000 ? 1200 : 0), std::min(11775.0 - (RATE < 40000 ? 1200 : 0), cents)) - 6900) / 1200); }
};
// what the filter may do to a tone at r times its cutoff frequency, in decibels
void filterRange(double r, double fc, double q, double &lo, double &hi) {
    lo = -45; hi = 14; double nyq = RATE / 44100.0; bool plain = fc > 250 * nyq && fc < 2500 * nyq;
    if (plain && r < 0.35) { lo = -q / 2 - 1.6; hi = -q / 2 + 1.6; }
    else if (plain && r < 0.8 && q == 0) { lo = -1.4; hi = 1.6; }
    else if (fc >= 2500 * nyq && r < 0.8 && q == 0) { lo = -5.2; hi = 1.6; }
    else if (fc > 250 * nyq && r > 1.7) { hi = r > 2.5 && fc > 600 * nyq ? -12.5 : -6.0; }
}
}

void gen_L04(Rng &r, Plan &p, bool thorough) {
    int cyc = (int)r.range(2, 10), spc = (int)r.range(20, 60), L = cyc * spc; p.add("D 9 0");
    i64 gain = r.chance(0.3) ? -r.range(0, 120) : 0; p.add("W 9 0 44100 16 sine %d %d 16000 0 %d 60 0 %lld", L, cyc * 1000, L, (long long)gain * 65536);
    p.add("I 9 0 0 0 0 0"); p.add("G 9 0 0 127 0 127 0 0 0");
    auto A = [&](int src, int ctl, int dst, i64 scale) { p.add("A 9 0 -1 %d %d %d %lld", src, ctl, dst, (long long)scale); };
    A(0, 0, 0x209, timecents((double)r.range(800, 3000)));
    bool mod = r.chance(0.6), vib = r.chance(0.5), eg = r.chance(0.5), filter = r.chance(0.4); if (!mod && !vib && !eg && !filter) mod = true;
    static const int CTL[3] = {0, 0x81, 8};
    if (mod) { if (r.chance(0.8)) A(0, 0, 0x104, hertzCents((double)r.range(6, 120) / 10)); if (r.chance(0.6)) A(0, 0, 0x105, timecents((double)r.range(15, 500)));
        for (int k = 0; k < 3; k++) { if (r.chance(0.5)) A(1, CTL[k], 3, r.range(-300, 300) * 65536); if (r.chance(0.4)) A(1, CTL[k], 1, r.range(-100, 100) * 65536); if (filter && r.chance(0.4)) A(1, CTL[k], 0x500, r.range(-1500, 1500) * 65536); } }
    if (vib) { if (r.chance(0.8)) A(0, 0, 0x114, hertzCents((double)r.range(6, 120) / 10)); if (r.chance(0.6)) A(0, 0, 0x115, timecents((double)r.range(15, 500))); for (int k = 0; k < 3; k++) if (r.chance(0.6)) A(9, CTL[k], 3, r.range(-300, 300) * 65536); }
    if (eg) { if (r.chance(0.3)) A(0, 0, 0x30f, timecents((double)r.range(20, 300))); if (r.chance(0.6)) { A(0, 0, 0x30a, timecents((double)r.range(50, 700))); if (r.chance(0.3)) A(2, 0, 0x30a, r.range(-1500, 600) * 65536); } if (r.chance(0.4)) { A(0, 0, 0x310, timecents((double)r.range(20, 300))); if (r.chance(0.3)) A(3, 0, 0x310, r.range(-1500, 600) * 65536); }
        if (r.chance(0.6)) { A(0, 0, 0x30b, timecents((double)r.range(100, 1500))); A(0, 0, 0x30e, r.range(0, 1000) * 65536); if (r.chance(0.3)) A(3, 0, 0x30b, r.range(-1500, 600) * 65536); } if (r.chance(0.7)) A(0, 0, 0x30d, timecents((double)r.range(50, 1500)));
        if (!filter || r.chance(0.5)) A(5, 0, 3, r.range(-800, 800) * 65536); if (filter) A(5, 0, 0x500, r.range(-3000, 3000) * 65536); }
    if (filter) { A(0, 0, 0x500, r.range(6300, 11000) * 65536); if (r.chance(0.3)) A(0, 0, 0x501, r.range(0, 200) * 65536); if (r.chance(0.4)) A(2, 0, 0x500, r.range(-3000, 3000) * 65536); if (r.chance(0.4)) A(3, 0, 0x500, r.range(-3000, 3000) * 65536); }
    if (r.chance(0.2)) A(0, 0, 3, r.range(-200, 200) * 65536);
    i64 hold = r.range(40, thorough ? 700 : 300), n = hold + r.range(10, 120); p.add("cfg key %lld", (long long)r.range(50, 72)); p.add("cfg vel %lld", (long long)r.range(70, 127)); p.add("cfg hold %lld", (long long)hold); p.add("cfg slices %lld", (long long)n); p.add("cfg chan %lld", (long long)r.range(0, 8));
    bool early = r.chance(0.5); for (int i = 0, e = (int)r.range(0, 6); i < e; i++) p.add("a %lld %s %d", (long long)(early && i < 2 ? 0 : r.range(0, n)), r.chance(0.5) ? "wheel" : "press", (int)r.pick({0, 127, r.range(0, 127)}));
    if (r.chance(0.2)) p.add("a %lld reset 0", (long long)r.range(0, n));
}

Verdict judge_L04(const Plan &p) {
    Verdict v; v.nontrivial = false; Dls d; if (!dlsFromPlan(p, 9, d) || d.ins.size() != 1 || d.wave.size() != 1 || d.ins[0].rgn.size() != 1 || d.ins[0].rgn[0].wave != 0 || d.wave[0].data.size() < 80) return v;
    Model M; if (!modsOf(d.ins[0].art, M.m) || M.m.volRelease <= 0) return v; M.m.regionGain = (double)(d.wave[0].gain >> 16) / 10;
    int ch = wrap(p.cfg("chan", 0), 9); M.key = wrap(p.cfg("key", 60), 128); M.vel = 1 + wrap(p.cfg("vel", 100) - 1, 127); i64 n = std::max<i64>(10, std::min<i64>(1200, p.cfg("slices", 100))), hold = std::max<i64>(4, std::min<i64>(n, p.cfg("hold", 60))); M.off = (double)hold * MS;
    auto acts1 = acts(p); double wheel = 0, press = 0; size_t ai = 0;
    Plan bare = cloneWithout(p, [](const Line &l) { return l.t[0] == "A" && !(l.num(4) == 0 && l.num(6) == 0x209); });
    Band b(p, 1), ref(bare, 1, 9, false); if (!b.ok || !ref.ok) { v.fail("refused", "a well-formed collection is refused"); return v; }
    for (Band *x : {&b, &ref}) { x->prog(0, ch, 0); x->cc(0, ch, 7, 127); }
    i64 lastCtl = -100; vector<char> near((size_t)n + 8, 0);
    for (i64 k = 0; k < n; k++) {
        for (; ai < acts1.size() && acts1[ai].at <= k; ai++) { auto &a = acts1[ai]; if (a.cmd() == "wheel") { wheel = wrap(a.num(1), 128); b.cc(0, ch, 1, (int)wheel); } else if (a.cmd() == "press") { press = wrap(a.num(1), 128); b.send(0, {0xd0 | ch, (int)press}); } else if (a.cmd() == "reset") { wheel = press = 0; b.cc(0, ch, 121, 0); b.cc(0, ch, 7, 127); } lastCtl = k; }
        M.ctl.push_back({wheel, press});
        for (Band *x : {&b, &ref}) { if (k == 0) x->note(0, ch, M.key, M.vel); if (k == hold) x->off(0, ch, M.key); x->st.render(); } }
    (void)lastCtl; const vector<float> &X = b.st.pcm.l, &Y = ref.st.pcm.l; size_t o = X.size() - (size_t)n * SLICE, oy = Y.size() - (size_t)n * SLICE;
    double f0 = toneFreq(Y, oy + 2 * SLICE, (size_t)(hold - 2) * SLICE); if (f0 < 250) return v; Hash hh; int judged = 0; int loudBad = 0, pitchBad = 0; i64 still = 0, leap = 0;
    double off2[] = {-2.5, -1.5, -0.5, 0, 0.5, 1.5, 2.5}, rates[] = {0.993, 1, 1.007}; double base = M.m.tuning; (void)base;
    for (i64 k = 1; k + 3 < n && !v.violated; k++) {
        if (k >= hold - 3 && k < hold + 1) continue;
        // every part may run a little early or late by itself, so the parts' ranges add up
        double cl = M.m.tuning, chh = M.m.tuning, gl = 1e9, gh = -1e9, fl = 0, fh = 0, lo3[3] = {1e9, 1e9, 1e9}, hi3[3] = {-1e9, -1e9, -1e9}, lo2[2] = {1e9, 1e9}, hi2[2] = {-1e9, -1e9};
        for (double lag : {0.985, 1.03, 1.075}) for (double rt : rates) for (double s : off2) for (int oj = k > hold && (M.m.egPitch || M.m.egCut) ? -1 : 1; oj <= 1; oj++) { M.lag = lag; M.off = ((double)hold + (k > hold ? oj : 0)) * MS; double sum[3] = {0};
            for (int i = 0; i < 4; i++) { double t = std::max(0.0, ((double)k + 0.25 + 0.5 * i + s) * MS); for (int q = 0; q < 3; q++) sum[q] += M.cents(q, t, rt); double g = M.db(std::max(0.0, t - MS / 2), rt); gl = std::min(gl, g); gh = std::max(gh, g); if (M.m.fc >= 0) for (int q = 0; q < 2; q++) { double c = M.cutoff(q, t, rt); lo2[q] = std::min(lo2[q], c); hi2[q] = std::max(hi2[q], c); } }
            for (int q = 0; q < 3; q++) { lo3[q] = std::min(lo3[q], sum[q] / 4); hi3[q] = std::max(hi3[q], sum[q] / 4); } }
        for (int q = 0; q < 3; q++) { cl += lo3[q]; chh += hi3[q]; } if (M.m.fc >= 0) { fl = M.cutoffHz(lo2[0] + lo2[1]); fh = M.cutoffHz(hi2[0] + hi2[1]); }
        if (fh > 1.25 * fl) still = k + 12;      // a filter on the move rings, and its ringing has a pitch of its own
        double lev = rms(X, o + (size_t)k * SLICE, 2 * SLICE), rl = rms(Y, oy + (size_t)k * SLICE, 2 * SLICE), want = pow(10, M.m.regionGain / 20);
        // level, relative to the same note without modulators
        if (fh > (fl < 500 ? 1.4 : 2.2) * fl) leap = k + 8;
        if (rl > 60 && k > leap) { double lo = pow(10, gl / 20) / want, hi = pow(10, gh / 20) / want; string why;
            if (M.m.fc >= 0) { double a = 1e9, z = -1e9; double tl = f0 * pow(2, cl / 1200), th = f0 * pow(2, chh / 1200); for (int i = 0; i <= 12; i++) for (int j = 0; j <= 2; j++) { double fc = fl * pow(fh / fl, i / 12.0), t = tl * pow(th / tl, j / 2.0), x, y; filterRange(t / fc, fc, M.m.q, x, y); a = std::min(a, x); z = std::max(z, y); } lo *= pow(10, a / 20); hi *= pow(10, z / 20); why = fmt(" through a filter at %.0f to %.0f Hz", fl, fh); }
            double got = lev / rl; bool off = k < hold && (got > hi * 1.1 + 12 / rl || got < lo * 0.9 - 12 / rl); loudBad = off ? loudBad + 1 : 0; if (loudBad >= 3) v.fail("level", fmt("%.0f ms after its start the note sounds at %.3f of its level without modulation%s; between %.3f and %.3f is what the collection says", (double)k * MS, got, why.c_str(), lo, hi)); judged++; if (v.violated) break; }
        // pitch over two slices
        if (double lev2 = rms(X, o + (size_t)(k + 1) * SLICE, SLICE); lev > 40 && lev2 > 40 && (M.m.fc < 0 || (k > still && fl > 1.5 * f0 * pow(2, chh / 1200) && lev > 0.5 * rl && lev2 > 0.5 * rl))) { double tl = f0 * pow(2, cl / 1200), th = f0 * pow(2, chh / 1200); if (tl < 230 || th > 0.2 * RATE) continue; double f = toneFreq(X, o + (size_t)k * SLICE, 2 * SLICE); if (f <= 0) continue; double c = 1200 * log2(f / f0), slack = 12 + 0.04 * (chh - cl) + 2500.0 / (2 * SLICE * tl / RATE) / 10; hh.u((u64)llround(c));
            if (getenv("SIM_GM")) printf("k %lld cents %.1f in %.1f..%.1f lev %.3f\n", (long long)k, c, cl, chh, lev / rl);
            pitchBad = c < cl - slack || c > chh + slack ? pitchBad + 1 : 0; if (pitchBad >= 2) v.fail("pitch", fmt("%.0f ms after its start the note is %.0f cents from its pitch; between %.0f and %.0f is what the collection says", (double)k * MS, c, cl, chh)); judged++; } }
    stat("sim.slices_measured", (u64)judged); for (u64 h : b.st.sliceHash) hh.u(h); v.traceHash = hh.h; v.nontrivial = judged > 10; return v;
}
