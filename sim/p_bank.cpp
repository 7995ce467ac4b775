// L05 the internal synthesizer: a note of a sound library (the built-in one, or one the host installs) follows the library's data.
#include "band.h"
extern "C" {
#include "eas_sndlib.h"
extern const S_EAS easSoundLib;
}

namespace {
const double MS = 1000.0 * SLICE / RATE;
struct Env { int a, d, s, r; };
struct Art { Env e1{32767, 0, 32767, 0}, e2{32767, 0, 32767, 0}; int lfoPitch = 0, delay = 0, freq = 476, egPitch = 0, egFc = 0, fc = 0, lfoGain = 0, q = 0, pan = 0; };
struct Wav { int cyc, spc, amp, reps; };
struct Rgn { int prog, lo, hi, tuning, gain, kind, wave, art, loopLen = 0, group = 0; };   // kind 0 looped, 1 one shot, 2 noise
struct Prg { int bank, num; bool table; };

int clampi(i64 v, i64 lo, i64 hi) { return (int)std::max(lo, std::min(hi, v)); }

// a library in memory, in the library's own format
struct Library {
    vector<S_BANK> banks; vector<S_PROGRAM> progs; vector<S_WT_REGION> rgn; vector<S_ARTICULATION> art; vector<EAS_U32> len, off; vector<EAS_SAMPLE> smp; std::unique_ptr<S_EAS> lib; bool filter = false; const S_EAS *samples = nullptr;
    void addArt(const Art &a) { S_ARTICULATION x; memset(&x, 0, sizeof x); auto env = [](S_ENVELOPE &e, const Env &v) { e.attackTime = (EAS_I16)v.a; e.decayTime = (EAS_I16)v.d; e.sustainLevel = (EAS_I16)v.s; e.releaseTime = (EAS_I16)v.r; }; env(x.eg1, a.e1); env(x.eg2, a.e2);
        x.lfoToPitch = (EAS_I16)a.lfoPitch; x.lfoDelay = (EAS_I16)a.delay; x.lfoFreq = (EAS_I16)a.freq; x.eg2ToPitch = (EAS_I16)a.egPitch; x.eg2ToFc = (EAS_I16)a.egFc; x.filterCutoff = (EAS_I16)a.fc; x.lfoToGain = (EAS_I8)a.lfoGain; x.filterQ = (EAS_U8)a.q; x.pan = (EAS_I8)a.pan; art.push_back(x); }
    void addWave(const Wav &w) { int n = w.cyc * w.spc * w.reps; off.push_back((EAS_U32)(smp.size() * sizeof(EAS_SAMPLE))); len.push_back((EAS_U32)((size_t)n * sizeof(EAS_SAMPLE))); double full = sizeof(EAS_SAMPLE) == 1 ? 1 / 256.0 : 1; for (int i = 0; i < n + 2; i++) smp.push_back((EAS_SAMPLE)floor(w.amp * sin(2 * M_PI * i / w.spc) * full + 0.5)); }
    const S_EAS *make() { lib.reset(new S_EAS{_EAS_LIBRARY_VERSION, (EAS_U32)((sizeof(EAS_SAMPLE) == 2 ? LIB_FORMAT_16_BIT_SAMPLES : 0) | (filter ? LIB_FORMAT_FILTER_ENABLED : 0) | RATE), banks.data(), progs.data(), rgn.data(), art.data(), samples ? samples->pSampleLen : len.data(), samples ? samples->pSampleOffsets : off.data(), samples ? samples->pSamples : smp.data(), nullptr, (EAS_U16)banks.size(), (EAS_U16)progs.size(), (EAS_U16)rgn.size(), (EAS_U16)art.size(), (EAS_U16)len.size(), 0}); return lib.get(); }
};
S_WT_REGION region(const Rgn &r, const vector<Wav> &w, int lo, int hi, bool last) { S_WT_REGION x; memset(&x, 0, sizeof x); x.region.keyGroupAndFlags = (EAS_U16)((r.kind == 0 ? REGION_FLAG_IS_LOOPED : r.kind == 2 ? REGION_FLAG_USE_WAVE_GENERATOR : REGION_FLAG_ONE_SHOT) | (r.group << 8) | (last ? REGION_FLAG_LAST_REGION : 0)); x.region.rangeLow = (EAS_U8)lo; x.region.rangeHigh = (EAS_U8)hi; x.tuning = (EAS_I16)r.tuning; x.gain = (EAS_I16)r.gain; x.loopStart = 0; x.loopEnd = (EAS_U32)(w[(size_t)r.wave].cyc * w[(size_t)r.wave].spc); x.waveIndex = (EAS_U16)r.wave; x.artIndex = (EAS_U16)r.art; return x; }

struct Spec { vector<Wav> w; vector<Art> a; vector<Rgn> r; vector<Prg> p; bool ok = false; };
Spec specOf(const Plan &p) {
    Spec s;
    for (auto &l : p.lines) { const string c = l.tok(0); auto N = [&](int i) { return l.num(i); };
        if (c == "w") s.w.push_back({clampi(N(1), 1, 40), clampi(N(2), 8, 200), clampi(N(3), 500, 20000), clampi(N(4), 1, 400)});
        else if (c == "t") { Art a; a.e1 = {clampi(N(1), 1, 32767), clampi(N(2), 0, 32767), clampi(N(3), 0, 32767), clampi(N(4), 0, 32767)}; a.e2 = {clampi(N(5), 1, 32767), clampi(N(6), 1, 32767), clampi(N(7), 0, 32767), clampi(N(8), 1, 32767)};
            a.lfoPitch = clampi(N(9), -600, 600); a.delay = clampi(N(10), 0, 500); a.freq = clampi(N(11), 1, 4000); a.egPitch = clampi(N(12), -1200, 1200); a.egFc = clampi(N(13), -6000, 6000); a.fc = clampi(N(14), 0, 13000); a.lfoGain = clampi(N(15), -40, 40); a.q = clampi(N(16), 0, 30); a.pan = clampi(N(17), -64, 64); s.a.push_back(a); }
        else if (c == "r") s.r.push_back({clampi(N(1), 0, 15), clampi(N(2), 0, 127), clampi(N(3), 0, 127), clampi(N(4), -14000, 4000), clampi(N(5), 1, 32767), clampi(N(6), 0, 2), clampi(N(7), 0, 99), clampi(N(8), 0, 99)});
        else if (c == "p") s.p.push_back({clampi(N(1), 0, 0x7fff), clampi(N(2), 0, 127), N(3) != 0}); }
    if (s.w.empty() || s.a.empty() || s.r.empty() || s.p.empty()) return s;
    for (auto &r : s.r) { r.wave %= (int)s.w.size(); r.art %= (int)s.a.size(); r.prog %= (int)s.p.size(); r.loopLen = s.w[(size_t)r.wave].cyc * s.w[(size_t)r.wave].spc; }
    std::stable_sort(s.r.begin(), s.r.end(), [](const Rgn &x, const Rgn &y) { return x.prog < y.prog; });
    s.ok = true; return s;
}
void fill(Library &L, const Spec &s) {
    for (auto &w : s.w) L.addWave(w); for (auto &a : s.a) L.addArt(a); vector<int> first(s.p.size(), -1);
    for (size_t i = 0; i < s.r.size(); i++) { auto &r = s.r[i]; if (first[(size_t)r.prog] < 0) first[(size_t)r.prog] = (int)i; L.rgn.push_back(region(r, s.w, r.lo, r.hi, i + 1 == s.r.size() || s.r[i + 1].prog != r.prog)); }
    for (size_t k = 0; k < s.p.size(); k++) { if (first[k] < 0) continue; auto &q = s.p[k];
        if (!q.table) { bool dup = false; for (auto &x : L.progs) dup |= x.locale == (EAS_U32)((q.bank << 8) | q.num); if (!dup) { S_PROGRAM x; x.locale = (EAS_U32)((q.bank << 8) | q.num); x.regionIndex = (EAS_U16)first[k]; L.progs.push_back(x); } continue; }
        S_BANK *b = nullptr; for (auto &x : L.banks) if (x.locale == q.bank) b = &x; if (!b) { S_BANK x; x.locale = (EAS_U16)q.bank; for (auto &i : x.regionIndex) i = INVALID_REGION_INDEX; L.banks.push_back(x); b = &L.banks.back(); } if (b->regionIndex[q.num] == INVALID_REGION_INDEX) b->regionIndex[q.num] = (EAS_U16)first[k]; }
}
// what a program change with this bank selects: the program's index, or -1
int programAt(const Spec &s, int bank, int num) { auto has = [&](size_t k) { for (auto &r : s.r) if (r.prog == (int)k) return true; return false; }; for (int table = 1; table >= 0; table--) for (size_t k = 0; k < s.p.size(); k++) if (s.p[k].table == (table == 1) && s.p[k].bank == bank && s.p[k].num == num && has(k)) return (int)k; return -1; }

double tri(double p) { p -= floor(p); return p < 0.25 ? 4 * p : p < 0.75 ? 2 - 4 * p : 4 * p - 4; }
// envelope values at the end of each slice, as the library writes them; loss is what integer arithmetic may lose per slice
vector<double> loudness(const Env &e, i64 n, i64 off, double loss) {
    vector<double> o; double v = 0; int st = 0;
    for (i64 k = 0; k < n; k++) { if (k == off) st = 3;
        if (st == 0) { v += e.a; if (v >= 32767) { v = 32767; st = 1; } }
        else if (st == 1) { v = std::max(0.0, v * e.d / 32768 - loss); if (v <= e.s) { v = e.s; st = e.s > 0 ? 2 : 4; } }
        else if (st == 3) v = std::max(0.0, v * e.r / 32768 - loss); else if (st == 4) v = 0;
        o.push_back(v / 32767); if (st == 4) v = 0; }
    return o;
}
vector<double> modulation(const Env &e, i64 n, i64 off) {
    vector<double> o; double v = 0; int st = 0;
    for (i64 k = 0; k < n; k++) { if (k == off) st = 3; if (st == 0) { v += e.a; if (v >= 32767) { v = 32767; st = 1; } } else if (st == 1) { v -= e.d; if (v <= e.s) { v = e.s; st = 2; } } else if (st == 3) v = std::max(0.0, v - e.r); o.push_back(v / 32767); }
    return o;
}
void filterRange(double r, double fc, double q, double &lo, double &hi) {
    lo = -45; hi = 14; double nyq = RATE / 44100.0; bool plain = fc > 250 * nyq && fc < 2500 * nyq;
    if (plain && r < 0.35) { lo = -q / 2 - 1.6; hi = -q / 2 + 1.6; }
    else if (plain && r < 0.8 && q == 0) { lo = -1.4; hi = 1.6; }
    else if (fc >= 2500 * nyq && r < 0.8 && q == 0) { lo = -5.2; hi = 1.6; }
    else if (fc > 250 * nyq && r > 1.7) { hi = r > 2.5 && fc > 600 * nyq ? -12.5 : -6.0; }
}
double cutHz(double cents) { return 440 * pow(2, (std::max(5389.0 - (RATE < 40000 ? 1200 : 0), std::min(11775.0 - (RATE < 40000 ? 1200 : 0), cents)) - 6900) / 1200); }
}

// what happened to the player before: earlier notes, other libraries, none at all, and libraries that are refused
static void before(const Plan &p, Band &b, const S_EAS *lib, Verdict &v) {
    EAS_DATA_HANDLE E = b.st.in.h; EAS_HANDLE H = b.host[0]->h; const S_EAS *now = p.cfg("late", 0) ? &easSoundLib : lib; auto set = [&](const S_EAS *x) { EAS_RESULT r = EAS_SetSoundLibrary(E, H, (EAS_SNDLIB_HANDLE)x); if (r == EAS_SUCCESS) now = x; return r; };
    auto stopped = [&](const char *what) { b.st.render(3); if (!b.st.silent(b.st.slice - 1, 1)) v.fail("stale", fmt("%s: the notes of the library before go on", what)); };
    for (auto &l : p.lines) { if (l.tok(0) != "x" || v.violated) continue; string c = l.tok(1); int a = (int)l.num(2), key = wrap(l.num(3), 128);
        if (c == "note") { b.prog(0, wrap(a, 16), wrap(l.num(4), 128)); b.note(0, wrap(a, 16), key, 100); b.st.render(1 + wrap(l.num(5), 60)); if (!now && !b.st.silent(b.st.slice - 1, 1)) v.fail("none", "a note sounds without any library"); if (a & 16) { b.cc(0, wrap(a, 16), 120, 0); b.st.render(4); } }
        else if (c == "none") { if (set(nullptr) != EAS_SUCCESS) continue; stopped("no library"); }
        else if (c == "other") { if (set(&easSoundLib) != EAS_SUCCESS) v.fail("refused", "the built-in library is refused"); stopped("the built-in library"); }
        else if (c == "mine") { if (set(lib) != EAS_SUCCESS) v.fail("refused", "a well-formed sound library is refused"); stopped("another library"); }
        else if (c == "bad") { static S_EAS *z[3] = {nullptr, nullptr, nullptr}; const S_EAS &e = easSoundLib; if (!z[0]) for (int i = 0; i < 3; i++) z[i] = new S_EAS{i == 0 ? e.identifier ^ 0x100 : e.identifier, i == 1 ? (e.libAttr & ~(EAS_U32)LIBFORMAT_SAMPLE_RATE_MASK) | 8000 : i == 2 ? e.libAttr ^ LIB_FORMAT_16_BIT_SAMPLES : e.libAttr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 0, 0, 0, 0, 0, 0}; int w = wrap(a, 3); EAS_RESULT r = EAS_SetSoundLibrary(E, l.num(3) ? nullptr : H, (EAS_SNDLIB_HANDLE)z[w]); if (r == EAS_SUCCESS) v.fail("accepted", fmt("a library with %s is accepted", w == 0 ? "an unknown version" : w == 1 ? "another sampling rate" : "another sample size")); b.st.render(1); } }
    if (v.violated) return; if (now != lib) { if (set(lib) != EAS_SUCCESS) { v.fail("refused", "a well-formed sound library is refused"); return; } stopped("the library"); }
    for (int ch = 0; ch < 16; ch++) b.cc(0, ch, 120, 0); if (p.cfg("late", 0)) b.send(0, {0xf0, 0x7e, 0x7f, 0x09, 0x01, 0xf7}); b.st.render(6);
}

void gen_L05(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.35)) { p.add("cfg late %d", (int)r.chance(0.6)); for (int i = 0, e = (int)r.range(1, 5); i < e; i++) switch (r.weighted({50, 12, 12, 12, 14})) { case 0: p.add("x note %d %d %d %d", (int)r.range(0, 31), (int)r.range(30, 90), (int)r.pick({0, 0, r.range(0, 127)}), (int)r.range(0, 30)); break; case 1: p.add("x none"); break; case 2: p.add("x other"); break; case 3: p.add("x mine"); break; default: p.add("x bad %d %d", (int)r.range(0, 2), (int)r.chance(0.4)); } }
    i64 hold = r.range(20, thorough ? 600 : 250), n = hold + r.range(10, 150);
    p.add("cfg key %lld", (long long)r.range(36, 96)); p.add("cfg vel %lld", (long long)r.pick({127, 100, r.range(1, 127)})); p.add("cfg hold %lld", (long long)hold); p.add("cfg slices %lld", (long long)n); p.add("cfg chan %lld", (long long)(r.chance(0.2) ? 9 : r.range(0, 15)));
    p.add("cfg pan %lld", (long long)r.pick({64, 64, 0, 127, r.range(0, 127)})); p.add("cfg cc7 %lld", (long long)r.pick({127, 100, r.range(20, 127)}));
    if (r.chance(0.25)) { p.add("cfg builtin 1"); p.add("cfg prog %lld", (long long)r.range(0, 127)); return; }
    int waves = (int)r.range(1, 3), arts = (int)r.range(1, 3), progs = (int)r.pick({1, 1, 2, 4}); bool filter = r.chance(0.4);
    for (int i = 0; i < waves; i++) p.add("w %d %d %d %d", (int)r.range(1, 10), (int)r.range(24, 90), (int)r.range(8000, 16000), (int)(r.chance(0.5) ? 1 : r.range(5, 200)));
    auto rate = [&](double ms) { return (i64)lround(32768 * pow(2, -MS / ms * 3)); };       // an exponential change by 18 dB in ms
    for (int i = 0; i < arts; i++) {
        i64 a = r.chance(0.5) ? 32767 : std::max<i64>(60, (i64)(32767 * MS / (double)r.range(6, 900))), d = r.chance(0.3) ? r.pick({0, 32767, r.range(1, 32766)}) : rate((double)r.range(5, 2000)), s = r.pick({0, 32767, r.range(1, 32766)}), rel = r.chance(0.2) ? r.pick({0, r.range(1, 32700)}) : rate((double)r.range(5, 1500));
        bool eg2 = r.chance(0.5), lfo = r.chance(0.6), quiet = r.chance(0.5); i64 lim = 32767; auto step = [&]() { return std::max<i64>(1, (i64)(32767 * MS / (double)r.range(10, 1500))); };
        p.add("t %lld %lld %lld %lld %lld %lld %lld %lld %d %d %d %d %d %d %d %d %d", (long long)a, (long long)d, (long long)s, (long long)rel, (long long)(r.chance(0.3) ? lim : step()), (long long)(r.chance(0.3) ? lim : step()), (long long)r.pick({0, 32767, r.range(0, 32767)}), (long long)step(),
            (int)(lfo && r.chance(0.6) ? r.range(-400, 400) : 0), (int)r.pick({0, 0, r.range(0, 120)}), (int)r.range(50, 1500), (int)(eg2 && r.chance(0.7) ? r.range(-800, 800) : 0), (int)(filter && eg2 && r.chance(0.6) ? r.range(-3000, 3000) : 0), (int)(filter && r.chance(0.8) ? r.range(6000, 11500) : 0), (int)(lfo && r.chance(0.5) ? r.range(-20, 20) : 0), (int)(filter && !quiet ? r.range(0, 16) : 0), (int)r.pick({0, 0, r.range(-64, 63)})); }
    for (int i = 0; i < progs; i++) { int rg = (int)r.pick({1, 1, 2, 4}); i64 cut = 0; for (int k = 0; k < rg; k++) { i64 lo = k == 0 ? r.pick({0, 0, 40}) : cut, hi = k == rg - 1 ? r.pick({127, 127, 90}) : std::min<i64>(127, lo + r.range(5, 60)); cut = r.chance(0.15) ? std::max<i64>(0, hi - 8) : std::min<i64>(127, hi + 1); p.add("r %d %lld %lld %lld %d %d %d %d", i, (long long)lo, (long long)hi, (long long)(-r.range(50, 75) * 100 + r.range(-50, 50)), (int)r.pick({32767, r.range(8000, 32767)}), (int)r.weighted({75, 15, 10}), (int)r.range(0, waves - 1), (int)r.range(0, arts - 1)); } 
        p.add("p %d %d %d", (int)r.pick({0x7900, 0x7900, 0x7800, 0x7901, 0, 5, r.range(0, 0x7fff)}), (int)(r.chance(0.6) ? 0 : r.range(0, 127)), (int)r.chance(0.6)); }
    p.add("cfg filter %d", (int)filter); p.add("cfg msb %d", (int)r.pick({-1, -1, -1, 0x79, 0x78, 0, r.range(0, 127)})); p.add("cfg lsb %d", (int)r.pick({-1, -1, 0, 1, r.range(0, 127)})); p.add("cfg which %d", (int)r.range(0, progs)); p.add("cfg prog %d", (int)(r.chance(0.7) ? 0 : r.range(0, 127)));
    for (int i = 0, e = (int)r.range(0, 3); i < e; i++) p.add("a %lld %s %d", (long long)(r.chance(0.5) ? 0 : r.range(0, n)), r.chance(0.5) ? "wheel" : "press", (int)r.pick({0, 127, r.range(0, 127)}));
}

Verdict judge_L05(const Plan &p) {
    Verdict v; v.nontrivial = false; Hash hh; int ch = wrap(p.cfg("chan", 0), 16), key = wrap(p.cfg("key", 60), 128), vel = 1 + wrap(p.cfg("vel", 100) - 1, 127), cc10 = wrap(p.cfg("pan", 64), 128), cc7 = wrap(p.cfg("cc7", 127), 128), num = wrap(p.cfg("prog", 0), 128);
    i64 n = std::max<i64>(10, std::min<i64>(1200, p.cfg("slices", 100))), hold = std::max<i64>(4, std::min<i64>(n, p.cfg("hold", 60))); bool builtin = p.cfg("builtin", 0) != 0; Library L, R; Art art; Rgn rg{}; bool found = false, neverEnds = false; double waveHz = 0; i64 waveLen = 0; const S_EAS *lib = nullptr; int msb = -1, lsb = -1; bool rhythm = ch == 9;
    if (builtin) {
        const S_EAS &e = easSoundLib; u32 bank = rhythm ? 0x7800 : 0x7900; int first = -1; auto look = [&](u32 bk, int pr) { for (int i = 0; i < e.numBanks; i++) if (e.pBanks[i].locale == bk && e.pBanks[i].regionIndex[pr] != INVALID_REGION_INDEX) return (int)e.pBanks[i].regionIndex[pr]; for (int i = 0; i < e.numPrograms; i++) if (e.pPrograms[i].locale == ((bk << 8) | (u32)pr)) return (int)e.pPrograms[i].regionIndex; return -1; };
        first = look(bank, num); if (first < 0) first = look(bank, 0); if (first < 0) return v;
        for (int i = first;; i++) { const S_WT_REGION &w = e.pWTRegions[i]; if (key >= w.region.rangeLow && key <= w.region.rangeHigh) { found = true; const S_ARTICULATION &a = e.pArticulations[w.artIndex]; art.e1 = {a.eg1.attackTime, a.eg1.decayTime, a.eg1.sustainLevel, a.eg1.releaseTime}; art.e2 = {a.eg2.attackTime, a.eg2.decayTime, a.eg2.sustainLevel, a.eg2.releaseTime}; art.lfoPitch = a.lfoToPitch; art.delay = a.lfoDelay; art.freq = a.lfoFreq; art.egPitch = a.eg2ToPitch; art.egFc = a.eg2ToFc; art.fc = a.filterCutoff; art.lfoGain = a.lfoToGain; art.q = a.filterQ; art.pan = a.pan;
                int fl = w.region.keyGroupAndFlags; rg.kind = fl & REGION_FLAG_USE_WAVE_GENERATOR ? 2 : fl & REGION_FLAG_IS_LOOPED ? 0 : 1; rg.gain = w.gain; rg.tuning = w.tuning; waveLen = (i64)(e.pSampleLen[w.waveIndex] / sizeof(EAS_SAMPLE));
                R.samples = &e; Art plain; R.addArt(plain); S_WT_REGION x = w; x.region.keyGroupAndFlags = (EAS_U16)((fl & (REGION_FLAG_IS_LOOPED | REGION_FLAG_USE_WAVE_GENERATOR | REGION_FLAG_ONE_SHOT)) | REGION_FLAG_LAST_REGION); x.region.rangeLow = 0; x.region.rangeHigh = 127; x.gain = 32767; x.artIndex = 0; R.rgn.push_back(x); break; }
            if (w.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION) break; }
        L.filter = (e.libAttr & LIB_FORMAT_FILTER_ENABLED) != 0;
    } else {
        Spec s = specOf(p); if (!s.ok) return v; fill(L, s); L.filter = p.cfg("filter", 0) != 0; lib = L.make(); msb = (int)p.cfg("msb", -1); lsb = (int)p.cfg("lsb", -1); if (msb > 127) msb = -1; if (lsb > 127) lsb = -1;
        int which = (int)p.cfg("which", 0); if (which >= 0 && which < (int)s.p.size()) { msb = s.p[(size_t)which].bank >> 8; lsb = s.p[(size_t)which].bank & 255; num = s.p[(size_t)which].num; if (lsb > 127) lsb = -1; }
        int bank = rhythm ? 0x7800 : 0x7900; if (msb >= 0) bank = msb << 8; if (lsb >= 0) bank = (bank & 0xff00) | lsb; if ((bank & 0xff00) == 0x7800) rhythm = true; if ((bank & 0xff00) == 0x7900) rhythm = false;
        int k = programAt(s, bank, num); if (k < 0) k = programAt(s, rhythm ? 0x7800 : 0x7900, num); if (k < 0) k = programAt(s, rhythm ? 0x7800 : 0x7900, 0); if (k < 0) return v;
        for (auto &x : s.r) if (x.prog == k && key >= x.lo && key <= x.hi) { rg = x; art = s.a[(size_t)x.art]; found = true; break; }
        if (found) { waveLen = (i64)rg.loopLen * s.w[(size_t)rg.wave].reps; waveHz = (double)RATE / s.w[(size_t)rg.wave].spc; Rgn t = rg; t.art = 0; t.gain = 32767; if (t.kind == 1) t.kind = 0; for (auto &w : s.w) R.addWave(w); Art plain; R.addArt(plain); R.rgn.push_back(region(t, s.w, 0, 127, true)); }
    }
    if (!found) { Art plain; if (R.art.empty()) { R.addArt(plain); R.samples = &easSoundLib; S_WT_REGION x = easSoundLib.pWTRegions[0]; x.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; R.rgn.push_back(x); } }
    for (int bk : {0x7900, 0x7800}) { S_PROGRAM x; x.locale = (EAS_U32)(bk << 8); x.regionIndex = 0; R.progs.push_back(x); }
    bool late = p.cfg("late", 0) != 0; Band b(Plan(), 1, 9, true, late ? nullptr : lib), ref(Plan(), 1, 9, false, R.make()); if (!b.ok || !ref.ok) { v.fail("refused", "a well-formed sound library is refused"); return v; }
    before(p, b, lib ? lib : &easSoundLib, v); if (v.violated) return v;
    if (msb >= 0) b.cc(0, ch, 0, msb); if (lsb >= 0) b.cc(0, ch, 32, lsb); b.prog(0, ch, num); b.cc(0, ch, 7, cc7); b.cc(0, ch, 10, cc10); int rc = rhythm ? 9 : 0; ref.prog(0, rc, 0); ref.cc(0, rc, 7, 64); const double K = pow(127 / 64.0, 2);      // the reference at a quarter of the level, so that it never clips
    vector<std::array<double, 2>> ctl; auto A = acts(p); size_t ai = 0; double wheel = 0, press = 0;
    for (i64 k = 0; k < n; k++) { for (; ai < A.size() && A[ai].at <= k; ai++) { if (A[ai].cmd() == "wheel") { wheel = wrap(A[ai].num(1), 128); b.cc(0, ch, 1, (int)wheel); } else if (A[ai].cmd() == "press") { press = wrap(A[ai].num(1), 128); b.send(0, {0xd0 | ch, (int)press}); } } ctl.push_back({wheel, press});
        if (k == 0) { b.note(0, ch, key, vel); ref.note(0, rc, key, 127); } if (k == hold) b.off(0, ch, key); b.st.render(); ref.st.render(); }
    const vector<float> &XL = b.st.pcm.l, &XR = b.st.pcm.r, &Y = ref.st.pcm.l; size_t o = XL.size() - (size_t)n * SLICE, oy = Y.size() - (size_t)n * SLICE; string who = builtin ? fmt("%s %d key %d", rhythm ? "drum program" : "program", num, key) : fmt("program %d of bank %d/%d key %d on channel %d", num, msb, lsb, key, ch); int judged = 0;
    for (u64 h : b.st.sliceHash) hh.u(h); v.traceHash = hh.h;
    if (!found) { if (!b.st.silent(b.st.slice - n, n)) v.fail("region", who + " sounds although the library has no region for this key"); v.nontrivial = true; return v; }
    // the model, slice by slice
    vector<double> e[2] = {loudness(art.e1, n, hold, 0), loudness(art.e1, n, hold, 1)}, m = modulation(art.e2, n, hold), lfo, cents, dbLo, dbHi, cut; double at = 0; i64 end = n + 100; double endAt = 0;
    for (i64 k = 0; k < n; k++) { double l = k < art.delay ? 0 : tri((double)(k - art.delay) * art.freq / 32768.0); lfo.push_back(l); double g = l * art.lfoGain; dbHi.push_back(g); dbLo.push_back(art.lfoGain ? floor(g - 0.01) : 0); cents.push_back(m[(size_t)k] * art.egPitch + l * (art.lfoPitch + 50.0 * ctl[(size_t)k][0] / 128 + 50.0 * ctl[(size_t)k][1] / 128)); cut.push_back(art.fc + m[(size_t)k] * art.egFc);
        double step = SLICE * pow(2, (rg.tuning + key * 100.0 + cents.back()) / 1200); if (end > n && at + step >= (double)waveLen - 1) { end = k; endAt = at; } at += step; }
    (void)endAt; double slow = (double)rg.tuning + key * 100.0; if (slow < -4500 || slow > 3500) return v; if (rg.kind == 0 && !builtin && SLICE * 0 + pow(2, (slow + 1300) / 1200) > rg.loopLen) return v;
    double base = fabs(rg.gain / 32767.0) * pow(vel / 127.0 * cc7 / 127.0, 2), f0 = waveHz * pow(2, slow / 1200); int ang = std::max(-63, std::min(63, cc10 - 64 + art.pan)); double wantAngle = (double)ang * 90 / 127;
    if (base <= 0) { if (!b.st.silent(b.st.slice - n, n)) v.fail("level", who + " sounds although its volume is zero"); return v; }
    double peak = 0; for (double x : dbHi) peak = std::max(peak, x); if (base * pow(10, peak / 20) > 2) return v;
    bool moved = art.egPitch || art.lfoPitch; for (auto &c : ctl) moved |= c[0] || c[1]; bool filtered = L.filter && art.fc != 0; if (filtered && (builtin || rg.kind == 2 || f0 > 0.2 * RATE)) filtered = true;
    if (!builtin && rg.kind != 2 && f0 > 230 && f0 < 0.2 * RATE) { double f = toneFreq(Y, oy + 2 * SLICE, (size_t)std::min<i64>(n - 2, 40) * SLICE); if (f > 0 && fabs(1200 * log2(f / f0)) > 12 + 2500.0 / (40 * SLICE * f0 / RATE)) { v.fail("pitch", fmt("%s: an unmodulated tone of %.1f Hz comes out at %.1f Hz", who.c_str(), f0, f)); return v; } }
    i64 leap = 0, still = 0; int bad[4] = {0};
    for (i64 k = 1; k + 3 < n && !v.violated; k++) {
        double lev = sqrt(pow(rms(XL, o + (size_t)k * SLICE, 2 * SLICE), 2) + pow(rms(XR, o + (size_t)k * SLICE, 2 * SLICE), 2)), rl = rms(Y, oy + (size_t)k * SLICE, 2 * SLICE) * sqrt(2.0) * K, clip = 0; for (size_t i = 0; i < 2 * SLICE; i++) clip = std::max({clip, (double)fabs(XL[o + (size_t)k * SLICE + i]), (double)fabs(XR[o + (size_t)k * SLICE + i])}); if (clip > 32000) continue;
        if (rg.kind == 1) { if (k > end + (i64)(0.01 * (double)end) + 2) { if (lev > 1.5) v.fail("end", fmt("%s: slice %lld sounds although the wave ended at slice %lld", who.c_str(), (long long)k, (long long)end)); judged++; continue; } if (k + 3 > end - (i64)(0.01 * (double)end)) continue; }
        double lo = 1e9, hi = 0, cl = 1e9, chh = -1e9, fl = 1e9, fh = 0;
        for (int s = -1; s <= 1; s++) { for (int q = 0; q < 2; q++) for (int dbv = 0; dbv < 2; dbv++) { double sum = 0; auto G = [&](i64 j) { if (j < 0 || j >= n) return 0.0; return e[q][(size_t)j] * pow(10, (dbv ? dbHi : dbLo)[(size_t)j] / 20); }; for (i64 j = k + s; j < k + s + 2; j++) { double a = G(j - 1), c = G(j); sum += (a * a + a * c + c * c) / 6; } lo = std::min(lo, sqrt(sum)); hi = std::max(hi, sqrt(sum)); }
            double c2 = 0; for (i64 j = k + s; j < k + s + 2; j++) { size_t z = (size_t)std::max<i64>(0, std::min(n - 1, j)); c2 += cents[z] / 2; fl = std::min(fl, cut[z]); fh = std::max(fh, cut[z]); } cl = std::min(cl, c2); chh = std::max(chh, c2); }
        lo *= base; hi *= base; double fq = f0; string why;
        if (filtered) { double a = cutHz(fl), z = cutHz(fh); if (z > (a < 500 ? 1.4 : 2.2) * a) leap = k + 8; if (z > 1.25 * a) still = k + 12; if (builtin || rg.kind == 2) { lo = 0; hi *= 5; } else { double y0 = 1e9, y1 = -1e9; for (int i = 0; i <= 8; i++) for (int j = 0; j <= 2; j++) { double fc = a * pow(z / a, i / 8.0), t = fq * pow(2, (cl + (chh - cl) * j / 2) / 1200), x, y; filterRange(t / fc, fc, art.q * 0.75, x, y); y0 = std::min(y0, x); y1 = std::max(y1, y); } lo *= pow(10, y0 / 20); hi *= pow(10, y1 / 20); why = fmt(" through a filter at %.0f to %.0f Hz", a, z); } }
        double got = rl > 0 ? lev / rl : 0; if (getenv("SIM_GM")) printf("k %lld got %.4f want %.4f..%.4f rl %.0f kind %d\n", (long long)k, got, lo, hi, rl, rg.kind);
        if (rl > 150 && k > leap && (!builtin || !moved || rg.kind != 1)) { double slack = 0.004 + 10 / rl; if (moved && (builtin || (rg.kind != 2 && f0 < 220))) { lo = builtin ? 0 : lo * 0.5; hi *= builtin ? 3 : 2; } bool off = got > hi * 1.08 + slack || got < lo * 0.92 - slack; bad[0] = off ? bad[0] + 1 : 0; judged++; hh.u((u64)llround(got * 1000)); if (bad[0] >= 3) { v.fail("level", fmt("%s: slice %lld sounds at %.4f of the plain wave%s; between %.4f and %.4f is what the library says (released at %lld)", who.c_str(), (long long)k, got, why.c_str(), lo, hi, (long long)hold)); break; } }
        if (lev > 120) { double a = atan2(rms(XR, o + (size_t)k * SLICE, 2 * SLICE), rms(XL, o + (size_t)k * SLICE, 2 * SLICE)) * 180 / M_PI - 45, d = fabs(a - wantAngle); bad[1] = d > 5 ? bad[1] + 1 : 0; if (bad[1] >= 2) { v.fail("balance", fmt("%s: slice %lld at %.0f degrees instead of %.0f", who.c_str(), (long long)k, a, wantAngle)); break; } }
        const vector<float> &X = ang > 0 ? XR : XL;
        if (lev > 60 && rl > 200 && lo > 0.7 * hi && !moved && !filtered) { double xy = 0, xx = 0, yy = 0; for (size_t i = 0; i < 2 * SLICE; i++) { double a = X[o + (size_t)k * SLICE + i], c = Y[oy + (size_t)k * SLICE + i]; xy += a * c; xx += a * a; yy += c * c; } double c = fabs(xy) / sqrt(xx * yy + 1e-9); bad[2] = c < 0.9 ? bad[2] + 1 : 0; if (bad[2] >= 2) { v.fail("wave", fmt("%s: slice %lld does not follow its wave (correlation %.2f)", who.c_str(), (long long)k, c)); break; } }
        if (!builtin && rg.kind != 2 && f0 * pow(2, cl / 1200) > 230 && f0 * pow(2, chh / 1200) < 0.2 * RATE && lev > 120 && lev > 0.02 * rl && (!filtered || (k > still && k > leap && cutHz(fl) > 1.5 * f0 * pow(2, chh / 1200)))) { double lev2 = rms(X, o + (size_t)(k + 1) * SLICE, SLICE), lev1 = rms(X, o + (size_t)k * SLICE, SLICE); double f = lev1 > 40 && lev2 > 40 && lev2 > 0.4 * lev1 && lev1 > 0.4 * lev2 ? toneFreq(X, o + (size_t)k * SLICE, 2 * SLICE) : 0; if (f > 0) { double c = 1200 * log2(f / f0), slack = 12 + 0.04 * (chh - cl) + 2500.0 / (2 * SLICE * f0 / RATE) / 8; judged++; bad[3] = c < cl - slack || c > chh + slack ? bad[3] + 1 : 0; if (bad[3] >= 2) { v.fail("pitch", fmt("%s: slice %lld is %.0f cents from the plain pitch; between %.0f and %.0f is what the library says", who.c_str(), (long long)k, c, cl, chh)); break; } } }
    }
    stat("sim.slices_measured", (u64)judged); v.traceHash = hh.h; v.nontrivial = judged > 8; return v;
}
