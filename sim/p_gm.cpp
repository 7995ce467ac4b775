// L03 the built-in General MIDI instruments: pitch, level, balance, sustain, drums and independence, by laws that hold for every instrument.
#include "band.h"

// programs with a definite pitch in the middle of the keyboard (the others are effects, chorused pads, bells and percussion)
static const vector<int> PITCHED = {0,1,2,3,4,5,8,9,10,11,12,13,15,16,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,56,57,58,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,78,79,80,81,84,87,88,90,92,95,98,99,108,110,112};
// programs that sustain for as long as the key is down
static const vector<int> SUSTAINED = {16,19,20,21,40,41,42,52,53,56,57,58,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,78,79,80,81,87,90};
static const vector<vector<int>> CHOKE = {{42, 44, 46}, {67, 68}, {71, 72}, {73, 74}, {80, 81}};
static int melodic(i64 c) { int x = wrap(c, 15); return x < 9 ? x : x + 1; }
static int groupOf(int key) { for (size_t i = 0; i < CHOKE.size(); i++) for (int k : CHOKE[i]) if (k == key) return (int)i + 1; return 0; }
static bool in(const vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

static double acf(const vector<double> &x, size_t a, size_t n, size_t lag) { double s = 0, p = 0, q = 0; for (size_t i = a; i < a + n; i++) { s += x[i] * x[i + lag]; p += x[i] * x[i]; q += x[i + lag] * x[i + lag]; } return s / sqrt(p * q + 1e-9); }
// deviation in cents of the period of x[a, a+n) from the wanted frequency (+-80 cents are searched) and how periodic the sound is
static double deviation(const vector<double> &x, size_t a, size_t n, double hz, double &clarity) {
    double one = RATE / hz; int k = std::max(1, (int)(300.0 * RATE / 44100 / one)); double w = one * k; int lo = (int)floor(w * 0.955) - 1, hi = (int)ceil(w * 1.047) + 1; vector<double> c; int best = 0;
    if (lo < 2 || a + n + (size_t)hi >= x.size()) { clarity = 0; return 0; }
    for (int l = lo; l <= hi; l++) { c.push_back(acf(x, a, n, (size_t)l)); if (c.back() > c[(size_t)best]) best = l - lo; }
    clarity = c[(size_t)best]; double at = lo + best; if (best > 0 && best + 1 < (int)c.size()) { double u = c[(size_t)best - 1], m = c[(size_t)best], d = c[(size_t)best + 1]; if (fabs(u - 2 * m + d) > 1e-12) at += (u - d) / (2 * (u - 2 * m + d)); }
    return -1200 * log2(at / w);
}

void gen_L03(Rng &r, Plan &p, bool thorough) {
    int n = (int)r.range(2, thorough ? 16 : 6);
    switch (r.weighted({30, 25, 25, 10, 10, 10})) {
        case 0: p.add("cfg mode pitch"); for (int i = 0; i < n * 2; i++) p.add("n %d %d %d %d %d %d %d %d", (int)PITCHED[(size_t)r.range(0, (i64)PITCHED.size() - 1)], (int)r.range(44, 88), (int)r.range(0, 14),
                (int)(r.chance(0.5) ? 8192 : r.range(0, 16383)), (int)(r.chance(0.5) ? 2 : r.range(0, 12)), (int)(r.chance(0.6) ? 8192 : r.range(0, 16383)), (int)(r.chance(0.6) ? 0 : r.range(-12, 12)), (int)(r.chance(0.6) ? 0 : r.range(-12, 12))); break;
        case 1: p.add("cfg mode law"); for (int i = 0; i < n; i++) { bool drum = r.chance(0.3); p.add("v %d %d %d %d %d %d %d %d %d %d", (int)drum, (int)r.range(0, 127), (int)(drum ? r.range(35, 81) : r.range(36, 96)), (int)r.range(0, 14), (int)r.pick({127, 100, 64, r.range(1, 127)}), (int)r.pick({127, 100, 100, r.range(0, 127)}), (int)r.pick({127, 127, 100, r.range(0, 127)}), (int)r.pick({64, 64, 0, 127, r.range(0, 127)}), (int)r.pick({-1, -1, 0, 121, 1, r.range(0, 119)}), (int)r.pick({-1, 0, 1, r.range(0, 127)})); } break;
        case 2: { p.add("cfg mode mix"); p.add("cfg shift %lld", (long long)r.range(0, 9)); p.add("cfg rot %lld", (long long)r.range(1, 14)); i64 k = 2; int chans = (int)r.range(1, 5), notes = 0; bool drum2 = r.chance(0.3); if (drum2) p.add("cfg drum2 1");
            for (int i = 0; i < chans; i++) p.add("a %lld prog %d %d", 1ll, i, (int)r.range(0, 127));
            for (int i = 0, m = (int)r.range(6, thorough ? 70 : 40); i < m; i++) { int c = r.chance(0.25) ? 5 : drum2 && r.chance(0.35) ? 4 : (int)r.range(0, chans - 1); bool rhythm = c == 5 || (c == 4 && drum2); i64 key = !rhythm ? r.range(40, 90) : r.chance(0.4) ? r.pick({42, 44, 46, 67, 68, 71, 72, 73, 74, 80, 81}) : r.range(35, 81);
                switch (r.weighted({40, 24, 8, 6, 4, 4, 4, 4, 3})) {
                    case 0: if (++notes < 40) p.add("a %lld on %d %lld %d", (long long)k, c, (long long)key, (int)r.range(20, 127)); break;
                    case 1: p.add("a %lld off %d %lld 0", (long long)k, c, (long long)key); break;
                    case 2: p.add("a %lld bend %d %d", (long long)k, c, (int)r.range(0, 16383)); break;
                    case 3: p.add("a %lld cc %d %d %d", (long long)k, c, (int)r.pick({1, 7, 11, 10, 64}), (int)r.range(0, 127)); break;
                    case 4: p.add("a %lld press %d %d", (long long)k, c, (int)r.range(0, 127)); break;
                    case 5: p.add("a %lld prog %d %d", (long long)k, c, (int)r.range(0, 127)); break;
                    case 6: p.add("a %lld tune %d %d %d", (long long)k, c, (int)r.range(40, 88), (int)r.range(0, 127)); break;
                    case 7: p.add("a %lld cc %d %d 0", (long long)k, c, (int)r.pick({120, 121, 123})); break;
                    default: p.add("a %lld alloff %d", (long long)k, c); break; }
                k += r.chance(0.4) ? 0 : r.range(1, 12); }
            p.add("cfg slices %lld", (long long)k + 20); break; }
        case 3: p.add("cfg mode hold"); for (int i = 0; i < std::max(1, n / 3); i++) { bool sus = r.chance(0.6); int drum = !sus && r.chance(0.4); p.add("h %d %d %d %lld %d %d", drum, sus ? (int)SUSTAINED[(size_t)r.range(0, (i64)SUSTAINED.size() - 1)] : (int)r.range(0, 127), (int)(drum ? r.range(35, 81) : r.range(48, 84)), (long long)r.range(60, thorough ? 4000 : 900), (int)r.range(0, 3), (int)r.range(0, 14)); } break;
        case 5: p.add("cfg mode vib"); for (int i = 0; i < std::max(1, n / 2); i++) { int s = (int)SUSTAINED[(size_t)r.range(0, (i64)SUSTAINED.size() - 1)]; p.add("w %d %d %d %d %d %d", s, (int)r.range(60, 76), (int)r.range(0, 14), (int)r.pick({0, 127, 64, r.range(0, 127)}), (int)r.pick({0, 0, 127, r.range(0, 127)}), (int)r.range(0, 1)); } break;
        default: p.add("cfg mode drum"); for (int i = 0; i < n; i++) { auto &g = CHOKE[(size_t)r.range(0, (i64)CHOKE.size() - 1)]; bool same = r.chance(0.5); p.add("d %d %d %lld %d %d %d", (int)(same ? g[(size_t)r.range(0, (i64)g.size() - 1)] : r.range(35, 81)), (int)(same ? g[(size_t)r.range(0, (i64)g.size() - 1)] : r.range(35, 81)), (long long)r.range(0, 40), (int)r.pick({0, 0, r.range(-12, 12)}), (int)r.pick({0, 0, r.range(0, 127)}), (int)r.range(40, 127)); } break;
    }
}

static vector<double> mono(const Pcm &p) { vector<double> x(p.n()); for (size_t i = 0; i < x.size(); i++) x[i] = p.l[i] + p.r[i]; return x; }
static double level(const Pcm &p, i64 a, i64 n) { double s = 0; size_t i = (size_t)(a * SLICE), e = std::min(p.n(), (size_t)((a + n) * SLICE)), c = 0; for (; i < e; i++, c++) s += (double)p.l[i] * p.l[i] + (double)p.r[i] * p.r[i]; return c ? sqrt(s / (double)c) : 0; }
static double dot(const vector<float> &a, size_t oa, const vector<double> &b, size_t ob, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += a[oa + i] * b[ob + i]; return s; }

static void judgePitch(const Plan &p, Verdict &v) {
    Band b(Plan(), 1); if (!b.ok) { v.fail("open", "band"); return; } EAS_DATA_HANDLE E = b.st.in.h; i64 judged = 0; Hash hh;
    for (auto &l : p.lines) { if (l.tok(0) != "n" || v.violated) continue;
        int pr = wrap(l.num(1), 128), key = wrap(l.num(2), 128), ch = melodic(l.num(3)), bend = (int)std::max<i64>(0, std::min<i64>(16383, l.num(4))), range = wrap(l.num(5), 25), fine = (int)std::max<i64>(0, std::min<i64>(16383, l.num(6))), coarse = (int)std::max<i64>(-24, std::min<i64>(24, l.num(7))), tr = (int)std::max<i64>(-12, std::min<i64>(12, l.num(8)));
        b.st.render(6); b.cc(0, ch, 121, 0); EAS_SetTransposition(E, b.host[0]->h, tr);
        b.cc(0, ch, 101, 0); b.cc(0, ch, 100, 0); b.cc(0, ch, 6, range); b.cc(0, ch, 100, 1); b.cc(0, ch, 6, fine >> 7); b.cc(0, ch, 38, fine & 127); b.cc(0, ch, 100, 2); b.cc(0, ch, 6, 64 + coarse); b.bend(0, ch, bend); b.prog(0, ch, pr);
        i64 s0 = b.st.slice; b.note(0, ch, key, 110); b.st.render(44); auto x = mono(b.st.pcm); b.off(0, ch, key); b.cc(0, ch, 120, 0);
        double bc = range * 100.0 * (bend - 8192) / 8192, fc = 100.0 * ((fine & ~127) - 8192) / 8192, total = key + tr + coarse + (bc + fc) / 100, hz = 440 * pow(2, (total - 69) / 12); int region = key + tr + coarse;
        if (!in(PITCHED, pr) || region < 46 || region > 86 || total < 42 || total > 90) continue;
        double lev = level(b.st.pcm, s0 + 2, 8); if (lev < 30) { if (region >= 60 && region <= 64) v.fail("silent", fmt("program %d key %d (+%d) is silent", pr, key, tr + coarse)); continue; }
        size_t a = (size_t)((s0 + 12) * SLICE), n = (size_t)(22 * SLICE); if (level(b.st.pcm, s0 + 12, 30) < 25) continue;
        double cl, d = deviation(x, a, n, hz, cl); if (getenv("SIM_GM")) printf("GM %d %d %.2f dev %.1f clarity %.3f\n", pr, region, total, d, cl);
        judged++; hh.u((u64)llround(d)); if (cl < (total > 78 ? 0.3 : 0.45) || fabs(d) > 32) v.fail("pitch", fmt("program %d key %d, transposed %d, tuned %d semitones, bent %.0f and fine-tuned %.0f cents: %.0f cents away from equal temperament (periodicity %.2f)", pr, key, tr, coarse, bc, fc, d, cl)); }
    v.traceHash = hh.h; v.nontrivial = judged > 0; stat("sim.pitches", (u64)judged);
}

static void judgeLaw(const Plan &p, Verdict &v) {
    const i64 W = 36; i64 judged = 0; Hash hh;
    for (auto &l : p.lines) { if (l.tok(0) != "v" || v.violated) continue;
        bool drum = l.num(1) != 0; int pr = wrap(l.num(2), 128), key = wrap(l.num(3), 128), vel = 1 + wrap(l.num(5) - 1, 127), c7 = wrap(l.num(6), 128), c11 = wrap(l.num(7), 128), pan = wrap(l.num(8), 128), msb = (int)l.num(9), lsb = (int)l.num(10), ch = drum ? 9 : melodic(l.num(4));
        if (msb == 0x78 || msb == 0x79) msb = -1; if (drum) msb = lsb = -1;
        Band r(Plan(), 1), b(Plan(), 1, 9, false); if (!r.ok || !b.ok) { v.fail("open", "band"); return; } int rc = drum ? 9 : 0;
        r.prog(0, rc, pr); r.cc(0, rc, 7, 127); r.note(0, rc, key, 127); r.st.render(W);
        if (msb >= 0) b.cc(0, ch, 0, msb); if (lsb >= 0 && msb >= 0) b.cc(0, ch, 32, lsb); b.prog(0, ch, pr); b.cc(0, ch, 7, c7); b.cc(0, ch, 11, c11); b.cc(0, ch, 10, pan); b.note(0, ch, key, vel); b.st.render(W);
        auto x = mono(r.st.pcm); size_t n = x.size(); double xx = 0, peak = 0; for (size_t i = 0; i < n; i++) { xx += x[i] * x[i]; peak = std::max({peak, (double)fabs(r.st.pcm.l[i]), (double)fabs(r.st.pcm.r[i]), (double)fabs(b.st.pcm.l[i]), (double)fabs(b.st.pcm.r[i])}); }
        double want = pow(vel / 127.0 * c7 / 127.0 * c11 / 127.0, 2), bl = level(b.st.pcm, 0, W), rl = level(r.st.pcm, 0, W); if (peak > 32000) continue;
        if (want == 0) { if (bl > 0) v.fail("level", fmt("%s %d key %d sounds although volume or expression is zero", drum ? "drum program" : "program", pr, key)); judged++; continue; }
        if (rl < 40) { if (bl > rl * want * 1.5 + 5) v.fail("level", fmt("program %d key %d: louder than at full level", pr, key)); continue; }
        double rL = dot(r.st.pcm.l, 0, x, 0, n) / xx, rR = dot(r.st.pcm.r, 0, x, 0, n) / xx, gL = dot(b.st.pcm.l, 0, x, 0, n) / xx, gR = dot(b.st.pcm.r, 0, x, 0, n) / xx;
        double g = sqrt(gL * gL + gR * gR) / sqrt(rL * rL + rR * rR), ang = atan2(gR, gL) * 180 / M_PI, ang0 = atan2(rR, rL) * 180 / M_PI, wa = std::max(0.0, std::min(90.0, ang0 + (pan - 64) * 90.0 / 127)), res = 0;
        for (size_t i = 0; i < n; i++) { double dl = b.st.pcm.l[i] - gL * x[i], dr = b.st.pcm.r[i] - gR * x[i]; res += dl * dl + dr * dr; } res = sqrt(res / (double)n);
        if (getenv("SIM_GM")) printf("LAW %d %d %d want %.4f got %.4f ang %.1f want %.1f (ref %.1f) res %.1f of %.1f ref %.0f\n", drum, pr, key, want, g, ang, wa, ang0, res, bl, rl);
        judged++; hh.u((u64)llround(gL * 10000)); hh.u((u64)llround(gR * 10000)); string who = fmt("%s %d key %d on channel %d (velocity %d, volume %d, expression %d, pan %d, bank %d/%d)", drum ? "drum program" : "program", pr, key, ch, vel, c7, c11, pan, msb, lsb);
        double slack = 2.5 / rl;
        if (g > want * 1.06 + 0.004 + slack || (want > 0.02 && g < want * 0.90 - 0.004 - slack)) v.fail("level", fmt("%s: %.4f of the full level instead of %.4f", who.c_str(), g, want));
        else if (bl > 60 && fabs(ang - wa) > 6) v.fail("balance", fmt("%s: balance angle %.1f instead of %.1f", who.c_str(), ang, wa));
        else if (bl > 60 && res > bl * 0.06 + 4) v.fail("wave", fmt("%s: sounds different from the reference note (%.1f of %.1f)", who.c_str(), res, bl)); }
    v.traceHash = hh.h; v.nontrivial = judged > 0; stat("sim.levels", (u64)judged);
}

static void playMix(Band &b, const Plan &p, i64 shift, int rot, int only) {
    i64 n = std::min<i64>(p.cfg("slices", 60), 2500); auto A = acts(p); size_t ai = 0; b.st.render(shift); int notes = 0;
    auto chan = [&](int i) { return i == 5 ? 9 : melodic(i + rot); };
    if (p.cfg("drum2", 0) && (only < 0 || only == 4)) { b.cc(0, chan(4), 0, 120); b.prog(0, chan(4), 0); }   // a second rhythm channel
    for (i64 k = 0; k < n; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) { const Act &a = A[ai]; const string &c = a.cmd(); int i = wrap(a.num(1), 6), ch = chan(i); if (c == "on" && ++notes > 44) continue; if (only >= 0 && i != only) continue;
            if (c == "on") b.note(0, ch, wrap(a.num(2), 128), 1 + wrap(a.num(3) - 1, 127)); else if (c == "off") b.off(0, ch, wrap(a.num(2), 128)); else if (c == "bend") b.bend(0, ch, wrap(a.num(2), 16384)); else if (c == "cc") { int z = wrap(a.num(2), 128); if (z != 0 && z != 32) b.cc(0, ch, z, wrap(a.num(3), 128)); }
            else if (c == "press") b.send(0, {0xd0 | ch, wrap(a.num(2), 128)}); else if (c == "prog") b.prog(0, ch, wrap(a.num(2), 128)); else if (c == "tune") { b.cc(0, ch, 101, 0); b.cc(0, ch, 100, 2); b.cc(0, ch, 6, wrap(a.num(2), 128)); b.cc(0, ch, 100, 1); b.cc(0, ch, 6, wrap(a.num(3), 128)); }
            else if (c == "alloff") for (int y = 0; y < 128; y++) b.off(0, ch, y); }
        b.st.render(); }
}
static void judgeMix(const Plan &p, Verdict &v) {
    Band a(Plan(), 1); if (!a.ok) { v.fail("open", "band"); return; } playMix(a, p, 0, 0, -1); const Pcm &x = a.st.pcm; size_t n = x.n(); i64 shift = std::max<i64>(0, std::min<i64>(50, p.cfg("shift", 0))); int rot = wrap(p.cfg("rot", 3), 15);
    Hash hh; for (u64 h : a.st.sliceHash) hh.u(h); v.traceHash = hh.h; v.nontrivial = level(x, 0, (i64)(n / SLICE)) > 5;
    { Band b(Plan(), 1, 9, false); playMix(b, p, shift, rot, -1); const Pcm &y = b.st.pcm; size_t o = (size_t)(shift * SLICE); for (size_t i = 0; i < n; i++) if (x.l[i] != y.l[o + i] || x.r[i] != y.r[o + i]) { v.fail("twin", fmt("the same music %lld slices later on channels moved by %d differs in slice %lld (%.0f %.0f / %.0f %.0f)", (long long)shift, rot, (long long)(i / SLICE), x.l[i], x.r[i], y.l[o + i], y.r[o + i])); return; } }
    vector<double> sl(n, 0), sr(n, 0); int parts = 0; set<int> used; for (auto &q : acts(p)) used.insert(wrap(q.num(1), 6));
    for (int i : used) { Band b(Plan(), 1, 9, false); playMix(b, p, 0, 0, i); const Pcm &y = b.st.pcm; parts++; for (size_t k = 0; k < n; k++) { if (fabs(y.l[k]) > 32000 || fabs(y.r[k]) > 32000) return; sl[k] += y.l[k]; sr[k] += y.r[k]; } }
    for (size_t k = 0; k < n; k++) if (fabs(sl[k]) < 32000 && fabs(sr[k]) < 32000 && (fabs(sl[k] - x.l[k]) > parts + 2 || fabs(sr[k] - x.r[k]) > parts + 2)) { v.fail("sum", fmt("slice %lld: together %.0f %.0f, each channel alone adds up to %.0f %.0f", (long long)(k / SLICE), x.l[k], x.r[k], sl[k], sr[k])); return; }
}

static void judgeHold(const Plan &p, Verdict &v) {
    i64 judged = 0; Hash hh;
    for (auto &l : p.lines) { if (l.tok(0) != "h" || v.violated) continue;
        bool drum = l.num(1) != 0; int pr = wrap(l.num(2), 128), key = wrap(l.num(3), 128), how = wrap(l.num(5), 4), ch = drum ? 9 : melodic(l.num(6)); i64 len = std::max<i64>(30, std::min<i64>(6000, l.num(4)));
        Band b(Plan(), 1); if (!b.ok) { v.fail("open", "band"); return; } b.prog(0, ch, pr); if (how == 1) b.cc(0, ch, 64, 127); b.note(0, ch, key, 110); b.st.render(len); if (how == 1) { b.off(0, ch, key); b.st.render(40); b.cc(0, ch, 64, 0); } else if (how == 2) b.cc(0, ch, 123, 0); else if (how == 3) b.cc(0, ch, 120, 0); else b.off(0, ch, key);
        i64 held = b.st.slice; i64 early = len > 80 ? 50 : 20; double e = level(b.st.pcm, early - 10, 10), m = level(b.st.pcm, len - 10, 10), lst = how == 1 ? level(b.st.pcm, held - 10, 10) : m;
        bool sus = !drum && in(SUSTAINED, pr) && key >= 60 && key <= 64; string who = fmt("%s %d key %d", drum ? "drum program" : "program", pr, key);
        if (sus) { if (e < 100) v.fail("silent", who + " is silent"); else if (m < e * 0.3 || m > e * 3 || lst < e * 0.3) v.fail("sustain", fmt("%s: level %.0f at first, %.0f and %.0f after %lld slices", who.c_str(), e, m, lst, (long long)len)); 
            if (!v.violated && in(PITCHED, pr) && len > 100) { auto x = mono(b.st.pcm); double cl, d = deviation(x, (size_t)((len - 40) * SLICE), (size_t)(28 * SLICE), 440 * pow(2, (key - 69) / 12.0), cl); if (cl < 0.45 || fabs(d) > 32) v.fail("pitch", fmt("%s: %.0f cents away after %lld slices (periodicity %.2f)", who.c_str(), d, (long long)len, cl)); } }
        i64 until = how == 3 ? 12 : drum ? 1800 : 1800, q = 0; for (; q < until && !v.violated; q++) { b.st.render(); if (q >= 3 && b.st.silent(b.st.slice - 3, 3)) break; }
        if (getenv("SIM_GM")) printf("HOLD %d %d %d len %lld e %.0f m %.0f lst %.0f release %lld how %d\n", drum, pr, key, (long long)len, e, m, lst, (long long)q, how);
        if (!v.violated && q >= until) v.fail("endless", fmt("%s still sounds %lld slices after its end", who.c_str(), (long long)until)); judged++; hh.u((u64)q); }
    v.traceHash = hh.h; v.nontrivial = judged > 0; stat("sim.holds", (u64)judged);
}

static void judgeDrum(const Plan &p, Verdict &v) {
    i64 judged = 0; Hash hh; const i64 tail = 30;
    for (auto &l : p.lines) { if (l.tok(0) != "d" || v.violated) continue;
        int k1 = wrap(l.num(1), 128), k2 = wrap(l.num(2), 128), tr = (int)std::max<i64>(-12, std::min<i64>(12, l.num(4))), pr = wrap(l.num(5), 128), vel = 1 + wrap(l.num(6) - 1, 127); i64 gap = std::max<i64>(0, std::min<i64>(200, l.num(3)));
        auto play = [&](int which, int transp, int prog) { auto b = std::make_unique<Band>(Plan(), 1, 9, which == 3); EAS_SetTransposition(b->st.in.h, b->host[0]->h, transp); if (prog) b->prog(0, 9, prog); if (which & 1) b->note(0, 9, k1, vel); b->st.render(gap); if (which & 2) b->note(0, 9, k2, vel); b->st.render(tail); return b; };
        auto both = play(3, tr, pr); auto one = play(1, 0, 0), two = play(2, 0, 0); const Pcm &x = both->st.pcm, &a = one->st.pcm, &c = two->st.pcm;
        bool choke = groupOf(k1) && groupOf(k1) == groupOf(k2); size_t from = choke ? (size_t)((gap + 6) * SLICE) : 0; double worst = 0; bool clip = false;
        for (size_t i = 0; i < x.n(); i++) { if (fabs(x.l[i]) > 32000 || fabs(x.r[i]) > 32000) clip = true; if (i < from) continue; double wl = c.l[i] + (choke ? 0 : a.l[i]), wr = c.r[i] + (choke ? 0 : a.r[i]); worst = std::max({worst, fabs(wl - x.l[i]), fabs(wr - x.r[i])}); }
        if (getenv("SIM_GM")) printf("DRUM %d %d gap %lld choke %d worst %.0f levels %.0f %.0f\n", k1, k2, (long long)gap, choke, worst, level(a, 0, gap + tail), level(c, gap, tail));
        judged++; hh.u((u64)llround(level(x, 0, gap + tail))); if (clip) continue;
        if (k1 >= 35 && k1 <= 81 && level(a, 0, 12) < 3 * vel / 127.0) v.fail("silent", fmt("drum key %d is silent", k1));
        else if (worst > 4) v.fail(choke ? "group" : "sum", fmt("drum keys %d and %d, %lld slices apart (transposition %d, program %d): %s, off by %.0f", k1, k2, (long long)gap, tr, pr, choke ? "the first does not give way to the second" : "together they are not the sum of both", worst)); }
    v.traceHash = hh.h; v.nontrivial = judged > 0; stat("sim.drums", (u64)judged);
}
// the pitch moves up and down by fifty cents for a full modulation wheel and as much again for a full channel pressure
static void judgeVib(const Plan &p, Verdict &v) {
    i64 judged = 0; Hash hh;
    for (auto &l : p.lines) { if (l.tok(0) != "w" || v.violated) continue;
        int pr = wrap(l.num(1), 128), key = wrap(l.num(2), 128), ch = melodic(l.num(3)), wheel = wrap(l.num(4), 128), press = wrap(l.num(5), 128); bool late = l.num(6) != 0; if (!in(SUSTAINED, pr) || !in(PITCHED, pr) || key < 60 || key > 76) continue;
        auto range = [&](int w, int c, bool first) { Band b(Plan(), 1, 9, first); b.prog(0, ch, pr); if (!late) { b.cc(0, ch, 1, w); b.send(0, {0xd0 | ch, c}); } b.note(0, ch, key, 110); b.st.render(20); if (late) { b.cc(0, ch, 1, w); b.send(0, {0xd0 | ch, c}); } b.st.render(170); auto x = mono(b.st.pcm); double lo = 1e9, hi = -1e9; int n = 0;
            for (i64 k = 24; k < 182; k += 2) { double cl, d = deviation(x, (size_t)(k * SLICE), (size_t)(4 * SLICE), 440 * pow(2, (key - 69) / 12.0), cl); if (cl < 0.9) continue; lo = std::min(lo, d); hi = std::max(hi, d); n++; } return n > 50 ? hi - lo : -1; };
        double want = 100.0 * (wheel + press) / 128, got = range(wheel, press, true), base = range(0, 0, false); if (getenv("SIM_GM")) printf("VIB %d %d want %.0f got %.0f base %.0f\n", pr, key, want, got, base);
        if (got < 0 || base < 0) continue; judged++; hh.u((u64)llround(got));
        if (want < 8 ? fabs(got - base) > 8 : want < 125 && fabs(got - base - 0.9 * want) > 0.12 * want + 6) v.fail("vibrato", fmt("program %d key %d: modulation %d and pressure %d move the pitch by %.0f cents instead of %.0f (without them: %.0f)", pr, key, wheel, press, got, want, base)); }
    v.traceHash = hh.h; v.nontrivial = judged > 0; stat("sim.vibratos", (u64)judged);
}
Verdict judge_L03(const Plan &p) { Verdict v; string m = p.cfgs("mode"); if (m == "pitch") judgePitch(p, v); else if (m == "law") judgeLaw(p, v); else if (m == "mix") judgeMix(p, v); else if (m == "hold") judgeHold(p, v); else if (m == "drum") judgeDrum(p, v); else if (m == "vib") judgeVib(p, v); return v; }
