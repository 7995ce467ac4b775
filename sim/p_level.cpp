// V01 volume, V02 transposition.
#include "band.h"

// ---------------------------------------------------------------- V01
// Header: volume is in decibel steps, 100 = full scale; a stream at 100 and the master at 90 are the defaults. The engine keeps
// 10 dB of headroom on both, so 10 and below is silence.
static double volGain(i64 v) { return v <= 10 ? 0 : pow(10, (double)(v - 110) / 20); }
// what fixed-point gains may lose: the master gain has 11 bits, a stream gain 15
static double quantErr(double master, double stream) { return (master > 0 ? 1.1 / (2048 * master) : 0) + (stream > 0 ? 3.0 / (32768 * stream) : 0); }

static Plan volCollection() { Plan q; q.add("D 9 0"); for (int p = 0; p < 2; p++) q.add("P 9 %d 0 0 %d 0 %d 48 24 1500", p, p, 20 + 40 * p); return q; }

void gen_V01(Rng &r, Plan &p, bool thorough) {
    i64 len = r.range(60, thorough ? 500 : 200);
    auto vol = [&]() -> long long { return r.pick({0, 100, 90, 50, 11, 10, 1, 99, -1, 101, 1000, r.range(0, 100), r.range(40, 100), r.range(60, 100), r.range(70, 100)}); };
    if (r.chance(0.3)) {
        p.add("cfg song 1");
        GenSongOpt o; o.maxNotes = 30; o.maxMs = 1200; o.tempo = r.chance(0.5); o.sameKeyOverlap = false; Song s = genSong(r, o); s.enc |= 1; songToPlan(p, 1, s);
        for (int i = 0, n = (int)r.range(1, 8); i < n; i++) p.add("a %lld %s 0 %lld", (long long)r.range(0, len), r.chance(0.5) ? "vol" : "mvol", vol());
        p.add("cfg slices %lld", (long long)len); return;
    }
    int pairs = (int)r.range(1, 2); p.add("cfg pairs %d", pairs);
    for (i64 k = 0; k < len; k += r.range(1, 12)) {
        int a = (int)r.range(0, pairs - 1);
        switch (r.weighted({30, 12, 30, 14, 3, 3, 3, 3})) {
            case 0: p.add("a %lld note %d %d", (long long)k, a, (int)r.range(48, 71)); break;
            case 1: p.add("a %lld off %d %d", (long long)k, a, (int)r.range(48, 71)); break;
            case 2: p.add("a %lld vol %d %lld", (long long)k, a, vol()); break;
            case 3: p.add("a %lld mvol 0 %lld", (long long)k, vol()); break;
            case 4: p.add("a %lld pause %d", (long long)k, a); break;
            case 5: p.add("a %lld resume %d", (long long)k, a); break;
            case 6: p.add("a %lld locate %d %lld", (long long)k, a, (long long)r.range(0, 20000)); break;
            default: p.add("a %lld gm %d", (long long)k, a); break;
        }
    }
    p.add("cfg slices %lld", (long long)len);
}
// level without the offset that truncating many quiet voices leaves
static double acLevel(const vector<float> &v, size_t a, size_t n) {
    double m = 0, e = rms(v, a, n); for (size_t i = a; i < a + n && i < v.size(); i++) m += v[i] / n;
    return sqrt(std::max(0.0, e * e - m * m));
}
static Verdict judgeSongVolume(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s)) { v.nontrivial = false; return v; }
    i64 n = std::min<i64>(p.cfg("slices", 100), 2000); SimFile f; f.data = encodeSong(s); Pcm ref;
    { Stage st; if (!st.file(&f, true, 0)) { v.fail("open", "song"); return v; } st.render(n); ref = st.pcm; }
    for (size_t i = 0; i < ref.n(); i++) if (fabs(ref.l[i]) > 32000 || fabs(ref.r[i]) > 32000) { v.nontrivial = false; return v; }
    Stage st; Str *a = st.file(&f, true, 0); if (!a) { v.fail("open", "song"); return v; }
    i64 mv = 90, sv = 100, last = -100; auto A = acts(p); size_t ai = 0; Hash hh;
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            bool m = A[ai].cmd() == "mvol"; if (!m && A[ai].cmd() != "vol") continue;
            i64 x = A[ai].num(2), r = EAS_SetVolume(st.in.h, m ? nullptr : a->h, x); bool ok = x >= 0 && x <= 100;
            if ((r == EAS_SUCCESS) != ok) v.fail("range", fmt("volume %lld returned %lld", (long long)x, (long long)r));
            if (ok) { (m ? mv : sv) = x; last = k; }
        }
        st.render();
        if (k - last < 4) continue;
        double gm = volGain(mv) / volGain(90), gs = volGain(sv) / volGain(100), g = gm * gs;
        for (int ch = 0; ch < 2; ch++) {
            auto &x = ch ? st.pcm.r : st.pcm.l; auto &y = ch ? ref.r : ref.l; size_t o = (size_t)(k - 1) * SLICE;
            double got = acLevel(x, o, 2 * SLICE), full = acLevel(y, o, 2 * SLICE), want = full * g;
            // voice gains have 15 bits and samples are truncated before the master gain: a quiet mixture is mostly that
            double tol = want * (0.04 + quantErr(volGain(mv), volGain(sv))) + (8 + full * 0.01) * std::max(0.5, gm);
            if (mv <= 10 && got > 0) v.fail("not-silent", fmt("master volume %lld but level %.2f in slice %lld", (long long)mv, got, (long long)k));
            bool clipped = false; for (size_t i = o; i < o + 2 * SLICE; i++) clipped = clipped || x[i] >= 32767 || x[i] <= -32768;
            if (clipped ? got > want + tol : fabs(got - want) > tol) v.fail("level", fmt("%s level %.1f instead of %.1f (stream %lld, master %lld, full %.1f) in slice %lld", ch ? "right" : "left", got, want, (long long)sv, (long long)mv, full, (long long)k));
            hh.u((u64)(got * 16));
        }
    }
    v.traceHash = hh.h; return v;
}
Verdict judge_V01(const Plan &p) {
    if (p.cfg("song")) return judgeSongVolume(p);
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); int pairs = (int)std::max<i64>(1, std::min<i64>(2, p.cfg("pairs", 1)));
    double A0 = 0; { Band b(volCollection(), 1); if (!b.ok) { v.fail("open", "reference"); return v; } b.note(0, 0, 60, 127); b.st.render(8); A0 = b.st.amp(20 + 12, 6); }
    if (A0 < 500) { v.fail("reference-level", fmt("the reference note measures %.1f", A0)); return v; }
    Band b(volCollection(), pairs); if (!b.ok) { v.fail("open", "band"); return v; }
    for (int i = 0; i < pairs; i++) b.prog(i, 0, i);
    i64 mv = 90; vector<i64> sv((size_t)pairs, 100), last((size_t)pairs, -100); vector<map<int, i64>> on((size_t)pairs);   // key -> slice it started in
    auto A = acts(p); size_t ai = 0; Hash hh; i64 checks = 0;
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const string &c = A[ai].cmd(); int q = wrap(A[ai].num(1), pairs); i64 x = A[ai].num(2); EAS_HANDLE h = b.host[(size_t)q]->h; auto &notes = on[(size_t)q]; int key = 48 + wrap(x - 48, 24);
            if (c == "note") { if (notes.size() < 4 && !notes.count(key)) { b.note(q, 0, key, 127); notes[key] = k; last[(size_t)q] = k; } }
            else if (c == "off") { if (notes.erase(key)) { b.off(q, 0, key); last[(size_t)q] = k; } }
            else if (c == "vol" || c == "mvol") {
                bool ok = x >= 0 && x <= 100; i64 r = EAS_SetVolume(b.st.in.h, c == "vol" ? h : nullptr, x);
                if ((r == EAS_SUCCESS) != ok) v.fail("range", fmt("volume %lld returned %lld", (long long)x, (long long)r));
                if (ok && c == "vol") { sv[(size_t)q] = x; last[(size_t)q] = k; } else if (ok) { mv = x; for (auto &z : last) z = k; }
            }
            else if (c == "pause") { if (EAS_Pause(b.st.in.h, h) == EAS_SUCCESS) { notes.clear(); last[(size_t)q] = k; } }
            else if (c == "resume") EAS_Resume(b.st.in.h, h);
            else if (c == "locate") { if (EAS_Locate(b.st.in.h, h, x, 0) == EAS_SUCCESS) { for (auto &z : notes) b.off(q, 0, z.first); notes.clear(); b.prog(q, 0, q); last[(size_t)q] = k + 1; } }
            else if (c == "gm") { b.send(q, {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}); notes.clear(); b.prog(q, 0, q); last[(size_t)q] = k; }
        }
        b.st.render();
        for (int q = 0; q < pairs; q++) {
            if (k - *std::max_element(last.begin(), last.end()) < 4) continue;   // a starting or ending tone leaks into every bin
            double gm = volGain(mv) / volGain(90), gs = volGain(sv[(size_t)q]) / volGain(100), want = A0 * gm * gs, tol = want * (0.03 + quantErr(volGain(mv), volGain(sv[(size_t)q]))) + 2 + A0 * gm * 0.01;   // the other tones leak a little
            for (auto &z : on[(size_t)q]) {
                double got = b.st.amp(20 + 40 * q + z.first - 48, k - 1); checks++; hh.u((u64)(got * 4));
                if (fabs(got - want) > tol) { v.fail(mv <= 10 || sv[(size_t)q] <= 10 ? "not-silent" : "level", fmt("player %d key %d measures %.2f instead of %.2f (tolerance %.2f, stream volume %lld, master %lld) in slice %lld", q, z.first, got, want, tol, (long long)sv[(size_t)q], (long long)mv, (long long)k)); break; }
            }
        }
        if (mv <= 10 && k - last[0] >= 4 && !b.st.silent(k, 1)) v.fail("not-silent", fmt("the master volume is %lld but slice %lld is not silent", (long long)mv, (long long)k));
    }
    stat("sim.level_checks", (u64)checks); v.nontrivial = checks > 0; v.traceHash = hh.h; return v;
}

// ---------------------------------------------------------------- V02
// One sine on every key, one note at a time per player; players sit hard left and hard right so that each channel of the output
// carries one tone whose frequency can be read from its zero crossings.
static Plan tuneCollection(int root = 60) {      // root: the key that plays TUNE_F60
    Plan q; q.add("D 9 0"); q.add("W 9 0 44100 16 sine 2048 32000 4000 0 1984 60 0 0");
    q.add("I 9 0 0 0 0 0"); q.add("G 9 0 0 127 0 127 0 0 0 %d 0 0 0 1984", root); q.add("A 9 0 -1 0 0 0x209 %lld", (long long)PROBE_REL << 16);
    q.add("I 9 1 0 0 0 1"); q.add("G 9 1 0 127 0 127 0 0 0 %d 0 0 0 1984", root); q.add("A 9 1 -1 0 0 0x209 %lld", (long long)PROBE_REL << 16);
    return q;
}
static const double TUNE_F60 = 44100.0 * 32 / 2048;

void gen_V02(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.3)) {   // against a twin whose notes are written at the transposed keys
        p.add("cfg kind 1"); if (r.chance(0.3)) p.add("cfg coll 1"); i64 len = r.range(60, thorough ? 500 : 200); p.add("cfg slices %lld", (long long)len);
        for (int i = (int)r.range(0, 4); i > 0; i--) p.add("a 0 prog %d %d", (int)r.range(0, 3), (int)r.range(0, 127));
        for (i64 k = 0; k < len; k += r.range(1, 8)) {
            int ch = (int)r.pick({0, 0, 1, 2, 3, 9, 9});
            switch (r.weighted({45, 30, 12, 4, 3, 3})) {
                case 0: p.add("a %lld note 0 %d %d %d", (long long)k, (int)(r.chance(0.15) ? r.range(0, 127) : r.range(30, 90)), ch, (int)r.range(30, 127)); break;
                case 1: p.add("a %lld off 0 %d", (long long)k, (int)r.range(0, 7)); break;
                case 2: p.add("a %lld transp 0 %lld", (long long)k, (long long)r.pick({0, 12, -12, 1, -1, r.range(-12, 12), r.range(-12, 12)})); break;
                case 3: p.add("a %lld prog %d %d", (long long)k, ch, (int)r.range(0, 127)); break;
                case 4: p.add("a %lld bank 0 %d %d", (long long)k, (int)r.pick({2, 3, 9}), (int)r.chance(0.6)); break;
                default: p.add("a %lld ped 0 %d %d", (long long)k, ch, (int)r.pick({0, 127})); break;
            }
        }
        return;
    }
    int pairs = (int)r.range(1, 2); p.add("cfg pairs %d", pairs); if (r.chance(0.35)) p.add("cfg shift %d", (int)r.pick({31, -24})); i64 len = r.range(60, thorough ? 600 : 240);
    for (i64 k = 0; k < len; k += r.range(1, 10)) {
        int a = (int)r.range(0, pairs - 1);
        switch (r.weighted({30, 22, 40, 2, 2, 2, 4, 5})) {
            case 0: p.add("a %lld note %d %d %d", (long long)k, a, (int)r.range(24, 96), r.chance(0.3) ? 9 : (int)r.pick({0, 1, 15})); break;
            case 1: p.add("a %lld off %d", (long long)k, a); break;
            case 2: p.add("a %lld transp %d %lld", (long long)k, a, (long long)r.pick({0, 12, -12, 13, -13, 100, 1, -1, r.range(-12, 12), r.range(-12, 12), r.range(-12, 12)})); break;
            case 3: p.add("a %lld pause %d", (long long)k, a); break;
            case 4: p.add("a %lld resume %d", (long long)k, a); break;
            case 5: p.add("a %lld locate %d %lld", (long long)k, a, (long long)r.range(0, 20000)); break;
            case 6: p.add("a %lld ped %d %d", (long long)k, a, (int)r.pick({0, 127})); break;
            default: p.add("a %lld bank %d %d %d", (long long)k, a, (int)r.pick({0, 1, 9, 15}), (int)r.chance(0.6)); break;
        }
    }
    p.add("cfg slices %lld", (long long)len);
}
// Built-in and loaded sounds with a transposition against a twin whose melodic notes are written that much higher: bit for bit alike.
static Verdict judgeTransposedTwin(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); Plan none; Plan coll = p.cfg("coll", 0) ? tuneCollection() : none;
    Band a(coll, 1), b(coll, 1, 9, false); if (!a.ok || !b.ok) { v.fail("open", "band"); return v; }
    struct N { int ch, key, twin; }; vector<N> on; bool rhythm[16]; for (int c = 0; c < 16; c++) rhythm[c] = c == 9;
    i64 tr = 0, transposed = 0; auto A = acts(p); size_t ai = 0, seen = 0;
    auto check = [&](i64 k) { for (; seen < a.st.sliceHash.size() && seen < b.st.sliceHash.size(); seen++) if (a.st.sliceHash[seen] != b.st.sliceHash[seen]) { v.fail("pitch", fmt("with transposition %lld the notes do not sound as the keys %lld higher do (slice %lld)", (long long)tr, (long long)tr, (long long)k)); return; } };
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const string &c = A[ai].cmd();
            if (c == "note") { int key = wrap(A[ai].num(2), 128), ch = wrap(A[ai].num(3), 16), vel = 1 + wrap(A[ai].num(4) - 1, 127), t = key + (rhythm[ch] ? 0 : (int)tr); bool dup = t < 0 || t > 127; for (auto &x : on) if (x.ch == ch && (x.key == key || x.twin == t)) dup = true; if (dup || on.size() >= 12) continue; a.note(0, ch, key, vel); b.note(0, ch, t, vel); on.push_back({ch, key, t}); }
            else if (c == "off") { if (on.empty()) continue; size_t i = (size_t)wrap(A[ai].num(2), (int)on.size()); a.off(0, on[i].ch, on[i].key); b.off(0, on[i].ch, on[i].twin); on.erase(on.begin() + (long)i); }
            else if (c == "prog") { int ch = wrap(A[ai].num(1), 16), pr = wrap(A[ai].num(2), 128); a.prog(0, ch, pr); b.prog(0, ch, pr); }
            else if (c == "bank") { int ch = wrap(A[ai].num(2), 16); bool any = false; for (auto &x : on) if (x.ch == ch) any = true; if (any) continue; rhythm[ch] = A[ai].num(3) != 0; for (Band *z : {&a, &b}) { z->cc(0, ch, 120, 0); z->st.render(2); z->cc(0, ch, 0, rhythm[ch] ? 0x78 : 0x79); z->prog(0, ch, 0); } }
            else if (c == "ped") { int ch = wrap(A[ai].num(2), 16); a.cc(0, ch, 64, (int)A[ai].num(3) & 127); b.cc(0, ch, 64, (int)A[ai].num(3) & 127); }
            else if (c == "transp") {   // in silence: a sounding note would move, its twin would not
                i64 x = A[ai].num(2); if (x < -12 || x > 12) continue;
                for (Band *z : {&a, &b}) { for (int ch = 0; ch < 16; ch++) { z->cc(0, ch, 120, 0); z->cc(0, ch, 64, 0); } z->st.render(2); }
                on.clear(); if (EAS_SetTransposition(a.st.in.h, a.host[0]->h, x) != EAS_SUCCESS) v.fail("range", fmt("transposition %lld refused", (long long)x)); tr = x; transposed++;
            }
        }
        a.st.render(); b.st.render(); check(k);
    }
    Hash hh; for (auto x : a.st.sliceHash) hh.u(x); stat("sim.twin_slices", (u64)seen); stat("sim.transpositions", (u64)transposed); v.nontrivial = transposed > 0; v.traceHash = hh.h; return v;
}
Verdict judge_V02(const Plan &p) {
    if (p.cfg("kind", 0) == 1) return judgeTransposedTwin(p);
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); int pairs = (int)std::max<i64>(1, std::min<i64>(2, p.cfg("pairs", 1)));
    int shift = (int)std::max<i64>(-24, std::min<i64>(31, p.cfg("shift", 0)));      // to the ends of the keyboard
    Band b(tuneCollection(60 + shift), pairs); if (!b.ok) { v.fail("open", "band"); return v; }
    struct P { int key = -1, ch = 0; i64 tr = 0, last = -100; std::map<int, bool> rhythm; bool drum(int c) const { auto i = rhythm.find(c); return i == rhythm.end() ? c == 9 : i->second; } }; vector<P> P_((size_t)pairs);
    auto bank = [&](int q, int c, bool drum) { b.cc(q, c, 0, drum ? 0x78 : 0x79); b.cc(q, c, 32, 0); b.prog(q, c, 0); };
    auto setup = [&](int q) { for (int c = 0; c < 16; c++) b.cc(q, c, 10, q ? 127 : 0); for (auto &x : P_[(size_t)q].rhythm) bank(q, x.first, x.second); };
    for (int q = 0; q < pairs; q++) setup(q);
    auto A = acts(p); size_t ai = 0; Hash hh; i64 checks = 0, transposed = 0;
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const string &c = A[ai].cmd(); int q = wrap(A[ai].num(1), pairs); auto &s = P_[(size_t)q]; EAS_HANDLE h = b.host[(size_t)q]->h; EAS_DATA_HANDLE E = b.st.in.h;
            if (c == "note") { if (s.key < 0 && k - s.last >= 2) { s.key = 24 + shift + wrap(A[ai].num(2) - 24, 73); s.ch = wrap(A[ai].num(3), 16); b.note(q, s.ch, s.key, 127); s.last = k; } }
            else if (c == "off") { if (s.key >= 0) { b.off(q, s.ch, s.key); s.key = -1; s.last = k; } }
            else if (c == "bank") { int ch = wrap(A[ai].num(2), 16); if (s.key >= 0 || k - s.last < 4) continue; s.rhythm[ch] = A[ai].num(3) != 0; bank(q, ch, s.rhythm[ch]); }
            else if (c == "transp") {
                i64 x = A[ai].num(2); bool ok = x >= -12 && x <= 12; i64 r = EAS_SetTransposition(E, h, x);
                if ((r == EAS_SUCCESS) != ok) v.fail("range", fmt("transposition %lld returned %lld", (long long)x, (long long)r));
                if (ok) { s.tr = x; s.last = k; transposed++; }
            }
            else if (c == "pause") { if (EAS_Pause(E, h) == EAS_SUCCESS) { s.key = -1; s.last = k + 1; } }
            else if (c == "resume") EAS_Resume(E, h);
            else if (c == "locate") { if (EAS_Locate(E, h, A[ai].num(2), 0) == EAS_SUCCESS) { if (s.key >= 0) b.off(q, s.ch, s.key); setup(q); s.key = -1; s.last = k + 1; } }   // to the current position it does nothing
        }
        b.st.render();
        for (int q = 0; q < pairs && !v.violated; q++) {
            auto &s = P_[(size_t)q]; auto &x = q ? b.st.pcm.r : b.st.pcm.l;
            if (s.key < 0) { if (k - s.last >= 4 && rms(x, (size_t)k * SLICE, SLICE) > 100) v.fail("stranded", fmt("player %d still sounds (level %.1f) %lld slices after its last note ended, slice %lld", q, rms(x, (size_t)k * SLICE, SLICE), (long long)(k - s.last), (long long)k)); continue; }
            if (k - s.last < 5) continue;
            double semis = s.key + (s.drum(s.ch) ? 0 : (double)s.tr) - 60 - shift, want = TUNE_F60 * pow(2, semis / 12), got = toneFreq(x, (size_t)(k - 3) * SLICE, 4 * SLICE); checks++; hh.u((u64)(got * 64));
            if (rms(x, (size_t)(k - 3) * SLICE, 4 * SLICE) < 200) { v.fail("silent", fmt("player %d key %d does not sound in slice %lld (transposition %lld)", q, s.key, (long long)k, (long long)s.tr)); break; }
            if (want * 4 * SLICE / RATE < 4) continue;   // too few periods in the window
            if (fabs(got / want - 1) > 0.006) v.fail("pitch", fmt("player %d channel %d key %d with transposition %lld sounds at %.1f Hz instead of %.1f Hz in slice %lld", q, s.ch, s.key, (long long)s.tr, got, want, (long long)k));
        }
    }
    stat("sim.pitch_checks", (u64)checks); stat("sim.transpositions", (u64)transposed); v.nontrivial = checks > 0; v.traceHash = hh.h; return v;
}
