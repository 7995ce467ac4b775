// V06 universal system-exclusive messages: master volume, GM reset, scalable-polyphony masks; everything else is ignored.
#include "band.h"

static const int NCH = 15;                                                   // every channel but the rhythm channel
static int chanOf(int i) { return i < 9 ? i : i + 1; }
static int binOf(int q, int i) { return 20 + 40 * q + 2 * i; }
static Plan sysexCollection() { Plan q; q.add("D 9 0"); for (int p = 0; p < 2; p++) q.add("P 9 %d 0 0 %d 0 %d 48 %d 400 0 2", p, p, 20 + 40 * p, NCH); return q; }

// a message of channel/limit pairs "c:m,c:m,..." in the plan
static vector<std::pair<int, int>> mipOf(const string &s) { vector<std::pair<int, int>> v; size_t i = 0; while (i < s.size() && v.size() < 16) { size_t e = s.find(',', i); if (e == string::npos) e = s.size(); size_t c = s.find(':', i); if (c != string::npos && c < e) v.push_back({atoi(s.c_str() + i), atoi(s.c_str() + c + 1) & 127}); i = e + 1; } return v; }
static string genMip(Rng &r) {
    vector<int> ch; for (int i = 0; i < 16; i++) ch.push_back(i); for (int i = 15; i > 0; i--) std::swap(ch[(size_t)i], ch[(size_t)r.range(0, i)]);
    int n = (int)r.pick({1, 2, 3, 4, 6, 10, 15, 16, r.range(1, 16)}), cum = (int)r.range(1, 4); string s; bool odd = r.chance(0.15);
    for (int i = 0; i < n; i++) { s += fmt("%s%d:%d", i ? "," : "", ch[(size_t)i], odd ? (int)r.range(0, 127) : cum); cum = std::min<int>(127, cum + (int)r.pick({0, 1, 1, 2, 4, r.range(0, 20)})); }
    return s; }

void gen_V06(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.03)) { p.add("cfg fine 1"); for (int i = 0, n = (int)r.range(2, thorough ? 24 : 10); i < n; i++) p.add("fv %lld %d", (long long)(r.chance(0.5) ? r.range(800, 4000) : r.range(800, 16383)), (int)r.chance(0.2)); return; }
    int pairs = (int)r.range(1, 2); p.add("cfg pairs %d", pairs); i64 k = 6, steps = r.range(8, thorough ? 120 : 40); double mip = (double)r.pick({1, 4, 8}) * 0.05, burst = (double)r.pick({0, 6, 12}) * 0.05;
    if (r.chance(0.5)) for (int q = 0; q < pairs; q++) p.add("a 0 poly %d %lld", q, (long long)r.pick({1, 2, 4, 8, 16, r.range(1, 30)}));
    if (r.chance(0.3)) p.add("a 0 spoly 0 %lld", (long long)r.pick({2, 4, 8, 16, 32}));
    for (i64 i = 0; i < steps; i++) { int q = (int)r.range(0, pairs - 1);
        if (r.chance(mip)) p.add("a %lld mip %d %s", (long long)k, q, genMip(r).c_str());
        else switch (r.weighted({40, 18, 10, 6, 6, 4, 4, 3, 3})) {
            case 0: for (int j = 0, n = r.chance(burst) ? (int)r.range(2, 15) : 1; j < n; j++) p.add("a %lld on %d %d", (long long)k, q, (int)r.range(0, NCH - 1)); break;
            case 1: for (int j = 0, n = r.chance(burst) ? (int)r.range(2, 15) : 1; j < n; j++) p.add("a %lld off %d %d", (long long)k, q, (int)r.range(0, NCH - 1)); break;
            case 2: p.add("a %lld mvol %d %lld", (long long)k, q, (long long)r.pick({16383, 127 * 128, 8192, r.range(0, 16383), r.range(0, 16383), 0, 127})); break;
            case 3: p.add("a %lld poly %d %lld", (long long)k, q, (long long)r.pick({0, 1, 2, 4, 8, 16, 64, 65, 200, r.range(1, 64)})); break;
            case 4: p.add("a %lld spoly 0 %lld", (long long)k, (long long)r.pick({1, 2, 4, 8, 16, 64, r.range(1, 64)})); break;
            case 5: p.add("a %lld gm %d %d", (long long)k, q, (int)r.pick({1, 1, 3})); break;
            case 6: p.add("a %lld bad %d %s", (long long)k, q, genMip(r).c_str()); break;
            case 7: p.add("a %lld locate %d %lld", (long long)k, q, (long long)r.range(0, 60000)); break;
            default: p.add("a %lld junk %d %d %d", (long long)k, q, (int)r.range(0, 9), (int)r.range(0, 127)); break; }
        k += r.chance(0.75) ? r.range(10, 13) : r.range(0, 2); }
    p.add("cfg slices %lld", (long long)k + 14);
}
// one loud note under a series of master volumes: all fourteen bits of the message count
static Verdict judgeFineVolume(const Plan &p) {
    Verdict v; Plan q; q.add("D 9 0"); q.add("W 9 0 44100 16 sine 256 8000 18000 0 256 60 0 0"); q.add("I 9 0 0 0 0 0"); q.add("G 9 0 0 127 0 127 0 0 0"); Band b(q, 1); if (!b.ok) { v.fail("open", "band"); return v; }
    b.prog(0, 0, 0); auto level = [&]() { b.st.render(4); return goertzel(b.st.pcm.l, b.st.pcm.n() - 2 * SLICE, 2 * SLICE, 1378.125 / RATE); }; auto set = [&](i64 x) { b.send(0, {0xf0, 0x7f, 0x7f, 4, 1, (int)(x & 127), (int)(x >> 7), 0xf7}); };
    set(16383); b.note(0, 0, 60, 127); b.st.render(4); double full = level(); int n = 0; Hash hh;
    for (auto &l : p.lines) { if (l.t[0] != "fv" || v.violated) continue; i64 x = std::max<i64>(800, std::min<i64>(16383, l.num(1))); if (l.num(2)) { b.cc(0, 0, 120, 0); b.st.render(3); } set(x); if (l.num(2)) { b.note(0, 0, 60, 127); b.st.render(4); }
        double got = level(), want = full * (double)x / 16383 * (double)x / 16383; n++; hh.u((u64)llround(got)); if (fabs(got - want) > 0.03 * want + 3) v.fail("fine-level", fmt("master volume %lld of 16383: the note sounds at %.1f instead of %.1f", (long long)x, got, want)); }
    stat("sim.volumes", (u64)n); v.traceHash = hh.h; v.nontrivial = n > 0; return v;
}
Verdict judge_V06(const Plan &p) {
    if (p.cfg("fine")) return judgeFineVolume(p);
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); int pairs = (int)std::max<i64>(1, std::min<i64>(2, p.cfg("pairs", 1)));
    double full; { Band ref(sysexCollection(), 1); if (!ref.ok) { v.fail("open", "band"); return v; } ref.send(0, {0xf0, 0x7f, 0x7f, 4, 1, 127, 127, 0xf7}); ref.note(0, 0, 48, 127); ref.st.render(8); full = ref.st.spectrum(4, 4)[20]; }
    Band b(sysexCollection(), pairs); if (!b.ok) { v.fail("open", "band"); return v; }
    struct Pl { set<int> on; i64 poly = 0; map<int, int> mip; bool spmidi = false; double gain = 0.3162; bool known = true; vector<i64> freed; }; vector<Pl> P((size_t)pairs); i64 G = VOICES; EAS_DATA_HANDLE E = b.st.in.h;
    auto programs = [&](int q) { for (int i = 0; i < NCH; i++) b.prog(q, chanOf(i), q); }; for (int q = 0; q < pairs; q++) programs(q);
    auto limit = [&](int q) { return std::min(G, P[(size_t)q].poly ? P[(size_t)q].poly : (i64)VOICES); };
    auto masked = [&](int q, int i) { Pl &t = P[(size_t)q]; if (!t.spmidi) return false; auto f = t.mip.find(chanOf(i)); i64 have = limit(q); return f == t.mip.end() || f->second == 0 || f->second > have; };
    auto A = acts(p); size_t ai = 0; i64 last = 0, checks = 0, masks = 0; Hash hh; bool crowded = false; int newest = -1, newestQ = -1;
    auto stopMasked = [&](int q, i64 k) { Pl &t = P[(size_t)q]; for (auto it = t.on.begin(); it != t.on.end();) if (masked(q, *it)) { t.freed.push_back(k); if (q == newestQ && newest == *it) newest = -1; it = t.on.erase(it); masks++; } else ++it; };
    auto crowd = [&](i64 k) { i64 all = 0; for (int q = 0; q < pairs; q++) { i64 c = (i64)P[(size_t)q].on.size(); for (i64 f : P[(size_t)q].freed) if (f > k - 10) c++; all += c; if (c > limit(q)) crowded = true; } if (all > G) crowded = true; };
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const Act &a = A[ai]; const string &c = a.cmd(); int q = wrap(a.num(1), pairs), i = wrap(a.num(2), NCH); Pl &t = P[(size_t)q]; EAS_HANDLE h = b.host[(size_t)q]->h;
            if (c == "on") { if (t.on.count(i)) continue; b.note(q, chanOf(i), 48 + i, 127); if (!masked(q, i)) { t.on.insert(i); newest = i; newestQ = q; } }
            else if (c == "off") { b.off(q, chanOf(i), 48 + i); if (t.on.erase(i)) t.freed.push_back(k); if (newest == i && newestQ == q) newest = -1; }
            else if (c == "mip" || c == "bad") { auto m = mipOf(a.tok(2)); if (m.empty()) continue; Bytes s{0xf0, 0x7f, 0x7f, 0x0b, 1}; set<int> seen; bool dup = false; for (auto &x : m) { dup = dup || x.first < 0 || x.first > 15 || !seen.insert(x.first).second; } if (dup || (c == "bad" && m.size() > 15)) continue;
                for (auto &x : m) { s.push_back((u8)x.first); s.push_back((u8)x.second); } if (c == "bad") s.push_back(0x2a); s.push_back(0xf7); b.st.write(b.mid[(size_t)q], s);
                t.mip.clear(); if (c == "bad") { t.spmidi = false; continue; } t.spmidi = true; for (auto &x : m) t.mip[x.first] = x.second; stopMasked(q, k); }
            else if (c == "mvol") { i64 x = std::max<i64>(0, std::min<i64>(16383, a.num(2))); b.send(q, {0xf0, 0x7f, 0x7f, 4, 1, (int)(x & 127), (int)(x >> 7), 0xf7}); double g = (double)(x * 2) / 32768; t.gain = g * g; t.known = true; }
            else if (c == "gm") { b.send(q, {0xf0, 0x7e, 0x7f, 9, (int)a.num(2) == 3 ? 3 : 1, 0xf7}); programs(q); for (size_t j = 0; j < t.on.size(); j++) t.freed.push_back(k); t.on.clear(); t.spmidi = false; t.mip.clear(); if (fabs(t.gain - 0.3162) > 0.001) t.known = false; if (newestQ == q) newest = -1; }
            else if (c == "locate") { if (EAS_Locate(E, h, std::max<i64>(0, a.num(2)), 0) != EAS_SUCCESS) continue; EAS_Resume(E, h); programs(q); for (size_t j = 0; j < t.on.size(); j++) t.freed.push_back(k); t.on.clear(); t.spmidi = false; t.mip.clear(); if (fabs(t.gain - 0.3162) > 0.001) t.known = false; if (newestQ == q) newest = -1; }
            else if (c == "poly") { i64 x = std::max<i64>(0, a.num(2)); EAS_SetPolyphony(E, h, x); t.poly = x > VOICES ? 0 : x; stopMasked(q, k); newest = -1; }
            else if (c == "spoly") { i64 x = std::max<i64>(1, a.num(2)); EAS_SetSynthPolyphony(E, 0, x); G = std::min<i64>(VOICES, x); for (int z = 0; z < pairs; z++) stopMasked(z, k); newest = -1; }
            else if (c == "junk") { int d = wrap(a.num(3), 128); Bytes s; switch (wrap(a.num(2), 10)) {       // messages that are not for us or that nobody defined
                case 0: s = {0xf0, 0x7f, (u8)(d % 127), 4, 1, 0, 1, 0xf7}; break; case 1: s = {0xf0, 0x7e, (u8)(d % 127), 9, 1, 0xf7}; break; case 2: s = {0xf0, 0x7f, (u8)(d % 127), 0x0b, 1, 3, 1, 0xf7}; break;
                case 3: s = {0xf0, 0x43, 0x7f, 4, 1, 0, 0, 0xf7}; break; case 4: s = {0xf0, 0x7f, 0x7f, 4, (u8)(d == 1 ? 2 : d), 0, 0, 0xf7}; break; case 5: s = {0xf0, 0x7e, 0x7f, 9, (u8)(d == 1 || d == 3 ? 2 : d), 0xf7}; break;
                case 6: s = {0xf0, 0x7f, 0x7f, 0x0b, (u8)(d == 1 ? 2 : d), 0, 1, 0xf7}; break; case 7: s = {0xf0, 0x7f, 0x7f, (u8)(d == 4 || d == 11 ? 5 : d), 1, 0, 0, 0xf7}; break; case 8: s = {0xf0, 0x7e, 0x7f, 4, 1, 0, 0, 0xf7}; break; default: s = {0xf0, 0x7f, 0x7f, 9, 1, 0xf7}; break; }
                b.st.write(b.mid[(size_t)q], s); continue; }
            else continue;
            crowd(k); last = k;
        }
        b.st.render(); if (k - last != 8) continue;
        checks++; auto sp = b.st.spectrum(k - 3, 4);
        for (int q = 0; q < pairs && !v.violated; q++) { Pl &t = P[(size_t)q];
            double want = full * t.gain; bool audible = t.known && want > 8; set<int> heard; double floor = t.known ? std::max(2.0, want * 0.16) : std::max(2.0, full * 0.02);
            for (int i = 0; i < NCH; i++) { double a = sp[(size_t)binOf(q, i)]; bool h = a > floor; if (h) heard.insert(i);
                if (h && !t.on.count(i) && a > 4) { v.fail(masked(q, i) ? "masked-sounds" : "sounds", fmt("slice %lld: player %d channel %d sounds at %.0f although %s", (long long)k, q, chanOf(i), a, masked(q, i) ? "it is masked" : "nothing plays there")); break; }
                if (!t.on.count(i) || !audible) continue;
                if (!h && !crowded) { v.fail("lost", fmt("slice %lld: player %d channel %d should sound at %.0f but is silent", (long long)k, q, chanOf(i), want)); break; }
                if (h && (crowded ? a - want : fabs(a - want)) > want * 0.08 + 3) { v.fail("level", fmt("slice %lld: player %d channel %d sounds at %.1f instead of %.1f", (long long)k, q, chanOf(i), a, want)); break; } }
            if (v.violated) break;
            if (audible && crowded) { if (newest >= 0 && newestQ == q && pairs == 1 && !heard.count(newest)) { v.fail("newest", fmt("slice %lld: the newest note, on channel %d, is silent", (long long)k, chanOf(newest))); break; } }
            hh.u(heard.size()); for (int i : heard) hh.u((u64)i); }
        if (crowded) { for (int q = 0; q < pairs; q++) { Pl &t = P[(size_t)q]; bool aud = t.known && full * t.gain > 8; if (!aud) { for (int i : t.on) b.off(q, chanOf(i), 48 + i); t.on.clear(); continue; } for (auto it = t.on.begin(); it != t.on.end();) if (sp[(size_t)binOf(q, *it)] > std::max(2.0, full * t.gain * 0.16)) ++it; else it = t.on.erase(it); } crowded = false; }
        newest = -1;
    }
    stat("sim.masked_notes", (u64)masks); v.traceHash = hh.h; v.nontrivial = checks > 2; return v;
}
