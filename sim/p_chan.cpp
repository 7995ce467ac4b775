// V05: channel controllers shape their own channel by their MIDI meaning.
// Plan: a collection (fid 9) and lines "e <slice> <channel> <status> <data1> <data2>" on one interactive player.
#include "band.h"

namespace {
const double MS = 1000.0 * SLICE / RATE;
struct Ins { int msb, lsb, prog; bool drum; double cps; bool vib; };      // cps: cycles per sample of its wave at unity key 60
vector<Ins> instruments(const Plan &p) {
    vector<Ins> v; map<int, double> cps; map<int, size_t> at; map<int, int> wave;
    for (auto &l : p.lines) if (l.t[0] == "W" && l.num(6) > 0) cps[(int)l.num(2)] = l.num(7) / 1000.0 / (double)l.num(6);
    for (auto &l : p.lines) if (l.t[0] == "G") wave[(int)l.num(2)] = (int)l.num(9);
    for (auto &l : p.lines) if (l.t[0] == "I" && wave.count((int)l.num(2)) && cps.count(wave[(int)l.num(2)])) { at[(int)l.num(2)] = v.size(); v.push_back({(int)l.num(3), (int)l.num(4), (int)l.num(5), l.num(6) != 0, cps[wave[(int)l.num(2)]], false}); }
    for (auto &l : p.lines) if (l.t[0] == "A" && at.count((int)l.num(2)) && l.num(5) == 0x81) v[at[(int)l.num(2)]].vib = true;
    return v;
}
// minimising may take a collection apart: only whole ones are judged
bool whole(const Plan &p) {
    bool d = false; set<int> ni, nw, ng, na; for (auto &l : p.lines) { if (l.t[0] == "D") d = true; else if (l.t[0] == "I") ni.insert((int)l.num(2)); else if (l.t[0] == "W") nw.insert((int)l.num(2)); else if (l.t[0] == "A" && l.num(6) == 521) na.insert((int)l.num(2)); }
    for (auto &l : p.lines) if (l.t[0] == "G") { if (!ni.count((int)l.num(2)) || !nw.count((int)l.num(9))) return false; ng.insert((int)l.num(2)); }
    for (auto &l : p.lines) if (l.t[0] == "A" && !ni.count((int)l.num(2))) return false;
    return d && ng == ni && na == ni && !ni.empty(); }
int vibCents(const Plan &p) { for (auto &l : p.lines) if (l.t[0] == "A" && l.num(5) == 0x81) return (int)(l.num(7) >> 16); return 0; }
const Ins *lookup(const vector<Ins> &v, int msb, int lsb, int prog, bool drum) {
    auto find = [&](int m, int l, int q) -> const Ins * { for (auto &i : v) if (i.msb == m && i.lsb == l && i.prog == q && i.drum == drum) return &i; return nullptr; };
    if (auto *i = find(msb, lsb, prog)) return i;
    if (msb == 0x79 || msb == 0x78) if (auto *i = find(0, lsb, prog)) return i;
    if (auto *i = find(0, 0, prog)) return i;
    return drum ? find(0, 0, 0) : nullptr;
}
struct Chan {
    int vol = 100, expr = 127, pan = 64, bend = 8192, range = 200, fine = 0, coarse = 0, rpnM = 127, rpnL = 127, mod = 0, msb = 0, lsb = 0; bool drum = false; const Ins *ins = nullptr; bool chosen = false;
    // the sounding note
    bool on = false; int key = 0, vel = 0, npan = 64; const Ins *nins = nullptr; bool ndrum = false;
    i64 since = -100; bool panSure = true;   // a repeated key may start a slice late, with a pan set meanwhile
    double freq() const { double c = key * 100 - 6000 + (bend - 8192) * (double)range / 8192 + (ndrum ? 0 : fine + coarse * 100); return nins->cps * 44100 * pow(2, c / 1200); }
    double gain() const { double g = (double)vol * expr / (100.0 * 127); return g * g * vel * vel / (127.0 * 127); }
};
struct Msg { i64 at; int ch, st, d1, d2; };
vector<Msg> messages(const Plan &p) { vector<Msg> m; for (auto &l : p.lines) if (l.t[0] == "e") m.push_back({std::max<i64>(0, std::min<i64>(4000, l.num(1))), (int)l.num(2) & 15, ((int)l.num(3) & 0x70) | 0x80, (int)l.num(4) & 127, (int)l.num(5) & 127}); std::stable_sort(m.begin(), m.end(), [](const Msg &a, const Msg &b) { return a.at < b.at; }); return m; }
void play(Band &b, const vector<Msg> &ms, i64 end, int only) {
    size_t i = 0; for (i64 t = 0; t < end; t++) {
        for (; i < ms.size() && ms[i].at <= t; i++) { const Msg &m = ms[i]; if (only >= 0 && m.ch != only) continue; int s = m.st; if (s > 0xe0) s = 0xe0; if (s == 0xc0 || s == 0xd0) b.send(0, {s | m.ch, m.d1}); else b.send(0, {s | m.ch, m.d1, m.d2}); }
        b.st.render(1); }
}
int commute(const Msg &m) {      // controllers that neither depend on nor affect the others
    if (m.st == 0xe0) return 1000;
    if (m.st == 0xd0) return 1001;
    if (m.st == 0xb0 && (m.d1 == 1 || m.d1 == 7 || m.d1 == 10 || m.d1 == 11)) return m.d1;
    return -1;
}
}

void gen_V05(Rng &r, Plan &p, bool thorough) {
    p.add("D 9 0"); int ni = (int)r.range(2, 6), vib = (int)r.pick({0, 0, 50, 100, 300}); set<string> used; vector<int> progs;
    for (int i = 0; i < ni; i++) {
        bool drum = i && r.chance(0.3); int msb = drum ? 0 : (int)r.pick({0, 0, 0, 1, 3}), lsb = drum ? 0 : (int)r.pick({0, 0, 2, 5}), prog = (int)(drum ? r.pick({0, 8, 40}) : i && r.chance(0.4) ? progs[0] : r.range(0, 127));
        if (!used.insert(fmt("%d %d %d %d", msb, lsb, prog, drum)).second) continue;
        int spc = (int)(24 + 6 * i + r.range(0, 4)), cyc = (int)r.range(2, 8), n = spc * cyc;
        p.add("W 9 %d 44100 16 sine %d %d 2500 0 %d 60 0 0", i, n, cyc * 1000, n); p.add("I 9 %d %d %d %d %d", i, msb, lsb, prog, drum); p.add("G 9 %d 0 127 0 127 0 0 %d", i, i); p.add("A 9 %d -1 0 0 521 %lld", i, (long long)-12000 * 65536);
        if (vib && r.chance(0.6)) p.add("A 9 %d -1 %d 129 3 %lld", i, (int)r.pick({1, 9}), (long long)vib * 65536);
        if (!drum) progs.push_back(prog); }
    vector<Ins> ins = instruments(p); int nc = (int)r.range(1, 4); set<int> chans; while ((int)chans.size() < nc) chans.insert((int)(r.chance(0.25) ? 9 : r.range(0, 15)));
    struct E { i64 at; string s; }; vector<E> out;
    for (int c : chans) {
        i64 t = r.range(0, 12), end = r.range(150, thorough ? 900 : 400); int key = -1; auto e = [&](int st, int a, int b) { out.push_back({t, fmt("e %lld %d %d %d %d", (long long)t, c, st, a, b)}); };
        auto value = [&] { return (int)r.pick({0, 1, 64, 63, 127, 100, r.range(0, 127), r.range(0, 127), r.range(40, 127)}); };
        auto select = [&] { const Ins &x = ins[(size_t)r.range(0, (i64)ins.size() - 1)]; bool wild = r.chance(0.15); int m = wild ? (int)r.pick({0x79, 0x78, 5, 1}) : x.msb, l = wild ? (int)r.pick({0, 2, 9}) : x.lsb; if (r.chance(0.85)) e(0xb0, 0, m); if (r.chance(0.6) || (l && r.chance(0.8))) e(0xb0, 32, l); if (r.chance(0.93)) e(0xc0, wild && r.chance(0.3) ? (int)r.range(0, 127) : x.prog, 0); };
        if (r.chance(0.9)) select();
        while (t < end) {
            switch (r.weighted({26, 10, 9, 9, 9, 10, 14, 4, 3, 5, 3, 6, 3, 2})) {
            case 0: if (key >= 0) e(0x80, key, 64); key = (int)r.range(44, 84); e(0x90, key, (int)r.pick({127, 127, 64, 100, r.range(1, 127)})); break;
            case 1: if (key >= 0) { if (r.chance(0.7)) e(r.chance(0.7) ? 0x80 : 0x90, key, 0); else e(0xb0, (int)r.pick({120, 123}), 0); key = -1; } break;
            case 2: e(0xb0, 7, value()); break;
            case 3: e(0xb0, 11, value()); break;
            case 4: e(0xb0, 10, value()); break;
            case 5: { int b = (int)r.pick({0, 8192, 16383, 8191, r.range(0, 16383), r.range(0, 16383)}); e(0xe0, b & 127, b >> 7); break; }
            case 6: { int rp = (int)r.pick({0, 0, 1, 2, 2, 3, 5}); int m = (int)(r.chance(0.9) ? 0 : r.pick({1, 127, 2})); vector<std::array<int, 3>> q; bool swap = r.chance(0.4); if (r.chance(0.93)) q.push_back({0xb0, 101, m}); if (r.chance(0.93)) q.push_back({0xb0, 100, rp}); if (swap && q.size() == 2) std::swap(q[0], q[1]);
                      for (auto &x : q) { e(x[0], x[1], x[2]); if (r.chance(0.15)) e(0xb0, 7, value()); if (r.chance(0.1)) t += r.range(1, 3); }
                      if (r.chance(0.9)) e(0xb0, 6, rp == 0 ? (int)r.range(0, 24) : rp == 2 ? (int)r.range(52, 76) : value()); if (r.chance(0.3)) e(0xb0, 38, value()); if (r.chance(0.25)) { e(0xb0, 101, 127); e(0xb0, 100, 127); } break; }
            case 7: e(0xb0, (int)r.pick({98, 99}), value()); if (r.chance(0.6)) e(0xb0, 6, value()); break;
            case 8: e(0xb0, 6, (int)r.range(0, 24)); break;
            case 9: e(0xb0, 1, value()); break;
            case 10: e(0xd0, value(), 0); if (r.chance(0.5)) e(0xa0, key < 0 ? 60 : key, value()); break;
            case 11: select(); break;
            case 12: e(0xb0, 121, 0); break;
            default: e(0xb0, (int)r.pick({2, 4, 5, 12, 16, 33, 39, 43, 65, 67, 70, 71, 74, 84, 91, 93, 94, 96, 97, 102, 119}), value()); break; }
            t += r.chance(0.4) ? 0 : r.chance(0.15) ? r.range(40, 60) : r.range(8, 20); }
    }
    std::stable_sort(out.begin(), out.end(), [](const E &a, const E &b) { return a.at < b.at; }); for (auto &x : out) p.add("%s", x.s.c_str());
}

Verdict judge_V05(const Plan &p) {
    Verdict v; vector<Msg> ms = messages(p); vector<Ins> ins = instruments(p); if (ms.empty() || ins.empty() || !whole(p)) { v.nontrivial = false; return v; }
    i64 end = ms.back().at + 30; set<int> chans; for (auto &m : ms) chans.insert(m.ch);
    double full = 0; { Plan q; q.add("D 9 0"); q.add("W 9 0 44100 16 sine 256 8000 2500 0 256 60 0 0"); q.add("I 9 0 0 0 0 0"); q.add("G 9 0 0 127 0 127 0 0 0"); Band ref(q, 1); if (!ref.ok) { v.fail("open", "the reference collection does not load"); return v; }
        ref.prog(0, 0, 0); ref.note(0, 0, 60, 127); ref.st.render(6); full = rms(ref.st.pcm.l, 2 * SLICE, 4 * SLICE); }
    Band all(p, 1, 9); if (!all.ok) { v.fail("open", "the collection does not load"); return v; }
    play(all, ms, end, -1);
    Hash hh; hh.u(fastHash(all.st.pcm.l.data(), all.st.pcm.l.size() * 4)); hh.u(fastHash(all.st.pcm.r.data(), all.st.pcm.r.size() * 4)); int checked = 0;
    // the order of independent settings made at the same moment does not matter
    { vector<Msg> rev = ms; bool changed = false; for (size_t i = 0; i < rev.size();) { size_t j = i; set<int> kinds; while (j < rev.size() && rev[j].at == rev[i].at && rev[j].ch == rev[i].ch && commute(rev[j]) >= 0 && kinds.insert(commute(rev[j])).second) j++; if (j > i + 1) { std::reverse(rev.begin() + (i64)i, rev.begin() + (i64)j); changed = true; } i = std::max(j, i + 1); }
      if (changed) { Band b(p, 1, 9, false); play(b, rev, end, -1); for (i64 k = 0; k < end && !v.violated; k++) if (b.st.sliceHash[(size_t)k] != all.st.sliceHash[(size_t)k]) v.fail("order", fmt("slice %lld differs when independent settings are made in the opposite order", (long long)k)); } }
    vector<float> sl(all.st.pcm.n()), sr(all.st.pcm.n()); vector<char> clip((size_t)end + 1);
    auto clips = [&](const Pcm &q) { for (size_t i = 0; i < q.n() && i / SLICE < clip.size(); i++) if (fabs(q.l[i]) > 32000 || fabs(q.r[i]) > 32000) clip[i / SLICE] = 1; };
    clips(all.st.pcm);
    for (int c : chans) {
        if (v.violated) break;
        Band b(p, 1, 9, false); play(b, ms, end, c); clips(b.st.pcm); auto &L = b.st.pcm.l, &R = b.st.pcm.r; for (size_t i = 0; i < sl.size(); i++) { sl[i] += L[i]; sr[i] += R[i]; }
        Chan s; s.drum = c == 9; s.ins = lookup(ins, 0, 0, 0, s.drum); if (!s.drum) s.ins = lookup(ins, 0x79, 0, 0, false);
        size_t i = 0; vector<Msg> own; for (auto &m : ms) if (m.ch == c) own.push_back(m);
        i64 lastOff = 0; bool unsure = false; // a built-in sound was heard: nothing is known about it
        while (i < own.size() && !v.violated) {
            i64 t = own[i].at;
            for (; i < own.size() && own[i].at == t; i++) { const Msg &m = own[i]; int a = m.d1, d = m.d2;
                if (m.st == 0x90 && d > 0) { if (s.on) unsure = true; s.on = true; s.key = a; s.vel = d; s.npan = s.pan; s.since = t; s.panSure = true; s.nins = s.ins; s.ndrum = s.drum; if (!s.nins) unsure = true; }
                else if (m.st == 0x80 || m.st == 0x90) { if (s.on && s.key == a) { s.on = false; lastOff = t; } }
                else if (m.st == 0xe0) s.bend = a | (d << 7);
                else if (m.st == 0xc0) { if (s.msb == 0x78) s.drum = true; else if (s.msb == 0x79) s.drum = false; s.ins = lookup(ins, s.msb, s.lsb, a, s.drum); }
                else if (m.st == 0xb0) switch (a) {
                    case 0: s.msb = d; s.lsb = 0; break;
                    case 32: s.lsb = d; break;
                    case 1: s.mod = d; break;
                    case 7: s.vol = d; break;
                    case 10: s.pan = d; if (t <= s.since + 2) s.panSure = false; break;
                    case 11: s.expr = d; break;
                    case 98: case 99: s.rpnM = s.rpnL = 127; break;
                    case 101: s.rpnM = d; break;
                    case 100: s.rpnL = d; break;
                    case 6: if (s.rpnM == 0) { if (s.rpnL == 0) s.range = d * 100; else if (s.rpnL == 1) s.fine = (((d << 7) - 8192) * 100) >> 13; else if (s.rpnL == 2) s.coarse = d - 64; } break;
                    case 121: s.mod = 0; s.expr = 127; s.bend = 8192; s.range = 200; s.fine = s.coarse = 0; s.rpnM = s.rpnL = 127; break;
                    case 120: case 123: case 124: case 125: case 126: case 127: if (s.on) lastOff = t; s.on = false; break;
                    default: break; } }
            i64 next = i < own.size() ? own[i].at : end, a = t + 5, z = next;   // a repeated key ends some steps late
            if (z - a < 4) continue;
            auto where = [&] { return fmt("channel %d slice %lld..%lld", c, (long long)a, (long long)z); };
            if (!s.on) { if (!unsure && a > lastOff + 5) { if (!b.st.silent(a + 3, z - a - 3)) v.fail("quiet", where() + ": sounds without a note"); checked++; } continue; }
            if (unsure || !s.nins || s.ndrum != s.drum) continue;
            double A = full * s.gain(), f = s.freq(), ang = (std::max(-63, s.npan - 64) + 63) / 126.0 * M_PI / 2, wl = A * M_SQRT2 * cos(ang), wr = A * M_SQRT2 * sin(ang);
            size_t o = (size_t)a * SLICE, n = (size_t)(z - a) * SLICE; double gl = rms(L, o, n), gr = rms(R, o, n);
            if (f < 130 || f > 7000) continue;
            if (s.panSure && (fabs(gl - wl) > 0.07 * A + 5 || fabs(gr - wr) > 0.07 * A + 5)) v.fail("level", fmt("%s: left %.0f right %.0f instead of %.0f and %.0f (volume %d expression %d velocity %d pan %d)", where().c_str(), gl, gr, wl, wr, s.vol, s.expr, s.vel, s.npan));
            if (hypot(gl, gr) > 1.05 * hypot(wl, wr) + 6 || hypot(gl, gr) < 0.95 * hypot(wl, wr) - 6) v.fail("level", fmt("%s: %.0f instead of %.0f (volume %d expression %d velocity %d)", where().c_str(), hypot(gl, gr), hypot(wl, wr), s.vol, s.expr, s.vel));
            checked++;
            const vector<float> &C = gl > gr ? L : R; if (std::max(gl, gr) < 40) continue;
            if (!s.nins->vib || s.mod == 0) { double got = toneFreq(C, o, n), tol = 0.003 * f + 0.15 * RATE / (double)n; if (fabs(got - f) > tol) v.fail("pitch", fmt("%s: %.2f Hz instead of %.2f Hz (bend %d range %d fine %d coarse %d)", where().c_str(), got, f, s.bend, s.range, s.fine, s.coarse)); }
            else if (z - a >= 38 && f > 350) { double lo = 1e9, hi = 0; for (i64 k = a; k + 3 <= z; k++) { double g = toneFreq(C, (size_t)k * SLICE, 3 * SLICE); lo = std::min(lo, g); hi = std::max(hi, g); }
                double depth = vibCents(p) * s.mod / 128.0, up = 1200 * log2(hi / f), dn = -1200 * log2(lo / f); if (fabs(up - depth) > 0.2 * depth + 12 || fabs(dn - depth) > 0.2 * depth + 12) v.fail("vibrato", fmt("%s: the pitch swings by +%.0f -%.0f cents instead of %.0f", where().c_str(), up, dn, depth)); }
        }
    }
    double lim = 3 + 3.0 * (double)chans.size(); if (!v.violated && chans.size() > 1) for (size_t i = 0; i < sl.size(); i++) if (i / SLICE < clip.size() && !clip[i / SLICE] && (fabs(sl[i] - all.st.pcm.l[i]) > lim || fabs(sr[i] - all.st.pcm.r[i]) > lim)) { v.fail("isolation", fmt("slice %zu: the channels together sound different from each of them alone (%.0f instead of %.0f)", i / SLICE, all.st.pcm.l[i], sl[i])); break; }
    stat("sim.windows_measured", (u64)checked); v.traceHash = hh.h; v.nontrivial = checked > 0; return v;
}
