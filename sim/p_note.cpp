// V04 note lifetimes: which notes sound is exactly what the MIDI messages say.
#include "band.h"

static const int KEYS = 13, PARTS = 8, NOTE_AMP = 600;
static int binOf(int prog, int key) { return 20 + 26 * prog + 2 * key; }      // even bins: two voices of one bin never cancel
static Plan noteCollection() {
    Plan q; q.add("D 9 0");
    for (int drum = 0; drum < 2; drum++)
        for (int p = 0; p < PARTS; p++) q.add("P 9 %d 0 0 %d %d %d 48 %d %d 0 2", drum * PARTS + p, p, drum, binOf(p, 0), KEYS, NOTE_AMP);
    return q;
}

void gen_V04(Rng &r, Plan &p, bool thorough) {
    bool builtin = r.chance(0.15); if (builtin) p.add("cfg builtin 1");
    int pairs = (int)r.range(1, 2); p.add("cfg pairs %d", pairs);
    set<std::pair<int, int>> used;
    for (int i = 0; i < PARTS; i++) {      // parts: distinct (pair, channel)
        int q = (int)r.range(0, pairs - 1), c = (int)(r.chance(0.2) ? 9 : r.range(0, 15));
        if (used.insert({q, c}).second) p.add("p %d %d %d", i, q, c);
    }
    if (!builtin && r.chance(0.3)) {      // few voices: any note may be stolen or dropped, but none may stay
        p.add("cfg poly %lld", (long long)r.pick({1, 2, 2, 3, 4, r.range(1, 8)})); p.add("cfg polyof %d", (int)r.range(0, 1));
    }
    i64 len = r.range(40, thorough ? 500 : 220); int focus = (int)r.range(0, 7), keys = (int)r.range(1, KEYS);
    double burst = r.pick({0, 1, 2}) * 0.3;
    for (i64 k = 0; k < len; k += r.chance(burst) ? 0 : r.chance(0.4) ? r.range(1, 3) : r.range(5, 14)) {
        int part = r.chance(0.5) ? focus : (int)r.range(0, PARTS - 1), key = (int)r.range(0, keys - 1);
        if (r.chance(0.08)) {      // short notes on many channels within one render step
            for (int i = 0; i < PARTS; i++) if (r.chance(0.6)) { int y = (int)r.range(0, keys - 1); p.add("a %lld on %d %d 100", (long long)k, i, y); p.add("a %lld off %d %d 0", (long long)k, i, y); }
            continue;
        }
        switch (r.weighted({40, 30, 14, 4, 3, 3, 2, 5})) {
            case 0: p.add("a %lld on %d %d %d", (long long)k, part, key, (int)(r.chance(0.1) ? 0 : r.pick({127, 64, 100, 80}))); break;
            case 1: p.add("a %lld off %d %d %d", (long long)k, part, key, (int)r.range(0, 1)); break;
            case 2: p.add("a %lld ped %d %d", (long long)k, part, (int)r.pick({0, 127, 63, 64, 127, 0, 127, 0})); break;
            case 3: p.add("a %lld mode %d %d", (long long)k, part, (int)r.pick({120, 123, 124, 125, 126, 127})); break;
            case 4: p.add("a %lld reset %d", (long long)k, part); break;
            case 5: p.add("a %lld prog %d %d", (long long)k, part, (int)r.range(0, PARTS - 1)); break;
            case 6: p.add("a %lld gm %d %d", (long long)k, (int)r.range(0, pairs - 1), (int)r.pick({1, 3})); break;
            default: p.add("a %lld junk %d %d %d", (long long)k, part, (int)r.range(0, 7), (int)r.range(0, 127)); break;
        }
    }
    p.add("cfg slices %lld", (long long)len + 16);
}

namespace {
struct Voice { int key, bin, state; };      // state: 1 sounds, 2 held by the pedal, 3 may sound, 4 may be held by the pedal
struct Part {
    int pair = 0, ch = 0, prog = 0; bool pedal = false; i64 pedalDown = -1;
    vector<Voice> v; map<int, int> offs; vector<std::pair<Voice, i64>> ended;      // note-offs received by an ambiguous group; voices and the slice they ended in
    bool use = false;
};
struct NoteModel {
    vector<Part> parts{PARTS}; bool steal = false;
    int live() const { int n = 0; for (auto &p : parts) n += (int)p.v.size(); return n; }
    static bool justEnded(Part &p, int key, i64 k) { for (auto &e : p.ended) if (e.first.key == key && k - e.second < 5) return true; return false; }
    static void end(Part &p, size_t i, i64 k) { p.ended.push_back({p.v[i], k}); p.v.erase(p.v.begin() + (long)i); }
    void on(Part &p, int key, i64 k) {
        int same = 0; for (auto &v : p.v) if (v.key == key) same++;
        if (same >= 2 || (same == 1 && justEnded(p, key, k)))      // more than two voices of one key: the oldest give way
            for (auto &v : p.v) if (v.key == key) v.state = v.state == 2 || v.state == 4 ? 4 : 3;
        if (steal) { for (auto &x : parts) for (auto &v : x.v) v.state = v.state == 2 || v.state == 4 ? 4 : 3; p.v.push_back({key, binOf(p.prog, key), 3}); }      // any voice may have given way to any other
        else p.v.push_back({key, binOf(p.prog, key), 1});
    }
    void off(Part &p, int key, i64 k) {
        vector<size_t> on; for (size_t i = 0; i < p.v.size(); i++) if (p.v[i].key == key && (p.v[i].state == 1 || p.v[i].state == 3)) on.push_back(i);
        if (on.empty()) return;
        if (on.size() == 1) { auto &v = p.v[on[0]]; bool sure = v.state == 1; if (p.pedal) v.state = sure ? 2 : 4; else end(p, on[0], k); p.offs.erase(key); return; }
        for (size_t i : on) p.v[i].state = 3;
        if (++p.offs[key] < (int)on.size()) return;
        p.offs.erase(key);
        for (size_t i = on.size(); i-- > 0;) if (p.pedal) p.v[on[i]].state = 4; else end(p, on[i], k);
    }
    void pedalUp(Part &p, i64 k) {
        p.pedal = false;
        for (size_t i = p.v.size(); i-- > 0;) if (p.v[i].state == 2 || p.v[i].state == 4) end(p, i, k);
    }
    void pedalDown(Part &p, i64 k) {
        if (p.pedal) return;
        p.pedal = true;
        for (auto &e : p.ended) if (k - e.second < 5) p.v.push_back({e.first.key, e.first.bin, 4});      // the pedal may catch a dying note
    }
    void allOff(Part &p, i64) { p.v.clear(); p.offs.clear(); p.ended.clear(); }
};
}

Verdict judge_V04(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); int pairs = (int)std::max<i64>(1, std::min<i64>(2, p.cfg("pairs", 1))); bool builtin = p.cfg("builtin");
    double full = 0;
    if (!builtin) { Band ref(noteCollection(), 1); ref.note(0, 0, 48, 127); ref.st.render(8); full = ref.st.amp(binOf(0, 0), 6); }
    Band b(builtin ? Plan() : noteCollection(), pairs); if (!b.ok) { v.fail("open", "band"); return v; }
    NoteModel m; auto &P = m.parts;
    if (i64 poly = builtin ? 0 : std::min<i64>(VOICES, p.cfg("poly"))) {
        m.steal = true; if (p.cfg("polyof")) EAS_SetSynthPolyphony(b.st.in.h, 0, poly); else for (auto *h : b.host) EAS_SetPolyphony(b.st.in.h, h->h, poly);
    }
    for (auto &l : p.lines) if (l.t[0] == "p") {
        int i = wrap(l.num(1), PARTS), q = wrap(l.num(2), pairs), c = wrap(l.num(3), 16); bool dup = false;
        for (auto &x : P) dup = dup || (x.use && x.pair == q && x.ch == c);
        if (dup || P[(size_t)i].use) continue;
        P[(size_t)i].use = true; P[(size_t)i].pair = q; P[(size_t)i].ch = c; P[(size_t)i].prog = i; b.prog(q, c, i);
    }
    auto A = acts(p); size_t ai = 0; i64 last = 0, checks = 0, silentSince = 0; Hash hh; set<int> binsUsed;
    auto doOn = [&](Part &t, int key, int vel, i64 k) {
        if (m.live() >= 24) return;
        b.note(t.pair, t.ch, 48 + key, vel); if (vel) { m.on(t, key, k); binsUsed.insert(binOf(t.prog, key)); } else m.off(t, key, k);
    };
    auto finish = [&](i64 k) {      // end everything that may still sound
        for (auto &t : P) if (t.use) {
            for (int key = 0; key < KEYS; key++) for (int i = 0; i < 24; i++) { bool any = false; for (auto &x : t.v) any = any || (x.key == key && x.state != 2 && x.state != 4); if (!any && i) break; b.off(t.pair, t.ch, 48 + key); m.off(t, key, k); }
            b.cc(t.pair, t.ch, 64, 0); m.pedalUp(t, k);
        }
    };
    for (i64 k = 0; k < n && !v.violated; k++) {
        bool act = false;
        for (; ai < A.size() && A[ai].at <= k && k < n - 16; ai++) {
            const string &c = A[ai].cmd(); act = true;
            if (c == "gm") {
                int q = wrap(A[ai].num(1), pairs); b.send(q, {0xf0, 0x7e, 0x7f, 9, A[ai].num(2) == 3 ? 3 : 1, 0xf7});
                for (auto &t : P) if (t.use && t.pair == q) { m.allOff(t, k); t.pedal = false; t.prog = 0; }
                continue;
            }
            Part &t = P[(size_t)wrap(A[ai].num(1), PARTS)]; if (!t.use) continue;
            int key = wrap(A[ai].num(2), KEYS);
            if (c == "on") doOn(t, key, A[ai].num(3) ? std::max(50, wrap(A[ai].num(3), 128)) : 0, k);
            else if (c == "off") { if (A[ai].num(3)) b.note(t.pair, t.ch, 48 + key, 0); else b.off(t.pair, t.ch, 48 + key); m.off(t, key, k); }
            else if (c == "ped") { int x = wrap(A[ai].num(2), 128); b.cc(t.pair, t.ch, 64, x); if (x >= 64) m.pedalDown(t, k); else m.pedalUp(t, k); }
            else if (c == "mode") { b.cc(t.pair, t.ch, wrap(A[ai].num(2), 128), 0); int x = wrap(A[ai].num(2), 128); if (x == 120 || x >= 123) m.allOff(t, k); else if (x == 121 || x == 64) m.pedalUp(t, k); }
            else if (c == "reset") { b.cc(t.pair, t.ch, 121, 0); m.pedalUp(t, k); }
            else if (c == "prog") { t.prog = wrap(A[ai].num(2), PARTS); b.prog(t.pair, t.ch, builtin ? (int)(t.prog * 16 + t.ch) & 127 : t.prog); }
            else if (c == "junk") {
                int x = wrap(A[ai].num(3), 128);
                switch (wrap(A[ai].num(2), 8)) {
                    case 0: b.cc(t.pair, t.ch, 1, x); break;
                    case 1: b.cc(t.pair, t.ch, 66, x); break;
                    case 2: b.cc(t.pair, t.ch, 67, x); break;
                    case 3: b.cc(t.pair, t.ch, 91, x); break;
                    case 4: b.send(t.pair, {0xd0 | t.ch, x}); break;
                    case 5: b.send(t.pair, {0xa0 | t.ch, 48 + key, x}); break;
                    case 6: b.send(t.pair, {0xf0, 0x7d, x, 0xf7}); break;
                    default: b.send(t.pair, {0xf8}); break;
                }
            }
        }
        if (k == n - 16) { finish(k); act = true; }
        if (act) last = k;
        b.st.render();
        if (m.live()) silentSince = k + 1;
        if (builtin) continue;
        if (k - last < 6) continue;
        set<int> must, may; for (auto &t : P) for (auto &x : t.v) { may.insert(x.bin); if (x.state == 1 || x.state == 2) must.insert(x.bin); }
        for (int bin : binsUsed) {
            double a = b.st.amp(bin, k - 1); checks++;
            int prog = (bin - 20) / 26, key = (bin - 20) % 26 / 2;
            if (must.count(bin) && a < full * 0.1) { v.fail("lost", fmt("program %d key %d does not sound (level %.3f) in slice %lld", prog, 48 + key, a, (long long)k)); break; }
            if (!may.count(bin) && a > full * 0.03) { v.fail("stuck", fmt("program %d key %d still sounds (level %.1f) in slice %lld", prog, 48 + key, a, (long long)k)); break; }
        }
        hh.u(must.size() * 1000003 + may.size()); for (int x : must) hh.u((u64)x);
        if (k - silentSince > 8 && !b.st.silent(k, 1)) v.fail("not-silent", fmt("no note is left but slice %lld is not silent", (long long)k));
    }
    if (builtin && !v.violated) {
        i64 lim = 1724 * 2; i64 k = 0;      // twenty seconds
        for (; k < lim; k++) { b.st.render(); if (b.st.silent(b.st.slice - 1, 1)) { if (k > 4 && b.st.silent(b.st.slice - 4, 4)) break; } }
        if (k >= lim) v.fail("endless", fmt("all notes ended, yet it still sounds after %lld slices", (long long)lim));
        hh.u((u64)k);
    }
    stat("sim.note_checks", (u64)checks); v.traceHash = hh.h; v.nontrivial = checks > 0 || builtin; return v;
}
