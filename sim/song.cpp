// Song model: structure -> Standard MIDI File bytes, independent timeline, generators.
#include "sim.h"

static void be32(Bytes &b, u32 v) { for (int i = 3; i >= 0; i--) b.push_back((u8)(v >> (8 * i))); }
static void be16(Bytes &b, u32 v) { b.push_back((u8)(v >> 8)); b.push_back((u8)v); }
static void vlq(Bytes &b, u64 v, int pad = 0) { u8 t[10]; int n = 0; do { t[n++] = v & 0x7f; v >>= 7; } while (v); while (pad-- > 0 && n < 4) t[n++] = 0; for (int i = n - 1; i >= 0; i--) b.push_back(t[i] | (i ? 0x80 : 0)); }

Bytes encodeSong(const Song &s) {
    Rng r(s.enc >> 8); bool run = s.enc & 1, pad = s.enc & 2, alien = s.enc & 4, longHdr = s.enc & 8, junk = s.enc & 16;
    Rng r2((s.enc >> 8) * 31 + 7); int longs = s.enc & 32 ? 3 : 0;      // longs: meta events and other makers' messages of hundreds to ten thousands of bytes, which mean nothing here
    Bytes o; if (junk) { /* bytes before the header are only legal with header search on */ for (int i = 0; i < 40; i++) o.push_back((u8)r.range(0, 'L')); }
    const char *h = "MThd"; o.insert(o.end(), h, h + 4); be32(o, longHdr ? 10 : 6); be16(o, s.format); be16(o, s.ntrk); be16(o, s.smpte ? s.smpte : s.ppqn); if (longHdr) be32(o, 0x4d54726b);
    for (int t = 0; t < s.ntrk; t++) {
        if (alien && r.chance(0.5)) { const char *a = "XtRk"; o.insert(o.end(), a, a + 4); int n = (int)r.range(1, 23); be32(o, n); for (int i = 0; i < n; i++) o.push_back((u8)r.next()); }
        Bytes d; i64 cur = 0; int rs = -1; bool open = false;
        vector<const Ev *> ev; for (auto &e : s.ev) if (e.trk == t && !e.b.empty()) ev.push_back(&e);
        std::stable_sort(ev.begin(), ev.end(), [](const Ev *a, const Ev *b) { return a->tick < b->tick; });
        for (auto *e : ev) {
            vlq(d, (u64)std::max<i64>(0, e->tick - cur), pad && r.chance(0.3) ? (int)r.range(1, 3) : 0); cur = std::max(cur, e->tick);
            u8 st = e->b[0];
            if (longs && !open && st != 0xf7 && r2.chance(0.2)) { longs--; i64 n = r2.pick({r2.range(128, 600), r2.range(16000, 40000), r2.range(65000, 90000)}); bool meta = r2.chance(0.6);
                d.push_back(meta ? 0xff : 0xf0); if (meta) d.push_back((u8)r2.pick({0x7f, 4, 6, 0x60})); vlq(d, (u64)n); for (i64 i = 0; i < n; i++) d.push_back(meta ? (u8)r2.pick({0, 0x90, 0x3c, 0x64, 0xff, 0x2f, (int)r2.range(0, 255)}) : i == 0 ? 0x7d : i == n - 1 ? 0xf7 : (u8)r2.range(0, 127)); rs = -1; d.push_back(0); }
            if (st == 0xf0 || st == 0xf7) open = e->b.back() != 0xf7; else if (st < 0xf0) open = false;
            if (st == 0xff) { d.push_back(0xff); d.push_back(e->b.size() > 1 ? e->b[1] : 1); vlq(d, e->b.size() > 2 ? e->b.size() - 2 : 0, pad && r.chance(0.3) ? 1 : 0); for (size_t i = 2; i < e->b.size(); i++) d.push_back(e->b[i]); if (st == 0xff) rs = -1; }
            else if (st == 0xf0 || st == 0xf7) { d.push_back(st); vlq(d, e->b.size() - 1); d.insert(d.end(), e->b.begin() + 1, e->b.end()); rs = -1; }
            else { if (!(run && rs == st)) d.push_back(st); rs = st; d.insert(d.end(), e->b.begin() + 1, e->b.end()); }
        }
        i64 eot = t < (int)s.trkEot.size() && s.trkEot[t] >= 0 ? s.trkEot[t] : cur; vlq(d, (u64)std::max<i64>(0, eot - cur)); d.push_back(0xff); d.push_back(0x2f); d.push_back(0);
        const char *k = "MTrk"; o.insert(o.end(), k, k + 4); be32(o, (u32)d.size()); o.insert(o.end(), d.begin(), d.end());
    }
    return o;
}
void songToPlan(Plan &p, int fid, const Song &s) {
    p.add("S %d %d %d %d %llu %d", fid, s.format, s.ppqn, s.ntrk, (unsigned long long)s.enc, s.smpte);
    for (size_t t = 0; t < s.trkEot.size(); t++) if (s.trkEot[t] >= 0) p.add("Z %d %d %lld", fid, (int)t, (long long)s.trkEot[t]);
    for (auto &e : s.ev) p.add("E %d %d %lld %s", fid, e.trk, (long long)e.tick, hex(e.b).c_str());
}
bool songFromPlan(const Plan &p, int fid, Song &s) {
    bool ok = false; s = Song();
    for (auto &l : p.lines) if (l.t[0] == "S" && l.num(1) == fid) { s.format = (int)l.num(2); s.ppqn = (int)l.num(3); s.ntrk = (int)std::min<i64>(200, std::max<i64>(0, l.num(4))); s.enc = strtoull(l.tok(5).c_str(), nullptr, 10); s.smpte = (int)l.num(6); ok = true; }
    if (!ok) return false; s.trkEot.assign((size_t)s.ntrk, -1); int ord = 0;
    for (auto &l : p.lines) { if (l.t[0] == "Z" && l.num(1) == fid && l.num(2) >= 0 && l.num(2) < s.ntrk) s.trkEot[(size_t)l.num(2)] = l.num(3);
        if (l.t[0] == "E" && l.num(1) == fid) { Ev e; e.trk = (int)l.num(2); e.tick = l.num(3); e.b = unhex(l.tok(4)); e.order = ord++; if (e.trk >= 0 && e.trk < s.ntrk && !e.b.empty()) s.ev.push_back(e); } }
    return true;
}
// The file's own clock. A set-up bar - GM System On, a tempo and a time signature, all at time zero - is skipped: after the last
// of the three, time stands still until the first note.
vector<TEv> songTimeline(const Song &s, double *endMs, bool *setupBar) {
    double ppqn = s.ppqn > 0 && !(s.ppqn & 0x8000) ? s.ppqn : 192, us = 500000, ms = 0;
    struct P { vector<int> ev; size_t next = 0; i64 eot = 0; bool done = false, gm = false; Bytes sysex; }; vector<P> T((size_t)s.ntrk);
    for (size_t i = 0; i < s.ev.size(); i++) T[(size_t)s.ev[i].trk].ev.push_back((int)i);
    for (int t = 0; t < s.ntrk; t++) { auto &x = T[(size_t)t]; std::stable_sort(x.ev.begin(), x.ev.end(), [&](int a, int b) { return s.ev[(size_t)a].tick < s.ev[(size_t)b].tick; }); for (int i : x.ev) x.eot = std::max(x.eot, s.ev[(size_t)i].tick); if (t < (int)s.trkEot.size()) x.eot = std::max(x.eot, s.trkEot[(size_t)t]); }
    auto tickOf = [&](const P &x) { return x.next < x.ev.size() ? std::max<i64>(0, s.ev[(size_t)x.ev[x.next]].tick) : x.eot; };
    vector<double> when(s.ev.size(), 0); i64 now = 0; bool tempo = false, sig = false, gm = false, frozen = false, note = false; if (setupBar) *setupBar = false;
    for (P *cur = nullptr;;) {
        if (!cur || cur->done || tickOf(*cur) != now) { cur = nullptr; for (auto &x : T) if (!x.done && (!cur || tickOf(x) < tickOf(*cur))) cur = &x; if (!cur) break; i64 t = tickOf(*cur); if (!frozen) ms += (double)(t - now) * us / ppqn / 1000; now = t; }
        if (cur->next >= cur->ev.size()) cur->done = true;      // the end of the track is an event too
        else {
            int idx = cur->ev[cur->next++]; when[(size_t)idx] = ms; auto &b = s.ev[(size_t)idx].b; int st = b[0] & 0xf0;
            if (b[0] == 0xff) { if (b.size() >= 3 && b[1] == 0x51) { us = 0; for (size_t i = 2; i < b.size(); i++) us = us * 256 + b[i]; tempo = true; } else if (b.size() > 1 && b[1] == 0x58) sig = true; }
            else if (b[0] == 0xf0 || b[0] == 0xf7) {
                if (b[0] == 0xf0) cur->sysex.clear(); cur->sysex.insert(cur->sysex.end(), b.begin() + 1, b.end()); auto &y = cur->sysex;
                if (y.size() >= 4 && y[0] == 0x7e && y[1] == 0x7f && y[2] == 9 && (y[3] == 1 || y[3] == 3)) cur->gm = true;
                if (cur->gm && b.size() > 1) gm = true;
                if (b[0] == 0xf7 && b.size() == 4 && (b[1] & 0xf0) == 0x90 && b[3]) note = true;
            } else if (st == 0x90 && b.size() > 2 && b[2]) note = true;
        }
        if (ms == 0) { if (note) frozen = false; else if (tempo && sig && gm) { frozen = true; if (setupBar) *setupBar = true; } }
    }
    vector<TEv> o; for (size_t i = 0; i < s.ev.size(); i++) o.push_back({s.ev[i].trk, s.ev[i].tick, (int)i, when[i]});
    std::stable_sort(o.begin(), o.end(), [&](const TEv &a, const TEv &b) { return a.tick < b.tick; });
    if (endMs) *endMs = ms;
    return o;
}
bool hasSetupBar(const Song &s) { bool b; songTimeline(s, nullptr, &b); return b; }
// the opening of many files: a reset, a tempo and a time signature at time zero, notes later
void addSetupBar(Rng &r, Song &s) {
    vector<Bytes> m{{0xf0, 0x7e, 0x7f, 9, (u8)(r.chance(0.7) ? 1 : 3), 0xf7}, {0xff, 0x58, 4, 2, 24, 8}}; bool tempo = false; for (auto &e : s.ev) if (e.tick == 0 && e.b[0] == 0xff && e.b[1] == 0x51) tempo = true; if (!tempo) m.push_back({0xff, 0x51, 7, 0xa1, 0x20});
    if (r.chance(0.1)) m.erase(m.begin() + r.range(0, (i64)m.size() - 1));      // not a whole one
    i64 shift = r.pick({0, 1, (i64)s.ppqn, r.range(0, 4 * s.ppqn)}); int t0 = r.chance(0.7) ? 0 : (int)r.range(0, s.ntrk - 1); bool keep = r.chance(0.5);
    for (auto &e : s.ev) if (e.tick > 0 || ((e.b[0] & 0xf0) == 0x90 && r.chance(0.9)) || (!keep && e.b[0] != 0xff)) e.tick += shift;
    for (auto &e : s.trkEot) if (e >= 0) e += shift;
    for (auto &b : m) { size_t at = 0; while (at < s.ev.size() && s.ev[at].tick == 0 && r.chance(0.5)) at++; s.ev.insert(s.ev.begin() + (long)at, Ev{r.chance(0.8) ? t0 : (int)r.range(0, s.ntrk - 1), 0, b, 0}); }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); for (size_t i = 0; i < s.ev.size(); i++) s.ev[i].order = (int)i;
    for (size_t t = 0; t < s.trkEot.size(); t++) if (s.trkEot[t] >= 0) for (auto &e : s.ev) if (e.trk == (int)t) s.trkEot[t] = std::max(s.trkEot[t], e.tick);
}
Song genSong(Rng &r, const GenSongOpt &o) {
    Song s; s.ppqn = (int)r.pick({24, 48, 96, 120, 192, 240, 384, 480, 960, r.range(8, 2000)}); s.format = r.chance(0.35) ? 0 : 1;
    s.ntrk = s.format == 0 ? 1 : (int)r.range(1, o.maxTracks); s.enc = (u64)r.range(0, 15) | ((u64)r.range(0, 1 << 20) << 8);
    i64 tempoUs = r.pick({500000, 500000, 400000, 750000, 1000000, 250000, r.range(100000, 1500000)});
    while (tempoUs / 1000.0 / s.ppqn > 40) tempoUs /= 2;
    double msTick = 500.0 / s.ppqn; int ord = 0;
    auto put = [&](int t, i64 tick, Bytes b) { s.ev.push_back({t, tick, b, ord++}); };
    auto tempoEv = [](i64 us) { return Bytes{0xff, 0x51, (u8)(us >> 16), (u8)(us >> 8), (u8)us}; };
    if (msTick > 40) { put(0, 0, tempoEv(tempoUs)); msTick = tempoUs / 1000.0 / s.ppqn; }
    else if (o.tempo && r.chance(0.6)) { put(0, 0, tempoEv(tempoUs)); msTick = tempoUs / 1000.0 / s.ppqn; }
    if (o.meta && r.chance(0.4)) { Bytes b{0xff, 0x58, 4, 2, 24, 8}; put(0, 0, b); }
    i64 total = std::max<i64>(4, (i64)(o.maxMs / msTick)); if (total > 200000) total = 200000;
    i64 lead = r.chance(o.leadProb) ? r.range(1, std::max<i64>(1, total / 4)) : 0;
    if (o.meta) for (int i = 0, n = (int)r.range(0, 4); i < n; i++) { static const int ty[] = {1, 2, 3, 4, 5, 6, 7, 0x59, 0x7f, 0x21}; Bytes b{0xff, (u8)ty[r.range(0, 9)]}; int len = (int)r.pick({0, 1, 5, 30, 127, 130}); for (int k = 0; k < len; k++) b.push_back((u8)r.range(32, 126)); put((int)r.range(0, s.ntrk - 1), r.chance(0.5) ? 0 : r.range(0, total), b); }
    int nch = (int)r.range(1, 5); vector<int> ch; for (int i = 0; i < nch; i++) ch.push_back(o.drums && r.chance(0.2) ? 9 : (int)r.range(0, 15));
    for (int i = 0; i < nch; i++) if (r.chance(0.8)) put((int)r.range(0, s.ntrk - 1), lead ? r.range(0, lead) : 0, {(u8)(0xc0 | ch[i]), (u8)r.range(0, 127)});
    int nn = (int)r.range(1, o.maxNotes); vector<std::pair<int,int>> used;
    for (int i = 0; i < nn; i++) {
        int c = r.pick(ch), k = (int)(c == 9 ? r.range(35, 60) : r.range(36, 96)), v = (int)r.range(1, 127); int t = (int)r.range(0, s.ntrk - 1);
        if (!o.sameKeyOverlap) { bool dup = false; for (auto &u : used) if (u.first == c && u.second == k) dup = true; if (dup) continue; used.push_back({c, k}); }
        i64 on = lead + r.range(0, std::max<i64>(1, total - lead)), len = r.pick({0, 1, r.range(1, std::max<i64>(1, total / 8)), r.range(1, std::max<i64>(1, total / 2))});
        if (r.chance(0.3)) on = on / std::max(1, s.ppqn / 4) * std::max(1, s.ppqn / 4);
        put(t, on, {(u8)(0x90 | c), (u8)k, (u8)v});
        put(t, on + std::max<i64>(1, len), r.chance(0.5) ? Bytes{(u8)(0x80 | c), (u8)k, (u8)r.range(0, 127)} : Bytes{(u8)(0x90 | c), (u8)k, 0});
    }
    if (o.ccs) for (int i = 0, n = (int)r.range(0, 14); i < n; i++) {
        int c = r.pick(ch); i64 at = r.range(0, total); int t = (int)r.range(0, s.ntrk - 1);
        switch (r.range(0, 6)) { case 0: put(t, at, {(u8)(0xb0 | c), 7, (u8)r.range(0, 127)}); break; case 1: put(t, at, {(u8)(0xb0 | c), 10, (u8)r.range(0, 127)}); break; case 2: put(t, at, {(u8)(0xb0 | c), 11, (u8)r.range(0, 127)}); break;
        case 3: put(t, at, {(u8)(0xb0 | c), 64, (u8)r.range(0, 127)}); break; case 4: put(t, at, {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)}); break; case 5: put(t, at, {(u8)(0xd0 | c), (u8)r.range(0, 127)}); break;
        default: put(t, at, {(u8)(0xb0 | c), (u8)r.pick({1, 98, 99, 91, 93, 84, 65}), (u8)r.range(0, 127)}); }
    }
    if (o.tempo) for (int i = 0, n = (int)r.range(0, 3); i < n; i++) { i64 us = r.range(150000, 1200000); while (us / 1000.0 / s.ppqn > 40) us /= 2; i64 at = r.range(1, total); bool clash = false; for (auto &e : s.ev) if (e.tick == at && e.b[0] == 0xff && e.b[1] == 0x51) clash = true; if (!clash) put((int)r.range(0, s.ntrk - 1), at, tempoEv(us)); }
    if (o.sysex && r.chance(0.5)) put(0, r.range(0, total), {0xf0, 0x7f, 0x7f, 0x04, 0x01, (u8)r.range(0, 127), (u8)r.range(40, 127), 0xf7});
    s.trkEot.assign((size_t)s.ntrk, -1); for (int t = 0; t < s.ntrk; t++) if (r.chance(0.5)) { i64 m = 0; for (auto &e : s.ev) if (e.trk == t) m = std::max(m, e.tick); s.trkEot[t] = m + r.range(0, std::max<i64>(1, total / 8)); }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; });
    return s;
}
Bytes genMidiBytes(Rng &r, int n, bool wild) {
    Bytes b; 
    for (int i = 0; i < n; i++) {
        if (wild && r.chance(0.15)) { b.push_back((u8)r.next()); continue; }
        int c = r.chance(0.15) ? 9 : (int)r.range(0, 15), k = (int)r.range(0, 127);
        switch (r.range(0, 13)) {
        case 0: case 1: case 2: case 3: b.insert(b.end(), {(u8)(0x90 | c), (u8)k, (u8)r.range(0, 127)}); break;
        case 4: b.insert(b.end(), {(u8)(0x80 | c), (u8)k, (u8)r.range(0, 127)}); break;
        case 5: b.insert(b.end(), {(u8)(0xc0 | c), (u8)r.range(0, 127)}); break;
        case 6: b.insert(b.end(), {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)}); break;
        case 7: b.insert(b.end(), {(u8)(0xb0 | c), (u8)r.pick({0, 32, 1, 6, 38, 7, 10, 11, 64, 98, 99, 100, 101, 120, 121, 123, 124, 125, 126, 127, r.range(0, 127)}), (u8)r.range(0, 127)}); break;
        case 8: b.insert(b.end(), {(u8)(0xb0 | c), 101, 0, 100, (u8)r.range(0, 3), 6, (u8)r.range(0, 127), 38, (u8)r.range(0, 127)}); break;
        case 9: b.insert(b.end(), {(u8)(0xd0 | c), (u8)r.range(0, 127)}); break;
        case 10: b.insert(b.end(), {(u8)(0xb0 | c), 0, (u8)r.pick({0, 0x78, 0x79, 0x7f, 1}), 32, (u8)r.range(0, 127), (u8)(0xc0 | c), (u8)r.range(0, 127)}); break;
        case 11: switch (r.range(0, 3)) { case 0: b.insert(b.end(), {0xf0, 0x7e, 0x7f, 9, (u8)r.range(0, 3), 0xf7}); break; case 1: b.insert(b.end(), {0xf0, 0x7f, 0x7f, 4, 1, (u8)r.range(0, 127), (u8)r.range(0, 127), 0xf7}); break;
            case 2: { b.insert(b.end(), {0xf0, 0x7f, 0x7f, 0x0b, 1}); int m = (int)r.range(0, 18); for (int q = 0; q < m; q++) { b.push_back((u8)r.range(0, 15)); b.push_back((u8)r.range(0, 70)); } b.push_back(0xf7); break; }
            default: { b.push_back(0xf0); int m = (int)r.range(0, 12); for (int q = 0; q < m; q++) b.push_back((u8)r.range(0, 127)); if (r.chance(0.7)) b.push_back(0xf7); } } break;
        case 12: b.push_back((u8)r.range(0xf1, 0xff)); break;
        default: b.insert(b.end(), {(u8)(0xa0 | c), (u8)k, (u8)r.range(0, 127)}); break;
        }
    }
    return b;
}
