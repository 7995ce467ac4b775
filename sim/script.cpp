#include "script.h"
static void mutate(Rng &r, Plan &p, int fid, i64 size, int n) {
    for (int i = 0; i < n; i++) { i64 o = r.chance(0.5) ? r.range(0, std::min<i64>(size, 120)) : r.range(0, size);
        switch (r.range(0, 8)) { case 0: case 1: p.add("M %d %lld %02x", fid, (long long)o, (int)r.range(0, 255)); break; case 2: p.add("M %d %lld %02x%02x%02x%02x", fid, (long long)o, (int)r.pick({0, 0xff, 0x7f, 0x80}), (int)r.pick({0, 0xff, 0x7f}), (int)r.pick({0, 0xff, 1}), (int)r.range(0, 255)); break;
            case 3: p.add("INS %d %lld %s", fid, (long long)o, hex(genMidiBytes(r, 2, true)).c_str()); break; case 4: p.add("DEL %d %lld %d", fid, (long long)o, (int)r.range(1, 12)); break; case 5: if (r.chance(0.3)) p.add("T %d %lld", fid, (long long)o); break; case 6: p.add("INS %d %lld ff%02x%02x%02x", fid, (long long)o, (int)r.range(0, 127), (int)r.range(0, 255), (int)r.range(0, 255)); break; case 7: p.add("M %d %lld %02x%02x", fid, (long long)o, (int)r.range(0, 255), (int)r.range(0, 255)); break; default: p.add("M %d %lld %s", fid, (long long)o, r.chance(0.5) ? "ffffffff" : "00000000"); } } }
void genDls(Rng &r, Plan &p, int fid, bool wild) {
    p.add("D %d %d", fid, (int)r.pick({0, 0, 4, 37, 300})); int nw = (int)r.range(1, 5);
    for (int i = 0; i < nw; i++) { int n = (int)r.pick({wild ? 1 : 64, wild ? 2 : 128, 64, 512, 1000, r.range(16, 3000)}); i64 ls = r.chance(0.6) ? r.range(0, n / 2) : -1, ll = r.range(wild ? 0 : 8, std::max(9, n / 3)); if (!wild && ls >= 0 && (ls + ll) * 2 > 2 * n - 2) ls = -1; if (wild && r.chance(0.2)) { ls = r.pick({0, n - 1, n, 0x7fffffff, -5, 0x40000000}); ll = r.pick({0, 1, n, 0x7fffffff, -1, 0xffffffffll}); }
        p.add("W %d %d %d %d sine %d %d %d %lld %lld %d %d %lld", fid, i, (int)r.pick({22050, 44100, 8000, wild ? 0 : 11025, wild ? 0x7fffffff : 48000}), (int)(r.chance(0.3) ? 8 : wild && r.chance(0.1) ? r.range(0, 40) : 16), n, (int)r.range(1000, 20000), (int)r.range(100, 30000), (long long)ls, (long long)ll, (int)r.range(wild ? 0 : 36, wild ? 255 : 84), (int)r.range(-50, 50), (long long)r.pick({0, 0, -6553600, 6553600, wild ? 0x7fffffff : -3276800})); }
    int ni = (int)r.range(1, 4); for (int i = 0; i < ni; i++) { bool dr = r.chance(0.25); p.add("I %d %d %d %d %d %d", fid, i, (int)(r.chance(0.7) ? 0 : r.pick({0x79, 0x78, 1, 127})), (int)(r.chance(0.8) ? 0 : r.range(0, 127)), (int)(dr ? 0 : r.range(0, 127)), dr);
        int nr = (int)r.range(1, 4), lo = 0; for (int g = 0; g < nr; g++) { int hi = g == nr - 1 ? 127 : (int)std::min<i64>(127, lo + r.range(5, 60)); p.add("G %d %d %d %d %d %d %d %d %d", fid, i, lo, hi, 0, 127, (int)r.chance(0.2), (int)(r.chance(0.2) ? r.range(0, 15) : 0), (int)(wild && r.chance(0.15) ? r.pick({nw, nw, nw + 1, r.range(0, 400), 0xffff}) : r.range(0, nw - 1)));
            for (int a = 0, m = (int)r.range(0, 4); a < m; a++) { static const int src[] = {0, 1, 2, 3, 4, 5, 0x81, 0x87, 0x8a}, dst[] = {1, 3, 4, 0x104, 0x105, 0x206, 0x207, 0x209, 0x20a, 0x30a, 0x30b, 0x30c, 0x30d, 0x30e, 0x500, 0x501}; p.add("A %d %d %d %d %d %d %lld", fid, i, g, wild && r.chance(0.1) ? (int)r.range(0, 0xffff) : src[r.range(0, 8)], wild && r.chance(0.1) ? (int)r.range(0, 0xffff) : (int)r.pick({0, 0, 0, 0x81, 2}), wild && r.chance(0.1) ? (int)r.range(0, 0xffff) : dst[r.range(0, 15)], (long long)(r.chance(0.2) ? r.pick({(i64)0x7fffffff, -(i64)0x7fffffff - 1, 0, 1, -1}) : r.range(-12000ll * 65536, 1200ll * 65536))); }
            if (r.chance(0.3)) { p.add("A %d %d %d 0 0 1280 %lld", fid, i, g, (long long)r.range(wild ? 0 : 5000, 14000) * 65536); p.add("A %d %d %d 0 0 1281 %lld", fid, i, g, (long long)r.pick({r.range(0, 225), r.range(0, 225), r.range(225, 240), r.range(240, 2000), (i64)(wild ? 32767 : 225)}) * 65536); }
            lo = hi + 1; if (lo > 127) break; }
        if (r.chance(0.15)) for (auto &l : p.lines) if (l.t[0] == "I" && l.num(1) == fid && l.num(2) == i && l.t.size() == 7) l.t.push_back(fmt("%d", (int)(wild && r.chance(0.2) ? r.range(0, 70000) : r.range(wild ? 0 : 1, 5))));
        if (r.chance(0.5)) p.add("A %d %d -1 0 0 521 %lld", fid, i, (long long)(r.range(-12000, 3000) * 65536)); }
    if (r.chance(0.5)) p.add("Y %d %d %lld", fid, (int)(r.range(0, 4095) | (wild && r.chance(0.3) ? 4096 + 256 + 512 : 0)), (long long)r.range(1, 1000000)); }
void genFiles(Rng &r, Plan &p, const ScriptOpt &o) {
    int ns = (int)r.range(1, 3); for (int f = 1; f <= ns; f++) { GenSongOpt g; g.maxNotes = 25; g.maxTracks = r.chance(0.1) ? 9 : 3; g.maxMs = 600; g.sysex = true; Song s = genSong(r, g); if (o.hostileFiles && r.chance(0.1)) s.ppqn = (int)r.pick({0, 1, 0x7fff, 0x8000, 0xe728}); if (r.chance(0.3)) { int c = (int)r.range(0, 15), ord = 1000000; for (int i = 0; i < 20; i++) s.ev.push_back({0, r.range(0, 50), {(u8)(0x90 | c), (u8)r.range(0, 127), (u8)r.range(1, 127)}, ord++}); std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); } songToPlan(p, f, s);
        if (o.hostileFiles && r.chance(0.55)) mutate(r, p, f, (i64)encodeSong(s).size(), (int)r.range(1, 6)); }
    if (o.dls) for (int f = 5; f <= 6; f++) if (r.chance(0.7)) { bool wild = o.hostileFiles && r.chance(0.6); Plan q; genDls(r, q, f, wild); for (auto &l : q.lines) p.lines.push_back(l); if (wild) { FileSet fs; fs.build(q); mutate(r, p, f, (i64)fs.get(f)->data.size(), (int)r.range(0, 6)); } }
    if (o.hostileFiles && r.chance(0.3)) { Bytes b; static const char *mg[] = {"MThd\0\0\0\6\0\1\0\2\0\x60", "RIFF", "XMF_1.00", "BEGIN:IMELODY", "MTrk", "RIFF\x40\0\0\0DLS "}; int k = (int)r.range(0, 6); if (k < 6) b.insert(b.end(), mg[k], mg[k] + (k == 0 ? 14 : k == 5 ? 12 : (int)strlen(mg[k]))); for (int i = 0, n = (int)r.range(0, 200); i < n; i++) b.push_back((u8)r.next()); p.add("R 7 %s", b.empty() ? "4d" : hex(b).c_str()); } }
// Many streams fight for few voices: bursts of notes, sustain pedals, resets, closes and reopens between single slices.
void genStorm(Rng &r, Plan &p, int inst, int steps, bool dls) {
    p.add("op %d init", inst); if (dls && r.chance(0.5)) p.add("op %d dls %d 5", inst, -1); if (r.chance(0.7)) p.add("op %d synthpoly 0 %d", inst, (int)r.pick({1, 2, 3, 4, 8, 16})); set<int> open; int chans = (int)r.range(1, 4), keys = (int)r.range(1, 12); bool odd = r.chance(0.4);
    for (int i = 0; i < steps; i++) { int s = (int)r.range(0, 3);
        if (!open.count(s)) { p.add("op %d mopen %d", inst, s); open.insert(s); if (r.chance(0.3)) p.add("op %d prio %d %d", inst, s, (int)r.pick({1, 5, 15})); if (r.chance(0.3)) p.add("op %d poly %d %d", inst, s, (int)r.range(1, 6)); continue; }
        switch (r.weighted({30, 25, 6, 4, 3, 2, 2})) {
        case 0: { Bytes b; for (int k = 0, n = (int)r.range(1, 12); k < n; k++) { int c = (int)r.range(0, chans - 1); if (r.chance(0.1)) c = 9; int key = odd && r.chance(0.3) ? 0x69 : 50 + (int)r.range(0, keys); double w = r.range(0, 99) / 100.0; if (w < 0.6) b.insert(b.end(), {(u8)(0x90 | c), (u8)key, (u8)r.range(1, 127)}); else if (w < 0.85) b.insert(b.end(), {(u8)(0x80 | c), (u8)key, 0}); else if (w < 0.93) b.insert(b.end(), {(u8)(0xb0 | c), 64, (u8)(r.chance(0.5) ? 127 : 0)}); else if (w < 0.96) b.insert(b.end(), {(u8)(0xb0 | c), (u8)r.pick({120, 123, 121}), 0}); else if (w < 0.98) b.insert(b.end(), {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}); else b.insert(b.end(), {(u8)(0xc0 | c), (u8)r.range(0, 127)}); }
            p.add("op %d mwrite %d %s", inst, s, hex(b).c_str()); break; }
        case 1: p.add("op %d render %d", inst, (int)r.pick({1, 1, 1, 2, 5, 30})); break;
        case 2: p.add("op %d mclose %d", inst, s); open.erase(s); break;
        case 3: p.add("op %d poly %d %d", inst, s, (int)r.pick({0, 1, 2, 3, 8})); break;
        case 4: p.add("op %d synthpoly 0 %d", inst, (int)r.pick({1, 2, 4, 8, 64})); break;
        case 5: p.add("op %d prio %d %d", inst, s, (int)r.range(1, 15)); break;
        default: if (dls) p.add("op %d dls %d %d", inst, r.chance(0.5) ? -1 : s, (int)r.range(5, 6)); break; } }
    if (r.chance(0.5)) p.add("op %d shutdown", inst); }
// One collection, every instrument selected and played at the edges and the middle of its regions, while wheels and controllers move.
void genTour(Rng &r, Plan &p, int inst) {
    int f = (int)r.range(5, 6), when = (int)r.range(0, 2); struct In { int msb, lsb, prog, drum; vector<int> keys; }; map<int, In> in;
    for (auto &l : p.lines) { if (l.t[0] == "I" && l.num(1) == f) in[(int)l.num(2)] = {(int)l.num(3), (int)l.num(4), (int)l.num(5), (int)l.num(6), {}}; if (l.t[0] == "G" && l.num(1) == f && in.count((int)l.num(2))) { In &x = in[(int)l.num(2)]; int lo = (int)l.num(3), hi = (int)l.num(4); for (int k : {lo, hi, (lo + hi) / 2, hi + 1}) if (k >= 0 && k < 128) x.keys.push_back(k); } }
    p.add("op %d init", inst); if (when == 0) p.add("op %d dls -1 %d", inst, f); p.add("op %d mopen 0", inst); if (when == 1) p.add("op %d dls 0 %d", inst, f); else if (when == 2) p.add("op %d dls -1 %d", inst, f);
    for (int pass = 0, np = (int)r.range(1, 2); pass < np; pass++) { for (auto &kv : in) { In &x = kv.second; if (x.keys.empty()) continue; int c = x.drum ? 9 : (int)r.range(0, 3); Bytes b{(u8)(0xb0 | c), 0, (u8)(x.msb & 127), 32, (u8)(x.lsb & 127), (u8)(0xc0 | c), (u8)(x.prog & 127)};
        for (int i = 0, n = (int)r.range(2, 8); i < n; i++) b.insert(b.end(), {(u8)(0x90 | c), (u8)r.pick(x.keys), (u8)r.pick({1, 64, 127, r.range(1, 127)})});
        switch (r.range(0, 5)) { case 0: b.insert(b.end(), {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.pick({0, 127})}); break; case 1: b.insert(b.end(), {(u8)(0xb0 | c), 1, 127}); break; case 2: b.insert(b.end(), {(u8)(0xd0 | c), 127}); break; case 3: b.insert(b.end(), {(u8)(0xb0 | c), 101, 0, 100, (u8)r.range(0, 2), 6, (u8)r.pick({0, 24, 127})}); break; default: break; }
        p.add("op %d mwrite 0 %s", inst, hex(b).c_str()); p.add("op %d render %d", inst, (int)r.pick({1, 2, 5, r.range(1, 40)})); if (r.chance(0.2)) p.add("op %d dls %d %d", inst, r.chance(0.5) ? -1 : 0, (int)r.range(5, 6)); if (r.chance(0.15)) { p.add("op %d mwrite 0 b%x7b00", inst, c); p.add("op %d render %d", inst, (int)r.range(1, 20)); } } }
    if (r.chance(0.5)) p.add("op %d mclose 0", inst); if (r.chance(0.5)) p.add("op %d shutdown", inst); }
void genScript(Rng &r, Plan &p, const ScriptOpt &o) {
    vector<int> fids{1, 1, 2, 3, 5, 7}; vector<int> dids{5, 6, 6, 5, 1, 7}; struct St { bool on = false; map<int, int> k; }; map<int, St> S;
    auto ms = [&]() { return r.pick({0, 1, 10, r.range(0, 800), r.range(0, 5000), o.badArgs ? r.pick({-1, 0x7fffffff, -0x7fffffff, 1 << 30}) : 100}); };
    for (int i = 0; i < o.ops; i++) {
        int ii = (int)r.range(0, o.insts - 1); St &x = S[ii]; long long L = 0; (void)L;
        if (!x.on) { if (o.allocFaults && r.chance(0.1)) p.add("op %d falloc %lld %lld", ii, (long long)r.range(0, 60), (long long)r.pick({1, 1, 5})); p.add("op %d init", ii); x.on = true; if (r.chance(0.3)) { p.add("op %d heal", ii); p.add("op %d init", ii); } continue; }
        vector<int> open, midi; for (auto &k : x.k) { open.push_back(k.first); if (k.second == 2) midi.push_back(k.first); }
        int s = open.empty() ? 0 : r.pick(open); int fresh = 0; while (x.k.count(fresh)) fresh++;
        switch (r.weighted({14, 5, 4, 6, 24, 5, 5, 6, 3, 3, 3, 4, 4, 3, 3, 4, 6, 5, 3, 4, 2, 2, 3, 5, 2})) {
        case 0: if (x.k.size() < 6) { p.add("op %d open %d %d", ii, fresh, (int)r.pick(fids)); x.k[fresh] = 1; if (r.chance(0.8)) p.add("op %d prepare %d", ii, fresh); if (r.chance(0.3)) p.add("op %d regcb %d %lld", ii, fresh, (long long)(o.badArgs ? r.pick({0, 1, 2, 16, 64, 300}) : r.pick({2, 16, 64, 300}))); } break;
        case 1: p.add("op %d prepare %d", ii, s); break;
        case 2: if (!open.empty()) { p.add("op %d close %d", ii, s); x.k.erase(s); } break;
        case 3: if (o.midi && x.k.size() < 6) { if (open.empty() || r.chance(0.5)) p.add("op %d mopen %d", ii, fresh); else p.add("op %d mopen %d %d", ii, fresh, r.pick(open)); x.k[fresh] = 2; } break;
        case 4: if (o.render) p.add("op %d render %lld", ii, (long long)r.pick({1, 1, 2, 5, r.range(1, o.maxRender)})); break;
        case 5: p.add("op %d pause %d", ii, s); break;
        case 6: p.add("op %d resume %d", ii, s); break;
        case 7: p.add("op %d locate %d %lld %d", ii, s, (long long)ms(), (int)r.chance(0.4)); break;
        case 8: p.add("op %d rate %d %lld", ii, s, (long long)(o.badArgs ? r.pick({0, 1 << 27, 1 << 28, 1 << 29, -1, 1, r.range(1 << 27, 1 << 29)}) : r.range(1 << 27, 1 << 29))); break;
        case 9: p.add("op %d transp %d %lld", ii, s, (long long)(o.badArgs ? r.pick({-13, 13, 1000, -100000, r.range(-12, 12)}) : r.range(-12, 12))); break;
        case 10: p.add("op %d vol %d %lld", ii, r.chance(0.3) ? -1 : s, (long long)(o.badArgs ? r.pick({-1, 101, 0x7fffffff, r.range(0, 100)}) : r.range(0, 100))); break;
        case 11: p.add("op %d poly %d %lld", ii, s, (long long)(o.badArgs ? r.pick({0, 1, 2, 64, 65, -1, 1000, r.range(0, 70)}) : r.range(1, 64))); break;
        case 12: p.add("op %d synthpoly %lld %lld", ii, (long long)(o.badArgs ? r.pick({0, 0, 1, 2, -1, 7}) : 0), (long long)(o.badArgs ? r.pick({0, 1, 2, 64, 65, -1, 1000, r.range(0, 70)}) : r.range(1, 64))); break;
        case 13: p.add("op %d prio %d %lld", ii, s, (long long)(o.badArgs ? r.pick({-1, 0, 1, 16, 1000, 0x7fffffff}) : r.range(1, 15))); break;
        case 14: p.add("op %d repeat %d %lld", ii, s, (long long)r.pick({0, 1, 2, -1, 0x7fffffff})); break;
        case 15: p.add("op %d meta %d", ii, s); break;
        case 16: if (!midi.empty()) p.add("op %d mwrite %d %s", ii, r.pick(midi), hex(genMidiBytes(r, (int)r.range(1, 12), o.badArgs && r.chance(0.5))).c_str()); break;
        case 17: if (o.dls) p.add("op %d dls %d %d", ii, r.chance(0.6) ? -1 : s, (int)r.pick(dids)); break;
        case 18: { static const char *q[] = {"getvol", "getpoly", "getprio", "getrepeat", "notes", "ftype", "state", "loc"}; p.add("op %d %s %d", ii, q[r.range(0, 7)], s); break; }
        case 19: p.add("op %d param %lld %lld %lld", ii, (long long)(o.badArgs && r.chance(0.2) ? r.range(-3, 14) : r.pick({2, 3})), (long long)(o.badArgs ? r.range(-1, 6) : r.range(0, 4)), (long long)(o.badArgs ? r.pick({0, 1, 2, 3, 4, 10, 30, 100, -1, 0x7fffffff, r.range(0, 32767)}) : r.pick({0, 1, 2, 3, 10}))); break;
        case 20: p.add("op %d maxload %lld", ii, (long long)r.pick({0, 0, 1, 100, 1000, 100000, o.badArgs ? -1 : 5000})); break;
        case 21: p.add("op %d getparam %lld %lld", ii, (long long)(o.badArgs ? r.range(-2, 12) : 2), (long long)r.range(-1, 6)); break;
        case 22: { static const char *q[] = {"hdrsearch %d %d", "rtime %d %d", "getsynthpoly %d %d"}; (void)q; switch (r.range(0, 3)) { case 0: p.add("op %d hdrsearch %d", ii, (int)r.chance(0.5)); break; case 1: p.add("op %d rtime", ii); break; case 2: p.add("op %d getsynthpoly %d", ii, (int)r.range(-1, 3)); break; default: p.add("op %d regcb %d %lld", ii, s, (long long)(o.badArgs ? r.pick({0, 1, 8, 64}) : r.pick({8, 64}))); } break; }
        case 23: switch (r.range(0, 4)) {
            case 0: if (o.fileFaults) p.add("op %d fread %d %lld %d %lld %lld", ii, (int)r.pick({1, 1, 2, 3, 5, 6}), (long long)r.pick({0, 1, 2, r.range(0, 40), r.range(0, 400)}), (int)r.range(1, 6), (long long)r.range(0, 300), (long long)r.pick({1, 1, 1, 5, 1000000})); break;
            case 1: if (o.allocFaults) p.add("op %d falloc %lld %lld", ii, (long long)r.pick({0, 0, 1, 2, r.range(0, 12)}), (long long)r.pick({1, 1, 2, 1000})); break;
            case 2: if (o.allocFaults) p.add("op %d fallocp %lld %lld", ii, (long long)r.range(10000, 400000), (long long)r.range(1, 1000000)); break;
            case 3: if (o.yields) p.add("op %d fyield %lld %lld %lld", ii, (long long)r.range(10000, 900000), (long long)r.range(1, 1000000), (long long)r.pick({-1, 5, 50})); break;
            default: p.add("op %d heal", ii); } break;
        default: if (o.shutdowns && r.chance(0.4)) { p.add("op %d shutdown", ii); x = St(); } else if (o.badArgs) p.add("op %d badrender %lld", ii, (long long)r.pick({0, 1, 255, 257, 512, -1})); }
    } }
