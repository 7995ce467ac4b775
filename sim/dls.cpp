// DLS model -> bytes, plan lines <-> model, probe instruments whose every key owns one spectral bin.
#include "sim.h"
static void le32(Bytes &b, u32 v) { for (int i = 0; i < 4; i++) b.push_back((u8)(v >> (8 * i))); }
static void le16(Bytes &b, u32 v) { b.push_back((u8)v); b.push_back((u8)(v >> 8)); }
static void tag(Bytes &b, const char *t) { b.insert(b.end(), t, t + 4); }
static Bytes chunk(const char *t, const Bytes &d) { Bytes b; tag(b, t); le32(b, (u32)d.size()); b.insert(b.end(), d.begin(), d.end()); if (d.size() & 1) b.push_back(0); return b; }
static Bytes list(const char *t, const Bytes &d) { Bytes x; tag(x, t); x.insert(x.end(), d.begin(), d.end()); return chunk("LIST", x); }
static void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
// One of the many byte layouts of a collection. `enc` selects what the format leaves open, `r` decides the details.
enum { ENC_TOP = 1, ENC_INS = 2, ENC_RGN = 4, ENC_WAVE = 8, ENC_JUNK = 16, ENC_V2 = 32, ENC_POOL = 64, ENC_BITS = 128, ENC_CDL = 256, ENC_SKIP = 512, ENC_WIDE = 1024, ENC_UNUSED = 2048, ENC_WILDCDL = 4096 };
namespace {
struct Encoder {
    const Dls &x; Rng r; int enc;
    explicit Encoder(const Dls &d) : x(d), r(d.encSeed), enc(d.enc) {}
    bool has(int f, double p = 0.5) { return (enc & f) && r.chance(p); }
    Bytes junk() { Bytes d((size_t)r.range(0, 21)); for (auto &c : d) c = (u8)r.range(0, 255); return r.chance(0.5) ? chunk(r.chance(0.5) ? "jUnK" : "vers", d) : list(r.chance(0.5) ? "INFO" : "xtra", chunk("INAM", d)); }
    // chunks in any order when the layout is free, with chunks nobody knows between them
    Bytes join(vector<Bytes> c, int orderFlag) {
        if (enc & orderFlag) for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[(size_t)r.range(0, (i64)i - 1)]);
        Bytes d; for (auto &b : c) { if (has(ENC_JUNK, 0.3)) cat(d, junk()); cat(d, b); }
        if (has(ENC_JUNK, 0.3)) cat(d, junk());
        return d;
    }
    Bytes wsmp(int unity, int fine, i64 gain, i64 ls, i64 ll) {
        u32 extra = has(ENC_WIDE) ? 4 : 0;
        Bytes d; le32(d, 20 + extra); le16(d, (u32)unity); le16(d, (u32)(u16)fine); le32(d, (u32)(int32_t)gain); le32(d, 0); bool loop = ls >= 0 && ll > 0; u32 loops = !loop ? 0 : extra && r.chance(0.4) ? (u32)r.range(2, 3) : 1; le32(d, loops);        // only the first loop counts
        if (extra) le32(d, 0x01020304);
        if (loop) { le32(d, 16); le32(d, 0); le32(d, (u32)ls); le32(d, (u32)ll); }
        for (u32 k = 1; k < loops; k++) { le32(d, 16); le32(d, 0); le32(d, (u32)r.range(0, 5000)); le32(d, (u32)r.range(1, 5000)); }
        return chunk("wsmp", d);
    }
    // a random expression in the condition language and its value; only operators whose operand order cannot matter
    u32 expr(Bytes &d, int depth) {
        static const u8 gm[12] = {0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75}, mma[16] = {0, 0, 0, 0, 0x95, 0x80, 0xd2, 0x11, 0xa1, 0xef, 0, 0x60, 8, 0x33, 0xdb, 0xd8};
#ifdef _SAMPLE_RATE_22050
        const u32 rate = 22050;
#else
        const u32 rate = 44100;
#endif
        // what the device may be asked about: hardware (GM, GS, XG), DLS levels, memory, maker, product, rate, and something unknown; the last column: the value is known
        struct Query { u8 id[16]; bool supported, known; u32 value; } q[10];
        for (int k = 0; k < 10; k++) { q[k].supported = true; q[k].known = false; q[k].value = 0; memcpy(q[k].id + 2, gm, 12); q[k].id[1] = 0x2f; q[k].id[14] = 0xac; q[k].id[15] = 0x12; }
        for (int k = 0; k < 5; k++) q[k].id[0] = (u8)(0x24 + k);                // GM, GS, XG, DLS 1, memory size
        for (int k : {0, 1, 2, 3}) q[k].known = true; q[0].value = q[3].value = 0xffffffff;
        static const u8 dls2[16] = {0xe5, 0x99, 0x45, 0xf1, 0x89, 0x46, 0xd2, 0x11, 0xaf, 0xa6, 0, 0xaa, 0, 0x24, 0xd8, 0xb6}, sr[8] = {0x13, 0xf7, 0x91, 0x2a, 0xbf, 0xa4, 0xd2, 0x11};
        memcpy(q[5].id, dls2, 16); for (int k : {6, 7}) { memcpy(q[k].id, mma, 16); q[k].id[0] = (u8)(0x81 + k - 6); q[k].id[1] = 0x11; q[k].id[2] = 0x3e; q[k].id[3] = 0xb0; }
        memcpy(q[8].id, mma, 16); memcpy(q[8].id, sr, 8); q[8].id[8] = 0xbb; q[8].id[9] = 0xdf; q[8].known = true; q[8].value = rate;
        for (int k = 0; k < 16; k++) q[9].id[k] = (u8)(k + 1); q[9].supported = false; q[9].known = true;
        if (depth == 0 || r.chance(0.15)) {
            if (r.chance(0.15)) { int k = (int)r.range(0, 9); bool value = q[k].known && r.chance(0.5); le16(d, value ? 0x11 : 0x12); d.insert(d.end(), q[k].id, q[k].id + 16); return value ? q[k].value : q[k].supported; }
            u32 c = (u32)r.pick({0, 1, 2, 3, 5, 0x80, 0xff00, 0x7fffffff, 0x80000000ll, 0xffffffffll, r.range(0, 0xffffffffll)}); le16(d, 0x10); le32(d, c); return c; }
        if (r.chance(0.15)) { u32 v = expr(d, depth - 1); le16(d, 0x0f); return !v; }
        if (r.chance(0.2)) { u32 c = (u32)r.range(1, 0xffffffffll); int op = (int)r.pick({4, 6, 9, 10, 11, 12, 13}); le16(d, 0x10); le32(d, c); le16(d, 0x10); le32(d, c); le16(d, op == 4 ? 5 : op == 6 ? 7 : (u32)op); return op == 6 || op == 9 || op == 11 || op == 13; }      // of two equal values
        if (depth >= 3 && r.chance(0.3)) {      // every operand first, all of the stack, then the operators
            static const int ops[] = {1, 2, 3, 4, 6, 8, 9, 14}; int n = (int)r.range(3, depth + 4); vector<u32> st; for (int i = 0; i < n; i++) { u32 c = (u32)r.pick({0, 1, 2, 3, 0xffffffffll, r.range(0, 0xffffffffll)}); le16(d, 0x10); le32(d, c); st.push_back(c); }
            while (st.size() > 1) { int op = ops[r.range(0, 7)]; u32 y = st.back(); st.pop_back(); u32 &x = st.back(); le16(d, (u32)op); x = op == 1 ? x & y : op == 2 ? x | y : op == 3 ? x ^ y : op == 4 ? x + y : op == 6 ? x * y : op == 8 ? (x && y) : op == 9 ? (x || y) : x == y; }
            return st[0]; }
        u32 a = expr(d, depth - 1), b = expr(d, depth - 1); int op = (int)r.pick({1, 2, 3, 4, 6, 8, 9, 14});
        switch (op) { case 1: le16(d, 1); return a & b; case 2: le16(d, 2); return a | b; case 3: le16(d, 3); return a ^ b; case 4: le16(d, 4); return a + b; case 6: le16(d, 6); return a * b; case 8: le16(d, 8); return a && b; case 9: le16(d, 9); return a || b; default: le16(d, 14); return a == b; }
    }
    Bytes cdl(bool yes) {      // conditions with a known answer
        static const u8 gm[16] = {0x24, 0x2f, 0x8f, 0x17, 0x64, 0xc3, 0xd1, 0x11, 0xa7, 0x60, 0, 0, 0xf8, 0x75, 0xac, 0x12};   // GM in hardware: supported
        if (has(ENC_WILDCDL, 0.3)) {       // any program at all for the condition's stack machine
            Bytes d; for (int i = 0, n = (int)r.range(0, 300); i < n; i++) { int op = (int)(r.chance(0.6) ? 0x10 : r.range(0, 0x13)); le16(d, (u32)op); if (op == 0x10) le32(d, (u32)r.pick({0, 1, 2, 0x7fffffff, 0xffffffffll})); else if (op >= 0x11) { for (int k = 0; k < 16; k++) d.push_back(r.chance(0.9) ? gm[k] : (u8)r.range(0, 255)); if (r.chance(0.2)) break; } }
            if (r.chance(0.2)) d.push_back(0x10);
            return chunk("cdl ", d); }
        Bytes d; if (r.chance(0.4)) { u32 v = expr(d, (int)r.range(1, 4)); if ((v != 0) != yes) le16(d, 0x0f); return chunk("cdl ", d); }      // a computed answer
        switch (r.range(0, 3)) {
            case 0: le16(d, 0x10); le32(d, yes ? 1 : 0); break;                                        // constant
            case 1: le16(d, 0x10); le32(d, 5); le16(d, 0x10); le32(d, yes ? 5 : 6); le16(d, 0x0e); break;       // equal
            case 2: le16(d, 0x10); le32(d, yes ? 0 : 7); le16(d, 0x0f); break;                         // logical not
            default: le16(d, 0x12); d.insert(d.end(), gm, gm + 16); if (!yes) le16(d, 0x0f); break; }   // query supported
        return chunk("cdl ", d);
    }
    Bytes lart(const vector<DlsConn> &a) {
        bool two = has(ENC_V2); u32 extra = has(ENC_WIDE) ? 8 : 0; auto put = [&](size_t from, size_t to, bool v2) { Bytes d; le32(d, 8 + extra); le32(d, (u32)(to - from)); for (u32 i = 0; i < extra; i++) d.push_back(0x7e); for (size_t i = from; i < to; i++) { auto &c = a[i]; le16(d, (u32)c.src); le16(d, (u32)c.ctl); le16(d, (u32)c.dst); le16(d, 0); le32(d, (u32)(int32_t)c.scale); } return chunk(v2 ? "art2" : "art1", d); };
        size_t cut = two && a.size() > 1 && r.chance(0.5) ? (size_t)r.range(1, (i64)a.size() - 1) : 0;   // art2 is read after art1
        Bytes d; if (has(ENC_CDL, 0.4)) cat(d, cdl(true));
        vector<Bytes> c; if (cut) { c.push_back(put(0, cut, false)); c.push_back(put(cut, a.size(), true)); } else c.push_back(put(0, a.size(), two));
        cat(d, join(c, 0)); return list(two && r.chance(0.5) ? "lar2" : "lart", d);
    }
    Bytes region(const DlsRgn &g, bool skipped) {
        Bytes h; le16(h, (u32)g.keyLo); le16(h, (u32)(g.keyHi == 127 && has(ENC_WIDE, 0.3) ? r.range(128, 0xffff) : g.keyHi)); le16(h, (u32)g.velLo); le16(h, (u32)(g.velHi == 127 && has(ENC_WIDE, 0.3) ? r.range(128, 0xffff) : g.velHi));        // 127 is the end of the range
        le16(h, (u32)g.opt); le16(h, (u32)g.group); if (has(ENC_V2)) le16(h, 0);
        Bytes w; le16(w, 0); le16(w, 0); le32(w, 1); le32(w, (u32)g.wave);
        vector<Bytes> c{chunk("rgnh", h), chunk("wlnk", w)}; if (g.wsmp) c.push_back(wsmp(g.unity, g.fine, g.gain, g.loopStart, g.loopLen)); if (!g.art.empty()) c.push_back(lart(g.art));
        Bytes d; if (skipped) d = cdl(false); else if (has(ENC_CDL, 0.3)) d = cdl(true);
        cat(d, join(c, ENC_RGN)); return list(g.rgn2 || has(ENC_V2) ? "rgn2" : "rgn ", d);
    }
    Bytes instrument(const DlsIns &in) {
        u32 n = 0; Bytes lr; for (auto &g : in.rgn) {
            if (in.hdrRegions < 0 && has(ENC_SKIP, 0.3)) { cat(lr, region(g, true)); n++; }
            if (has(ENC_JUNK, 0.2)) cat(lr, junk());
            cat(lr, region(g, false)); n++; }
        if (in.hdrRegions < 0 && has(ENC_SKIP, 0.3) && !in.rgn.empty()) { cat(lr, region(in.rgn[0], true)); n++; }
        if (in.hdrRegions >= 0) n = (u32)in.hdrRegions;
        Bytes h; le32(h, n); le32(h, (u32)((in.bankMsb << 8) | in.bankLsb) | (in.drum ? 0x80000000u : 0)); le32(h, (u32)in.prog);
        vector<Bytes> c{chunk("insh", h), list("lrgn", lr)}; if (!in.art.empty()) c.push_back(lart(in.art));
        return list("ins ", join(c, ENC_INS));
    }
    Bytes wave(const DlsWave &w) {
        Bytes data = w.data; int bits = w.bits;
        if (has(ENC_BITS, 0.7)) {       // the same samples at the other width, when they fit
            if (bits == 8) { Bytes e; for (u8 c : data) { e.push_back(0); e.push_back((u8)(c ^ 0x80)); } data = e; bits = 16; }
            else { bool fits = data.size() % 2 == 0; Bytes e; for (size_t i = 0; i + 1 < data.size(); i += 2) { fits = fits && data[i] == 0; e.push_back((u8)(data[i + 1] ^ 0x80)); } if (fits) { data = e; bits = 8; } } }
        Bytes f; le16(f, 1); le16(f, 1); le32(f, (u32)w.rate); le32(f, (u32)(w.rate * bits / 8)); le16(f, (u32)(bits / 8)); le16(f, (u32)bits); if (has(ENC_WIDE)) le16(f, 0);
        vector<Bytes> c{chunk("fmt ", f)}; if (w.wsmp) c.push_back(wsmp(w.unity, w.fine, w.gain, w.loopStart, w.loopLen)); c.push_back(chunk("data", data));
        return list("wave", join(c, ENC_WAVE));
    }
    Bytes file() {
        Bytes lins; for (auto &in : x.ins) { if (has(ENC_JUNK, 0.2)) cat(lins, junk()); cat(lins, instrument(in)); }
        vector<size_t> order(x.wave.size()); for (size_t i = 0; i < order.size(); i++) order[i] = i;
        if (enc & ENC_POOL) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[(size_t)r.range(0, (i64)i - 1)]);
        Bytes wv; vector<u32> off(order.size()); for (size_t i : order) { if (has(ENC_JUNK, 0.2)) cat(wv, junk()); if (has(ENC_UNUSED, 0.3)) { DlsWave u; u.data = Bytes(62, 0x31); cat(wv, wave(u)); } off[i] = (u32)wv.size(); cat(wv, wave(x.wave[i])); }
        Bytes pt; le32(pt, 8); le32(pt, (u32)off.size()); for (u32 o : off) le32(pt, o);
        Bytes c; le32(c, (u32)x.ins.size());
        vector<Bytes> top{chunk("colh", c), list("lins", lins), chunk("ptbl", pt), list("wvpl", wv)}; if (x.pad) top.push_back(chunk("jUnK", Bytes((size_t)x.pad, 0x41)));
        Bytes d; tag(d, "DLS "); if (has(ENC_CDL, 0.3)) cat(d, cdl(true));
        cat(d, join(top, ENC_TOP)); return chunk("RIFF", d);
    }
};
}
Bytes encodeDls(const Dls &x) { return Encoder(x).file(); }
Bytes sineWave(int n, double cycles, double amp, double ph) { Bytes b; for (int i = 0; i < n; i++) { int v = (int)lround(amp * sin(2 * M_PI * cycles * i / n + ph)); b.push_back((u8)v); b.push_back((u8)(v >> 8)); } return b; }
// plan lines:
//  D fid pad
//  P fid n bankMsb bankLsb prog drum baseBin keyLo keyCount amp [opt [step [groups [attack [delay in timecents]]]]] : with groups two keys of three belong to key groups 1 and 2; probe instrument, key keyLo+i is a looped sine on bin baseBin+i*step
//  W fid n rate bits sine <nsamp> <cycles*1000> <amp> loopStart loopLen unity fine gain | W fid n rate bits hex <data> loopStart loopLen unity fine gain
//  I fid n bankMsb bankLsb prog drum [regions the header claims]
//  G fid ins keyLo keyHi velLo velHi opt group wave [unity fine gain loopStart loopLen]
//  Y fid mask seed : the byte layout (ENC_* bits)
//  A fid ins rgn(-1 instrument) src ctl dst scale
bool dlsFromPlan(const Plan &p, int fid, Dls &d) {
    bool ok = false; map<int, DlsWave> w; map<int, DlsIns> in; d = Dls();
    for (auto &l : p.lines) { if (l.t.size() < 2 || l.num(1) != fid) continue; const string &c = l.t[0];
        if (c == "D") { ok = true; d.pad = (int)l.num(2); }
        else if (c == "W") { DlsWave x; x.rate = (int)std::max<i64>(1, l.num(3)); x.bits = (int)l.num(4); size_t i;
            if (l.tok(5) == "sine") { int n = (int)l.num(6); if (n < 0 || n > 500000) continue; x.data = sineWave(n, l.num(7) / 1000.0, (double)l.num(8)); if (x.bits == 8) { Bytes e; for (size_t k = 0; k + 1 < x.data.size(); k += 2) e.push_back((u8)(x.data[k + 1] ^ 0x80)); x.data = e; } i = 9; }
            else { x.data = unhex(l.tok(6)); i = 7; }
            x.loopStart = l.num(i, -1); x.loopLen = l.num(i + 1); x.unity = (int)l.num(i + 2, 60); x.fine = (int)l.num(i + 3); x.gain = l.num(i + 4); w[(int)l.num(2)] = x; }
        else if (c == "Y") { d.enc = (int)l.num(2); d.encSeed = (u64)l.num(3); }
        else if (c == "I") { DlsIns x; x.hdrRegions = (int)l.num(7, -1); x.bankMsb = (int)l.num(3); x.bankLsb = (int)l.num(4); x.prog = (int)l.num(5); x.drum = l.num(6); in[(int)l.num(2)] = x; } }
    if (!ok) return false;
    for (auto &l : p.lines) { if (l.t.size() < 3 || l.num(1) != fid) continue;
        if (l.t[0] == "G" && in.count((int)l.num(2))) { DlsRgn g; g.keyLo = (int)l.num(3); g.keyHi = (int)l.num(4); g.velLo = (int)l.num(5); g.velHi = (int)l.num(6); g.opt = (int)l.num(7); g.group = (int)l.num(8); g.wave = (int)l.num(9); if (l.t.size() > 10) { g.wsmp = true; g.unity = (int)l.num(10); g.fine = (int)l.num(11); g.gain = l.num(12); g.loopStart = l.num(13, -1); g.loopLen = l.num(14); } in[(int)l.num(2)].rgn.push_back(g); } }
    for (auto &l : p.lines) { if (l.t.size() < 3 || l.num(1) != fid) continue;
        if (l.t[0] == "A" && in.count((int)l.num(2))) { DlsConn a{(int)l.num(4), (int)l.num(5), (int)l.num(6), l.num(7)}; auto &I = in[(int)l.num(2)]; i64 rg = l.num(3); if (rg < 0) I.art.push_back(a); else if (rg < (i64)I.rgn.size()) I.rgn[(size_t)rg].art.push_back(a); } }
    for (auto &l : p.lines) { if (l.t[0] != "P" || l.num(1) != fid) continue; int n = (int)l.num(2), kc = (int)std::min<i64>(128, l.num(9)); DlsIns x; x.bankMsb = (int)l.num(3); x.bankLsb = (int)l.num(4); x.prog = (int)l.num(5); x.drum = l.num(6);
        for (int i = 0; i < kc; i++) { int key = (int)l.num(8) + i; if (key > 127) break; DlsWave v; v.data = sineWave(PROBE_N, (double)(l.num(7) + i * l.num(12, 1)), (double)l.num(10, 400)); v.unity = key; v.loopStart = 0; v.loopLen = PROBE_N; int wi = 10000 + n * 128 + i; w[wi] = v; DlsRgn g; g.keyLo = g.keyHi = key; g.wave = wi; g.opt = (int)l.num(11, 0); if (l.num(13, 0) && i % 3 < 2) g.group = i % 3 + 1; g.wsmp = true; g.unity = key; g.loopStart = 0; g.loopLen = PROBE_N; x.rgn.push_back(g); }
        x.art.push_back({0, 0, 0x209, (i64)PROBE_REL << 16}); if (l.num(14, 0)) x.art.push_back({0, 0, 0x206, l.num(14) << 16}); if (l.num(15, 0)) x.art.push_back({0, 0, 0x20b, l.num(15) << 16}); in[n] = x; }
    map<int,int> idx; for (auto &k : w) { idx[k.first] = (int)d.wave.size(); d.wave.push_back(k.second); }
    for (auto &k : in) { for (auto &g : k.second.rgn) g.wave = idx.count(g.wave) ? idx[g.wave] : g.wave; d.ins.push_back(k.second); }
    return true;
}
