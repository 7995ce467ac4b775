// Plan text, seams (heap, process, clock, yield), simulated file device, measurement helpers.
#include "sim.h"
#include <cstdarg>

Stats *gStats = nullptr; bool gVerbose = false; SimHeap gHeap; SimSys gSys; u64 gSimFrames = 0;

u64 fastHash(const void *p, size_t n) { const u8 *b = (const u8 *)p; u64 h = 0x243F6A8885A308D3ull ^ n; while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; } u64 v = 0; memcpy(&v, b, n); h = (h ^ v) * 0xBF58476D1CE4E5B9ull; return h ^ (h >> 32); }
string fmt(const char *f, ...) { char buf[2048]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf; }
string hex(const Bytes &b) { static const char *d = "0123456789abcdef"; string s; s.reserve(b.size() * 2); for (u8 x : b) { s += d[x >> 4]; s += d[x & 15]; } return s.empty() ? "-" : s; }
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
Bytes unhex(const string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) { int a = hv(s[i]), c = hv(s[i + 1]); if (a < 0 || c < 0) break; b.push_back((u8)(a * 16 + c)); } return b; }
string Line::str() const { string s; for (size_t i = 0; i < t.size(); i++) { if (i) s += ' '; s += t[i]; } return s; }
static Line splitLine(const char *p, size_t n) { Line l; size_t i = 0; while (i < n) { while (i < n && p[i] == ' ') i++; size_t j = i; while (j < n && p[j] != ' ') j++; if (j > i) l.t.emplace_back(p + i, j - i); i = j; } return l; }
void Plan::add(const char *f, ...) { va_list a; va_start(a, f); va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, a); va_end(a); string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, b); va_end(b); lines.push_back(splitLine(s.data(), n)); }
string Plan::text() const { string s = "property " + prop + "\nseed " + fmt("%llu", (unsigned long long)seed) + "\n"; for (auto &l : lines) { s += l.str(); s += '\n'; } return s; }
bool Plan::parse(const string &txt, Plan &o) {
    size_t i = 0; o = Plan();
    while (i < txt.size()) { size_t j = txt.find('\n', i); if (j == string::npos) j = txt.size(); Line l = splitLine(txt.data() + i, j - i); i = j + 1;
        if (l.t.empty() || l.t[0][0] == '#') continue;
        if (l.t[0] == "property") o.prop = l.tok(1); else if (l.t[0] == "seed") o.seed = strtoull(l.tok(1).c_str(), nullptr, 10); else o.lines.push_back(l); }
    return !o.prop.empty();
}
i64 Plan::cfg(const char *key, i64 def) const { for (auto &l : lines) if (l.t[0] == "cfg" && l.tok(1) == key) return l.num(2, def); return def; }
string Plan::cfgs(const char *key) const { for (auto &l : lines) if (l.t[0] == "cfg" && l.tok(1) == key) return l.tok(2); return ""; }

// ---------------------------------------------------------------- seams
void SimHeap::reset() { live.clear(); serial = 0; bytes = 0; fill = 0; noise = false; failAfter = -1; failCount = 0; failProb = 0; failed = badFree = zeroSize = calls = 0; }
void seamReset() {
    for (auto &b : gHeap.live) free(b.first);
    gHeap.reset(); gSys = SimSys();
}
extern "C" {
void *sim_malloc(size_t n) {
    gHeap.calls++;
    bool fail = false;
    if (gHeap.failAfter == 0) { if (gHeap.failCount > 0) { fail = true; if (--gHeap.failCount == 0) gHeap.failAfter = -1; } }
    else if (gHeap.failAfter > 0) gHeap.failAfter--;
    if (!fail && gHeap.failProb > 0 && gHeap.failRng.chance(gHeap.failProb)) fail = true;
    if (fail || n > (size_t)256 << 20) { gHeap.failed++; return nullptr; }
    if (n == 0) gHeap.zeroSize++;
    void *p = malloc(n); if (!p) return nullptr;
    u64 s = ++gHeap.serial;
    if (gHeap.noise) { Rng r(s * 77 + gHeap.fill); u8 *b = (u8 *)p; size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(b + i, &v, 8); } for (; i < n; i++) b[i] = (u8)r.next(); }
    else memset(p, gHeap.fill, n);
    gHeap.live[p] = {n, s}; gHeap.bytes += n; return p;
}
void sim_free(void *p) {
    if (!p) return;
    auto it = gHeap.live.find(p);
    if (it == gHeap.live.end()) {
        gHeap.badFree++;
#if SIM_ASAN
        free(p);
#endif
        return; }
    memset(p, 0xDD, it->second.size); gHeap.bytes -= it->second.size; gHeap.live.erase(it); free(p);
}
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *sim_realloc(void *p, size_t n) { if (!p) return sim_malloc(n); if (!n) { sim_free(p); return nullptr; } auto it = gHeap.live.find(p); size_t o = it == gHeap.live.end() ? 0 : it->second.size; void *q = sim_malloc(n); if (!q) return nullptr; memcpy(q, p, o < n ? o : n); sim_free(p); return q; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void sim_exit(int code) { gSys.exited = true; gSys.exits++; throw SimExit{code}; }
void sim_abort(void) { gSys.exited = true; gSys.exits++; throw SimExit{-1}; }
// every clock or random number the library might ask for is simulated; values differ between the twin runs of D01
long sim_time(long *t) { gSys.timeCalls++; gSys.timeBase += 7; if (t) *t = (long)gSys.timeBase; return (long)gSys.timeBase; }
long sim_clock(void) { gSys.timeCalls++; return (long)(gSys.timeBase += 1013); }
int sim_gettimeofday(void *tv, void *) { gSys.timeCalls++; long *p = (long *)tv; p[0] = (long)(gSys.timeBase += 3); p[1] = (long)(gSys.timeBase % 1000000); return 0; }
int sim_clock_gettime(int, void *ts) { gSys.timeCalls++; long *p = (long *)ts; p[0] = (long)(gSys.timeBase += 3); p[1] = (long)(gSys.timeBase % 1000000000); return 0; }
int sim_rand(void) { gSys.timeCalls++; gSys.timeBase = gSys.timeBase * 6364136223846793005ull + 1442695040888963407ull; return (int)((gSys.timeBase >> 33) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
int sim_yield(void *) { gSys.yieldCalls++; if (gSys.yieldProb > 0 && gSys.yieldMax != 0 && gSys.yieldRng.chance(gSys.yieldProb)) { gSys.yields++; if (gSys.yieldMax > 0) gSys.yieldMax--; return 1; } return 0; }
}

// ---------------------------------------------------------------- simulated file device
const char *faultName(int k) { static const char *n[] = {"none", "read_error", "short_read", "zero_read", "truncated", "bit_flip", "over_report"}; return n[k < 0 || k > 6 ? 0 : k]; }
int SimFile::size() { if (revoked) readsAfterRevoke++; return (int)(sizeOverride >= 0 ? sizeOverride : (i64)data.size()); }
int SimFile::readAt(void *buf, int off, int sz) {
    reads++; if (revoked) readsAfterRevoke++;
    if (sz < 0 || off < 0 || !buf) { badArgs++; badArgDetail = fmt("readAt(offset=%d,size=%d)", off, sz); return -1; }
    i64 have = (i64)data.size() - off; if (have < 0) have = 0; i64 n = std::min<i64>(have, sz);
    if (offAt >= off && offAt < (i64)off + sz) { if (offSkip-- <= 0) { offAt = -1; armIn = 0; armCount = 1; } }
    if (armIn >= 0) {
        if (armIn == 0) {
            if (armCount > 0 && --armCount == 0) armIn = -1;
            fired++; stat(string("fault.") + faultName(armKind));
            switch (armKind) {
            case FK_ERROR: return -1;
            case FK_SHORT: n = armArg > 0 && n > 0 ? std::min<i64>(n - 1, armArg) : n / 2; break;
            case FK_ZERO: return 0;
            case FK_TRUNC: { i64 keep = std::max<i64>(0, (i64)data.size() - armArg); data.resize((size_t)keep); have = (i64)data.size() - off; if (have < 0) have = 0; n = std::min<i64>(have, sz); break; }
            case FK_FLIP: if (n > 0) { memcpy(buf, data.data() + off, (size_t)n); ((u8 *)buf)[(size_t)armArg % (size_t)n] ^= (u8)(1u << (armArg & 7)); bytesRead += n; return (int)n; } break;
            }
        } else armIn--;
    }
    if (n > 0) memcpy(buf, data.data() + off, (size_t)n);
    bytesRead += n; return (int)n;
}
static int cbRead(void *h, void *b, int o, int n) { return ((SimFile *)h)->readAt(b, o, n); }
static int cbSize(void *h) { return ((SimFile *)h)->size(); }
void fileLocator(SimFile *f, EAS_FILE *loc) { memset(loc, 0, sizeof *loc); loc->handle = f; loc->readAt = cbRead; loc->size = cbSize; }

FileSet::~FileSet() { for (auto &k : f) delete k.second; }
void FileSet::build(const Plan &p) {
    set<int> songs, raws, dls;
    for (auto &l : p.lines) { if (l.t[0] == "S") songs.insert((int)l.num(1)); else if (l.t[0] == "R") raws.insert((int)l.num(1)); else if (l.t[0] == "D") dls.insert((int)l.num(1)); }
    for (int id : songs) { Song s; if (songFromPlan(p, id, s)) { auto *x = new SimFile; x->data = encodeSong(s); f[id] = x; } }
    extern bool dlsFromPlan(const Plan &, int, Dls &);
    for (int id : dls) { Dls d; if (dlsFromPlan(p, id, d)) { auto *x = new SimFile; x->data = encodeDls(d); if (f.count(id)) { delete x; continue; } f[id] = x; } }
    for (int id : raws) { if (!f.count(id)) f[id] = new SimFile; }
    for (auto &l : p.lines) {
        if (l.t[0] == "R") { Bytes b = unhex(l.tok(2)); auto &d = f[(int)l.num(1)]->data; d.insert(d.end(), b.begin(), b.end()); }
        else if (l.t[0] == "M") { auto *x = get((int)l.num(1)); if (!x) continue; Bytes b = unhex(l.tok(3)); i64 o = l.num(2); for (size_t i = 0; i < b.size(); i++) if (o + (i64)i >= 0 && o + (i64)i < (i64)x->data.size()) x->data[(size_t)(o + i)] = b[i]; }
        else if (l.t[0] == "INS") { auto *x = get((int)l.num(1)); if (!x) continue; Bytes b = unhex(l.tok(3)); i64 o = std::min<i64>(std::max<i64>(0, l.num(2)), (i64)x->data.size()); x->data.insert(x->data.begin() + o, b.begin(), b.end()); }
        else if (l.t[0] == "DEL") { auto *x = get((int)l.num(1)); if (!x) continue; i64 o = l.num(2), n = l.num(3); if (o >= 0 && o < (i64)x->data.size()) { n = std::min<i64>(n, (i64)x->data.size() - o); x->data.erase(x->data.begin() + o, x->data.begin() + o + n); } }
        else if (l.t[0] == "T") { auto *x = get((int)l.num(1)); if (x && l.num(2) < (i64)x->data.size()) x->data.resize((size_t)std::max<i64>(0, l.num(2))); }
    }
}

// ---------------------------------------------------------------- instance
u64 gAhead = 0; int gAheadNo = 0, gWarm = 0;
void Inst::warm() { for (int i = 0; h && i < gWarm; i++) { static int16_t b[SLICE * 2]; EAS_I32 n; EAS_Render(h, b, SLICE, &n); } }
struct HeapPause { i64 a = gHeap.failAfter, c = gHeap.failCount; double p = gHeap.failProb; u64 n = gHeap.calls; HeapPause() { gHeap.failAfter = -1; gHeap.failCount = 0; gHeap.failProb = 0; } ~HeapPause() { gHeap.failAfter = a; gHeap.failCount = c; gHeap.failProb = p; gHeap.calls = n; } };
void Inst::aheadOpen() { HeapPause q; while (h && ahead > 0) { ahead--; EAS_HANDLE x; if (EAS_OpenMIDIStream(h, &x, NULL) == EAS_SUCCESS) holders.push_back(x); stat("slot.moved"); } }
void Inst::aheadClose() { HeapPause q; for (EAS_HANDLE x : holders) EAS_CloseMIDIStream(h, x); holders.clear(); }
i64 Inst::render(Slice &s) {
    int16_t *buf = (int16_t *)malloc(sizeof s.pcm); memset(buf, 0x33, sizeof s.pcm);
    EAS_I32 count = -1; i64 r;
    r = EAS_Render(h, buf, SLICE, &count); s.result = r; s.count = count; memcpy(s.pcm, buf, sizeof s.pcm); free(buf);
    if (count == 0) memset(s.pcm, 0, sizeof s.pcm);
    slices++; gSimFrames += SLICE; return r;
}

// ---------------------------------------------------------------- measurement
double rms(const vector<float> &v, size_t a, size_t n) { double e = 0; size_t c = 0; for (size_t i = a; i < a + n && i < v.size(); i++, c++) e += (double)v[i] * v[i]; return c ? sqrt(e / c) : 0; }
double goertzel(const vector<float> &v, size_t a, size_t n, double f) {
    if (a + n > v.size()) return 0; double w = 2 * M_PI * f, c = 2 * cos(w), s0, s1 = 0, s2 = 0;
    for (size_t i = a; i < a + n; i++) { s0 = v[i] + c * s1 - s2; s2 = s1; s1 = s0; }
    double p = s1 * s1 + s2 * s2 - c * s1 * s2; return p <= 0 ? 0 : 2 * sqrt(p) / n;
}
