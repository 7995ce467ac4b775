#include "stage.h"
static void stageCb(E_EAS_METADATA_TYPE type, char *text, EAS_VOID_PTR u) { Str *s = (Str *)u; MetaEv m; m.slice = s->clock ? *s->clock : 0; m.type = (int)type; m.inRender = s->rendering ? *s->rendering : true; size_t n = strnlen(text, (size_t)s->bufSize + 1); if ((i64)n >= s->bufSize) s->overrun = true; m.text.assign(text, n); s->meta.push_back(m); }
Stage::Stage(const StageOpt &o) { if (o.reset) seamReset(); gHeap.fill = o.fill; gHeap.noise = o.noise; gSys.timeBase = o.timeBase; initOk = in.init() == EAS_SUCCESS; }
Stage::~Stage() { if (in.h) shutdown(); for (auto *s : strs) { free(s->buf); delete s; } }
i64 Stage::shutdown() { i64 r = in.h ? in.shutdown() : 0; return r; }
Str *Stage::file(SimFile *f, bool prep, i64 mb, i64 *res) {
    if (!in.h || !f) return nullptr; EAS_HANDLE h; in.aheadOpen(); i64 r = in.open(f, &h); if (!prep || r != EAS_SUCCESS) in.aheadClose(); if (res) *res = r; if (r != EAS_SUCCESS) return nullptr;
    Str *s = new Str; s->h = h; s->kind = 1; s->clock = &slice; s->rendering = &rendering; strs.push_back(s);
    if (prep) { r = EAS_Prepare(in.h, h); in.aheadClose(); if (res) *res = r; if (r != EAS_SUCCESS) { EAS_CloseFile(in.h, h); s->h = nullptr; s->kind = 0; return nullptr; } }
    if (mb > 0) { s->bufSize = mb; s->buf = (char *)malloc((size_t)mb); memset(s->buf, 0x7e, (size_t)mb); EAS_RegisterMetaDataCallback(in.h, h, stageCb, s->buf, mb, s); }
    return s; }
Str *Stage::midi(Str *share, i64 *res) { if (!in.h) return nullptr; EAS_HANDLE h; in.aheadOpen(); i64 r = EAS_OpenMIDIStream(in.h, &h, share ? share->h : NULL); in.aheadClose(); if (res) *res = r; if (r != EAS_SUCCESS) return nullptr; Str *s = new Str; s->h = h; s->kind = 2; strs.push_back(s); return s; }
i64 Stage::write(Str *s, const Bytes &b) { if (!s || !s->h || b.empty()) return 0; u8 *m = (u8 *)malloc(b.size()); memcpy(m, b.data(), b.size()); i64 r = EAS_WriteMIDIStream(in.h, s->h, m, (EAS_I32)b.size()); free(m); return r; }
i64 Stage::close(Str *s) { if (!s || !s->h) return 0; i64 r = s->kind == 1 ? EAS_CloseFile(in.h, s->h) : EAS_CloseMIDIStream(in.h, s->h); s->h = nullptr; s->kind = 0; return r; }
i64 Stage::render(i64 n) { i64 r = 0; for (i64 i = 0; i < n; i++) { Slice s; rendering = true; r = in.render(s); rendering = false; result.push_back(r); if (keep) pcm.add(s); sliceHash.push_back(fastHash(s.pcm, sizeof s.pcm) ^ (u64)s.result * 31 ^ (u64)s.count * 1000003); slice++; } return r; }
i64 Stage::state(Str *s) { EAS_STATE v = -99; if (!s || !s->h) return -98; i64 r = EAS_State(in.h, s->h, &v); return r == EAS_SUCCESS ? v : -1000 + r; }
i64 Stage::loc(Str *s) { EAS_I32 v = -99; if (!s || !s->h) return -98; i64 r = EAS_GetLocation(in.h, s->h, &v); return r == EAS_SUCCESS ? v : -1000 + r; }
bool Stage::silent(i64 a, i64 n) const { for (i64 i = a * SLICE; i < (a + n) * SLICE && i < (i64)pcm.n(); i++) if (pcm.l[(size_t)i] != 0 || pcm.r[(size_t)i] != 0) return false; return true; }
double Stage::amp(int bin, i64 sl, int ch) const { return goertzel(ch ? pcm.r : pcm.l, (size_t)sl * SLICE, PROBE_N, bin / (double)PROBE_N); }
vector<Act> acts(const Plan &p) { vector<Act> v; int i = 0; for (auto &l : p.lines) { if (l.t[0] == "a" && l.t.size() >= 3) v.push_back({std::max<i64>(0, l.num(1)), &l, i}); i++; } std::stable_sort(v.begin(), v.end(), [](const Act &a, const Act &b) { return a.at < b.at; }); return v; }
Song withMarkers(const Song &s) {
    Song o = s; o.ev.clear(); 
    for (size_t i = 0; i < s.ev.size(); i++) { if (s.ev[i].b[0] != 0xff) { string t = fmt("L%d", (int)i); Bytes b{0xff, 5}; b.insert(b.end(), t.begin(), t.end()); Ev e = s.ev[i]; e.b = b; o.ev.push_back(e); } o.ev.push_back(s.ev[i]); }
    for (size_t i = 0; i < o.ev.size(); i++) o.ev[i].order = (int)i; return o; }
int markerIndex(const string &t) { if (t.size() < 2 || t[0] != 'L') return -1; for (size_t i = 1; i < t.size(); i++) if (t[i] < '0' || t[i] > '9') return -1; return atoi(t.c_str() + 1); }
double driftMs(const Song &s, double until) {
    // ticks are worth a whole number of 1/1024 ms; every event may lose 1/256 ms
    double end; auto tl = songTimeline(s, &end); i64 ticks = 0; int n = 0; for (auto &t : tl) if (t.ms <= until + 1) { ticks = std::max(ticks, t.tick); n++; } for (i64 e : s.trkEot) ticks = std::max(ticks, e); 
    return ticks / 1024.0 + (n + s.ntrk) / 256.0 + 1.0; }
Plan cloneWithout(const Plan &p, const std::function<bool(const Line &)> &drop) { Plan q; q.prop = p.prop; q.seed = p.seed; for (auto &l : p.lines) if (!drop(l)) q.lines.push_back(l); return q; }
static vector<double> hann(const vector<float> &v, size_t o, size_t n, int bins) {   // windowed spectrum; bin b is b/PROBE_N cycles per sample; n is a power of two
    vector<double> re(n), im(n, 0.0); for (size_t i = 0; i < n; i++) re[i] = (o + i < v.size() ? v[o + i] : 0) * (0.5 - 0.5 * cos(2 * M_PI * (i + 0.5) / n));
    for (size_t i = 1, j = 0; i < n; i++) { size_t bit = n >> 1; for (; j & bit; bit >>= 1) j ^= bit; j ^= bit; if (i < j) std::swap(re[i], re[j]); }
    for (size_t len = 2; len <= n; len <<= 1) { double ang = -2 * M_PI / len, wr = cos(ang), wi = sin(ang); for (size_t i = 0; i < n; i += len) { double cr = 1, ci = 0; for (size_t k = 0; k < len / 2; k++) { size_t a = i + k, b = a + len / 2; double xr = re[b] * cr - im[b] * ci, xi = re[b] * ci + im[b] * cr; re[b] = re[a] - xr; im[b] = im[a] - xi; re[a] += xr; im[a] += xi; double t = cr * wr - ci * wi; ci = cr * wi + ci * wr; cr = t; } } }
    size_t st = n / PROBE_N; vector<double> m((size_t)bins); for (int b = 0; b < bins; b++) { size_t q = (size_t)b * st; m[(size_t)b] = 4 * sqrt(re[q] * re[q] + im[q] * im[q]) / n; } return m; }
vector<double> Stage::spectrum(i64 sl, int n, int ch) const { return hann(ch ? pcm.r : pcm.l, (size_t)sl * SLICE, (size_t)n * SLICE, 256); }
double soundDiff(const Pcm &a, size_t oa, const Pcm &b, size_t ob, size_t n, string *why) {
    double worst = 0; for (int ch = 0; ch < 2; ch++) { auto &x = ch ? a.r : a.l; auto &y = ch ? b.r : b.l; double rx = rms(x, oa, n), ry = rms(y, ob, n); if (rx < 2 && ry < 2) continue; double ref = std::max(rx, ry);
        double d = fabs(rx - ry) / (ref + 30); if (d > worst) { worst = d; if (why) *why = fmt("%s level %.1f instead of %.1f", ch ? "right" : "left", ry, rx); }
        auto hx = hann(x, oa, n, 256), hy = hann(y, ob, n, 256); double top = 0; for (int i = 0; i < 256; i++) top = std::max(top, std::max(hx[(size_t)i], hy[(size_t)i])); for (int i = 0; i < 256; i++) { double e = fabs(hx[(size_t)i] - hy[(size_t)i]) / (top + 30); if (e > worst) { worst = e; if (why) *why = fmt("%s bin %d measures %.1f instead of %.1f", ch ? "right" : "left", i, hy[(size_t)i], hx[(size_t)i]); } } }
    return worst; }
