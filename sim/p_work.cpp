// W01: host yields and load limits. A render step that was cut short delivers no frames and is asked again; what the
// listener gets must be exactly what an undisturbed host gets.
#include "stage.h"

namespace {
struct WUnit { Song song; std::unique_ptr<SimFile> file; Str *s = nullptr, *mate = nullptr; size_t heard = 0; bool touched = false, closed = false, paused = false, midOpen = false; };
struct WLog { vector<string> line; i64 passes = 1; };
struct WRun {
    bool ok = false; string cls, detail; vector<u64> pcm; map<int, WLog> log; map<int, vector<i64>> loc, state; vector<i64> rtime; map<int, bool> touched, ended; map<int, vector<int>> markers; u64 unfinished = 0, mids = 0, most = 0; i64 slices = 0;
    void fail(const string &c, const string &d) { if (cls.empty()) { cls = c; detail = d; } }
};
}
static WRun hear(const Plan &p, bool pressure, i64 total, const WRun *ref) {
    WRun R; FileSet fs; fs.build(p); Stage st; map<int, WUnit> U; EAS_DATA_HANDLE E = st.in.h; u64 events = 0;
    auto open = [&](int i, WUnit &u) { u.heard = 0; u.s = st.file(u.file.get(), true, 24); if (u.s && p.cfg("duo", -1) == i) u.mate = st.midi(u.s); };
    for (auto &l : p.lines) if (l.t[0] == "u" && !U.count((int)l.num(1))) {
        WUnit u; if (!songFromPlan(p, (int)l.num(3), u.song) || u.song.ntrk < 1 || tempoAmbiguous(u.song)) continue;
        double e; songTimeline(u.song, &e); if (e > 60000) continue;
        u.file.reset(new SimFile); u.file->data = encodeSong(withMarkers(u.song)); events += 2 * u.song.ev.size() + (u64)u.song.ntrk + 2; int i = (int)l.num(1); U[i] = std::move(u); }
    if (U.empty()) { R.ok = false; return R; }
    for (auto &q : U) { bool late = false; for (auto &a : acts(p)) if (a.cmd() == "open" && a.num(1) == q.first) late = true; if (!late) { open(q.first, q.second); if (!q.second.s) { R.fail("open", "a well-formed file could not be opened and prepared"); return R; } } }
    auto A = acts(p); size_t ai = 0; vector<const Act *> mids; i64 call = 0; bool calm = true;
    gSys.yieldProb = 0; if (E) EAS_SetMaxLoad(E, 0);
    auto act = [&](const Act &a, i64 k, bool mid) {
        const string &c = a.cmd(); i64 x = a.num(2);
        if (c == "yield" || c == "load" || c == "calm") { if (!pressure) return; if (c == "calm") { gSys.yieldProb = 0; EAS_SetMaxLoad(E, 0); calm = true; } else if (c == "yield") { gSys.yieldProb = a.num(1) / 1e6; gSys.yieldRng = Rng((u64)a.num(2)); gSys.yieldMax = -1; calm = false; } else { EAS_SetMaxLoad(E, a.num(1)); calm = a.num(1) <= 0 && gSys.yieldProb == 0; } return; }
        if (c == "master") { EAS_SetVolume(E, nullptr, a.num(1)); return; }
        auto it = U.find((int)a.num(1)); if (it == U.end()) return; WUnit &u = it->second; i64 r = 0;
        if (mid && c != "write" && c != "vol") u.touched = true;
        if (c == "open") { if (u.s) return; open(it->first, u); if (!u.s) R.fail("open", "a well-formed file could not be opened and prepared"); u.midOpen = mid; R.log[it->first].line.push_back(fmt("%lld open", (long long)(mid ? 0 : k))); return; }
        if (!u.s) return; EAS_HANDLE h = u.s->h;
        if (c == "close") { if (u.mate) st.close(u.mate); st.close(u.s); u.s = u.mate = nullptr; u.closed = true; return; }
        if (c == "write") { if (u.mate) r = st.write(u.mate, unhex(a.tok(2))); }
        else if (c == "vol") r = EAS_SetVolume(E, h, x);
        else if (c == "transp") r = EAS_SetTransposition(E, h, x);
        else if (c == "rate") r = EAS_SetPlaybackRate(E, h, (EAS_U32)x);
        else if (c == "pause") { r = EAS_Pause(E, h); if (r == EAS_SUCCESS) u.paused = true; }
        else if (c == "resume") { r = EAS_Resume(E, h); if (r == EAS_SUCCESS) u.paused = false; }
        else if (c == "repeat") r = EAS_SetRepeat(E, h, x);
        else if (c == "locate") { r = EAS_Locate(E, h, x, 0); u.heard = u.s->meta.size(); }
        else if (c == "scan") { EAS_I32 len = 0; r = EAS_ParseMetaData(E, h, &len); R.log[it->first].line.push_back(fmt("%lld length %lld", (long long)k, (long long)len)); u.heard = u.s->meta.size(); }
        else return;
        if (!mid) R.log[it->first].line.push_back(fmt("%lld %s -> %lld", (long long)k, c.c_str(), (long long)r));
        else R.mids++;
    };
    for (i64 k = 0; k < total && R.cls.empty(); k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) { if (A[ai].tok(5) == "mid" && pressure) mids.push_back(&A[ai]); else act(A[ai], k, A[ai].tok(5) == "mid"); }
        u64 waits = 0;
        for (;;) {
            Slice s; st.rendering = true; st.slice = k; i64 r = st.in.render(s); st.rendering = false; call++;
            if (r != EAS_SUCCESS) { R.fail("render-error", fmt("rendering fails with %lld in slice %lld", (long long)r, (long long)k)); break; }
            if (s.count == SLICE) { R.pcm.push_back(fastHash(s.pcm, sizeof s.pcm)); break; }
            if (s.count != 0) { R.fail("frames", fmt("a cut-short step delivers %lld frames", (long long)s.count)); break; }
            if (!pressure || calm) { R.fail("unfinished", fmt("step of slice %lld delivers no frames although nothing presses", (long long)k)); break; }
            waits++; R.unfinished++; if (waits > events + 64) { R.fail("stuck", fmt("slice %lld is not finished after %llu steps, all files have %llu events", (long long)k, (unsigned long long)waits, (unsigned long long)events)); break; }
            if (ref && mids.empty()) for (auto &q : U) if (q.second.s && !q.second.touched) {
                i64 l = st.loc(q.second.s); auto &w = ref->loc.at(q.first); i64 was = k > 0 ? w[(size_t)k - 1] : -1, will = k < (i64)w.size() ? w[(size_t)k] : -2;
                bool seeked = false; for (auto &a : A) if (a.at == k && (a.cmd() == "locate" || a.cmd() == "scan" || a.cmd() == "open" || a.cmd() == "repeat") && a.num(1) == q.first) seeked = true;
                if (!seeked && k > 0 && l != was && l != will && l != 0) R.fail("position-ahead", fmt("while slice %lld is unfinished stream %d is at %lld ms, between %lld and %lld in the undisturbed run", (long long)k, q.first, (long long)l, (long long)was, (long long)will)); }
            for (auto *m : mids) act(*m, k, true);
            mids.clear();
        }
        for (auto *m : mids) act(*m, k, true);
        mids.clear();
        for (auto &q : U) { i64 l = st.loc(q.second.s), e = st.state(q.second.s); R.loc[q.first].push_back(l); R.state[q.first].push_back(e);
            auto *s = q.second.s; if (!s) continue; if (s->overrun) R.fail("overrun", "text overruns the host's buffer");
            for (; q.second.heard < s->meta.size(); q.second.heard++) { auto &m = s->meta[q.second.heard]; R.log[q.first].line.push_back(fmt("%lld %d %s", (long long)k, m.type, m.text.c_str())); int mi = m.type == EAS_METADATA_LYRIC ? markerIndex(m.text) : -1; if (mi >= 0) R.markers[q.first].push_back(mi); } }
        EAS_U32 t = 0; EAS_GetRenderTime(E, (EAS_I32 *)&t); R.rtime.push_back((i64)t); R.slices++;
    }
    for (auto &q : U) { R.touched[q.first] = q.second.touched; R.ended[q.first] = !q.second.s || q.second.closed || q.second.paused || st.state(q.second.s) == EAS_STATE_STOPPED; }
    R.most = (u64)call; R.ok = true; return R;
}
void gen_W01(Rng &r, Plan &p, bool thorough) {
    int n = (int)r.pick({1, 1, 2, 2, 3}); GenSongOpt o; o.maxNotes = thorough ? 60 : 30; o.maxTracks = r.chance(0.03) ? 30 : 4; o.maxMs = thorough ? 2000 : 400; o.sysex = true; double end = 0;
    for (int i = 0; i < n; i++) {
        Song s = genSong(r, o); double ms; songTimeline(s, &ms); i64 last = 0; for (auto &e : s.ev) last = std::max(last, e.tick);
        for (int q = 0, m = (int)r.range(1, 5); q < m; q++) { i64 at = r.chance(0.3) ? 0 : r.range(0, last); int t = (int)r.range(0, s.ntrk - 1), c = (int)r.range(0, 15), cnt = (int)r.pick({8, 9, 10, 11, 20, 45}); for (int z = 0; z < cnt; z++) s.ev.push_back({t, at, r.chance(0.6) ? Bytes{(u8)(0x90 | c), (u8)r.range(30, 100), (u8)r.range(1, 127)} : Bytes{(u8)(0xb0 | c), (u8)r.pick({1, 7, 10, 11}), (u8)r.range(0, 127)}, 0}); }
        std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; });
        songToPlan(p, i + 1, s); p.add("u %d file %d", i, i + 1); end = std::max(end, ms);
    }
    if (r.chance(0.3)) p.add("cfg duo %d", (int)r.range(0, n - 1));
    i64 slices = (i64)(end / SLICE_MS) + 20; p.add("cfg slices %lld", (long long)slices); bool loose = r.chance(0.35);
    i64 k = r.chance(0.6) ? 0 : r.range(0, slices / 2); bool mixed = r.chance(0.4);
    for (int q = 0, m = (int)r.range(1, 6); q < m; q++) {
        bool load = r.chance(0.5); if (load) p.add("a %lld load %lld", (long long)k, (long long)r.pick({1, 2, 10, 20, 50, 100, 300})); else p.add("a %lld yield %lld %lld", (long long)k, (long long)r.pick({1000000, 500000, 100000, 900000}), (long long)r.range(1, 1000000));
        k += r.pick({1, 3, 20, 60, 200}); if (!mixed || r.chance(0.5)) { p.add("a %lld calm", (long long)k); k += r.pick({0, 1, 5, 40}); } }
    double dens = r.pick({0, 0, 10, 30}) / 100.0; bool reps = r.chance(0.2);
    if (n > 1 && r.chance(0.2)) p.add("a %lld open %d 0", (long long)r.range(1, slices / 2 + 1), n - 1);
    if (reps) p.add("a 0 repeat %d %d", (int)r.range(0, n - 1), (int)r.range(1, 2));
    for (i64 t = 1; t < slices; t++) if (r.chance(dens)) { int i = (int)r.range(0, n - 1);
        switch (r.range(0, 9)) {
        case 0: p.add("a %lld vol %d %lld", (long long)t, i, (long long)r.range(30, 100)); break;
        case 1: p.add("a %lld rate %d %lld", (long long)t, i, (long long)r.range(1 << 27, 1 << 29)); break;
        case 2: p.add("a %lld transp %d %lld", (long long)t, i, (long long)r.range(-12, 12)); break;
        case 3: p.add("a %lld pause %d 0", (long long)t, i); p.add("a %lld resume %d 0", (long long)(t + r.range(1, 20)), i); break;
        case 4: if (!loose) p.add("a %lld locate %d %lld", (long long)t, i, (long long)r.range(0, (i64)end)); break;
        case 5: if (!loose) p.add("a %lld scan %d 0", (long long)t, i); break;
        case 6: if (r.chance(0.15)) p.add("a %lld close %d 0", (long long)t, i); break;
        default: p.add("a %lld write %d %s", (long long)t, i, hex(genMidiBytes(r, (int)r.range(1, 4), false)).c_str()); } }
    if (loose) for (int q = 0, m = (int)r.range(1, 8); q < m; q++) { i64 t = r.range(0, slices); int i = (int)r.range(0, n - 1);
        switch (r.range(0, 5)) { case 0: case 1: case 2: p.add("a %lld pause %d 0 mid", (long long)t, i); p.add("a %lld resume %d 0%s", (long long)(t + r.range(0, 15)), i, r.chance(0.5) ? " mid" : ""); break; case 3: p.add("a %lld rate %d %lld mid", (long long)t, i, (long long)r.range(1 << 27, 1 << 29)); break; case 4: p.add("a %lld transp %d %lld mid", (long long)t, i, (long long)r.range(-12, 12)); break; default: if (r.chance(0.2)) p.add("a %lld close %d 0 mid", (long long)t, i); } }
}
Verdict judge_W01(const Plan &p) {  sameSlots();
    Verdict v; i64 total = std::min<i64>(p.cfg("slices", 200), 6000); bool mid = false, slow = false, reps = false, seeks = false; double extra = 0;
    for (auto &a : acts(p)) { if (a.tok(5) == "mid") mid = true; if (a.cmd() == "rate") slow = true; if (a.cmd() == "repeat") reps = true; if (a.cmd() == "locate" || a.cmd() == "scan") seeks = true; if (a.cmd() == "pause") extra = std::min(extra + 20, 200.0); }
    if (slow) total *= 2; if (reps) total *= 3; total += (i64)extra;
    WRun ref = hear(p, false, total, nullptr); if (!ref.ok && ref.cls.empty()) { v.nontrivial = false; return v; }
    if (!ref.cls.empty()) { v.fail(ref.cls, ref.detail + " (without pressure)"); return v; }
    WRun got = hear(p, true, total, &ref); Hash hh; for (auto x : got.pcm) hh.u(x); hh.u(got.most); v.traceHash = hh.h;
    if (!got.cls.empty()) { v.fail(got.cls, got.detail); return v; }
    bool clean = true; for (auto &t : got.touched) if (t.second) clean = false; if (mid) clean = false;
    for (auto &q : ref.log) {
        int i = q.first; if (got.touched[i]) continue; auto &a = q.second.line, &b = got.log[i].line;
        for (size_t j = 0; j < std::max(a.size(), b.size()); j++) { string x = j < a.size() ? a[j] : "nothing", y = j < b.size() ? b[j] : "nothing"; if (x != y) { v.fail("events-differ", fmt("stream %d: \"%s\" under pressure, \"%s\" without it", i, y.c_str(), x.c_str())); return v; } }
        for (size_t k = 0; k < ref.loc[i].size(); k++) { if (ref.loc[i][k] != got.loc[i][k]) { v.fail("position-differs", fmt("stream %d is at %lld ms after slice %d, at %lld ms without pressure", i, (long long)got.loc[i][k], (int)k, (long long)ref.loc[i][k])); return v; }
            if (ref.state[i][k] != got.state[i][k]) { v.fail("state-differs", fmt("stream %d is in state %lld after slice %d, in %lld without pressure", i, (long long)got.state[i][k], (int)k, (long long)ref.state[i][k])); return v; } } }
    for (size_t k = 0; k < ref.rtime.size(); k++) if (ref.rtime[k] != got.rtime[k]) { v.fail("render-time", fmt("render time %lld instead of %lld after slice %d", (long long)got.rtime[k], (long long)ref.rtime[k], (int)k)); return v; }
    if (clean) for (size_t k = 0; k < ref.pcm.size(); k++) if (ref.pcm[k] != got.pcm[k]) { v.fail("sound-differs", fmt("slice %d sounds different under pressure", (int)k)); return v; }
    // streams that were paused, resumed or retuned inside an unfinished slice: nothing may be lost, repeated or reordered
    if (!reps && !seeks) for (auto &t : got.touched) if (t.second) {
        int i = t.first; Song s; i64 fid = -1; for (auto &l : p.lines) if (l.t[0] == "u" && l.num(1) == i) { fid = l.num(3); break; } if (!songFromPlan(p, (int)fid, s)) continue;
        set<int> seen; i64 last = -1; vector<int> lastIdx((size_t)s.ntrk, -1);
        for (int m : got.markers[i]) { if (m >= (int)s.ev.size()) continue; if (!seen.insert(m).second) { v.fail("event-twice", fmt("stream %d plays event %d twice", i, m)); return v; } if (s.ev[(size_t)m].tick < last) { v.fail("order", fmt("stream %d plays event %d after a later one", i, m)); return v; } last = s.ev[(size_t)m].tick; }
        bool closed = false; for (auto &a : acts(p)) if (a.num(1) == i && (a.cmd() == "close" || a.cmd() == "open")) closed = true;
        if (!got.ended[i] && ref.ended[i]) { v.fail("never-ends", fmt("stream %d has not ended after %lld slices", i, (long long)total)); return v; }
        if (!closed && got.state[i].back() == EAS_STATE_STOPPED) for (size_t m = 0; m < s.ev.size(); m++) if (s.ev[m].b[0] != 0xff && !seen.count((int)m)) { v.fail("event-lost", fmt("stream %d ends without playing event %d (tick %lld)", i, (int)m, (long long)s.ev[m].tick)); return v; } }
    stat("fault.unfinished_step", got.unfinished); stat("fault.call_inside_unfinished_step", got.mids); stat("fault.host_yield", gSys.yields);
    v.nontrivial = got.unfinished > 3; return v;
}
