// T04: seeking, as a history of seeks against the transport model and as a comparison with music that played its way there.
#include "stage.h"
static const double S = SLICE_MS;
void gen_T04(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.5)) {   // histories of seeks, pauses and renders
        Song s = genTransportSong(r, thorough, r.chance(0.1) ? 6000 : 1500); double e; i64 n = songSlices(s, &e); songToPlan(p, 1, s); maybeSecond(r, p); i64 at = r.chance(0.3) ? 0 : r.range(0, n); bool paused = false; i64 extra = 0;
        for (int i = 0, m = (int)r.range(1, thorough ? 14 : 8); i < m; i++) {
            if (r.chance(0.25)) { p.add("a %lld %s", (long long)at, paused ? "resume" : "pause"); paused = !paused; if (r.chance(0.6)) at += r.pick({0, 0, 1, r.range(0, 20)}); }
            i64 t = 0, rel = 0; switch (r.range(0, 9)) { case 0: t = 0; break; case 1: t = (i64)e; break; case 2: t = (i64)e + r.range(-6, 6); break; case 3: t = (i64)e + r.range(0, 5000); break; case 4: case 5: rel = 1; t = r.range(-(i64)e, (i64)e); break; case 6: rel = 1; t = r.range(-20, 20); break; default: t = r.range(0, (i64)e + 1); }
            if (r.chance(0.03)) t = r.pick({0x7fffff, 100000000, -5, -1}); if (!s.ev.empty() && r.chance(0.2)) { double en; auto tl = songTimeline(s, &en); t = (i64)tl[(size_t)r.range(0, (i64)tl.size() - 1)].ms + r.range(-1, 1); rel = 0; }
            p.add("a %lld locate %lld %lld", (long long)at, (long long)t, (long long)rel); extra += n; at += r.pick({0, 0, 1, 2, r.range(0, 40), r.range(0, n)}); }
        if (paused) p.add("a %lld resume", (long long)at); if (r.chance(0.1)) p.add("a %lld rate %lld", (long long)r.range(0, at), (long long)r.range(1 << 27, 1 << 29)); if (r.chance(0.1)) p.add("a %lld scan", (long long)r.range(0, at)); if (r.chance(0.1)) p.add("a %lld repeat 1", (long long)r.range(0, at));
        p.add("cfg slices %lld", (long long)(at + 2 * n + 300)); return; }
    if (r.chance(0.3)) {   // back to the beginning, with the built-in instruments and every kind of controller
        p.add("cfg rewind %d", (int)r.range(1, 2)); Song s = genWildSong(r); songToPlan(p, 1, s); double e; i64 n = songSlices(s, &e);
        for (int i = 0, m = (int)r.range(1, 3); i < m; i++) { int kind = (int)r.range(0, 3); p.add("back %lld %d %lld %d 0", (long long)(kind == 3 ? n + 2000 : r.pick({1, r.range(1, n), r.range(1, n + 300)})), kind == 1, (long long)r.pick({0, 1, r.range(2, 40)}), (int)r.chance(0.5)); }
        return; }
    p.add("cfg probe 1"); Song s = genProbeSong(r, 10 + (int)r.range(0, 24), r.chance(0.35)); songToPlan(p, 1, s); double e; i64 n = songSlices(s, &e);
    p.add("cfg play %lld", (long long)r.pick({0, 1, r.range(0, n), r.range(0, n + 20)})); int hops = (int)r.pick({1, 1, 1, 2, 3});
    for (int i = 0; i < hops; i++) { p.add("hop %lld %d %d %lld", (long long)r.range(0, (i64)e), (int)r.range(0, 1), (int)r.chance(0.3), (long long)r.pick({0, 1, r.range(0, 30)})); }
}
// B seeks (hops) in a song; A is the same song without the notes begun before the last target. From there on both must sound alike.
static Verdict judgeChase(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1) { v.nontrivial = false; return v; } double endMs; auto tl = songTimeline(s, &endMs); if (tempoAmbiguous(s) || endMs > 30000 || hasSetupBar(s)) { v.nontrivial = false; return v; }
    { bool pedal = false, again = false; set<int> k; for (auto &e : s.ev) { if ((e.b[0] & 0xf0) == 0xb0 && e.b[1] == 64) pedal = true; if ((e.b[0] & 0xf0) == 0x90 && e.b[2] && !k.insert((e.b[0] & 15) * 128 + e.b[1]).second) again = true; } if (pedal && again) { v.nontrivial = false; return v; }
      map<int, int> rpn; for (auto &e : s.ev) if ((e.b[0] & 0xf0) == 0xb0) { int c = e.b[0] & 15; if (e.b[1] == 100) rpn[c] = e.b[2]; else if (e.b[1] == 6 && rpn.count(c) && (rpn[c] == 0 ? e.b[2] > 12 : e.b[2] < 58 || e.b[2] > 70)) { v.nontrivial = false; return v; } }   // sounds tuned that far lie outside the analysed bins
      map<int, double> until; bool overlap = false; vector<double> w(s.ev.size(), 0); for (auto &t : tl) w[(size_t)t.idx] = t.ms; for (size_t i = 0; i < s.ev.size(); i++) { auto &e = s.ev[i]; int id = (e.b[0] & 15) * 128 + (e.b.size() > 1 ? e.b[1] : 0), t = e.b[0] & 0xf0; if (t == 0x90 && e.b[2]) { auto it = until.find(id); if (it != until.end() && it->second > w[i]) overlap = true; if (rpn.size()) for (auto &o : until) if (o.first != id && o.second > w[i]) overlap = true; until[id] = 1e18; } else if (t == 0x80 || t == 0x90) { if (until.count(id)) until[id] = w[i] + 40; } } if (overlap) { v.nontrivial = false; return v; } }   // unisons depend on phase
    { bool bent = false, high = false; for (auto &e : s.ev) { int t = e.b[0] & 0xf0; if (t == 0xe0 || (t == 0xb0 && (e.b[1] == 100 || e.b[1] == 101))) bent = true; if (t == 0xc0 && e.b[1] > 0) high = true; } if (bent && high) { v.nontrivial = false; return v; } }   // interpolation makes high detuned waves beat
    FileSet fs; fs.build(probePlan()); SimFile f; f.data = encodeSong(s); i64 target = -1; i64 cut = 0; bool lastPaused = false; Hash hh;
    Stage B; B.in.loadDls(fs.get(9), nullptr); Str *b = B.file(&f, true, 0); if (!b) { v.fail("open", "probe song"); return v; }
    i64 play = std::min<i64>(std::max<i64>(0, p.cfg("play")), 6000); if (B.render(play) != EAS_SUCCESS) { v.fail("render-error", "EAS_Render"); return v; } { i64 st = B.state(b); if (st == EAS_STATE_STOPPED || st == EAS_STATE_STOPPING) { /* seeking a finished file restarts it: allowed */ } }
    for (auto &l : p.lines) if (l.t[0] == "hop") { i64 t = std::max<i64>(0, l.num(1)); bool rel = l.num(2) != 0, pz = l.num(3) != 0; i64 then = std::min<i64>(std::max<i64>(0, l.num(4)), 2000);
        if (t > (i64)endMs - 30) t = std::max<i64>(0, (i64)endMs - 30); i64 here = B.loc(b); i64 st = B.state(b); bool playing = st == EAS_STATE_PLAY || st == EAS_STATE_READY; if (pz && playing) EAS_Pause(B.in.h, b->h); i64 r = EAS_Locate(B.in.h, b->h, rel ? t - here : t, rel); if (r != EAS_SUCCESS) { v.fail("seek-refused", fmt("EAS_Locate returned %lld", (long long)r)); return v; }
        if (B.loc(b) != t) { v.fail("seek-position", fmt("position reads %lld ms after seeking to %lld ms", (long long)B.loc(b), (long long)t)); return v; }
        hh.u((u64)t); hh.u((u64)pz); if (pz && playing) { i64 s2 = B.state(b); if (s2 != EAS_STATE_PAUSED && s2 != EAS_STATE_PAUSING) { v.fail("paused-state-lost", fmt("state %lld after seeking while paused", (long long)s2)); return v; } B.render(then); if (B.loc(b) != t) { v.fail("moved-while-paused", "position moved while paused"); return v; } EAS_Resume(B.in.h, b->h); then = 0; lastPaused = true; } else lastPaused = false;
        if (here != t) { target = t; cut = B.slice; } else if (target < 0) { target = -2; } B.render(then); }
    (void)lastPaused; if (target < 0) { v.nontrivial = false; v.traceHash = hh.h; return v; }
    // the twin: notes begun before the target are taken out
    double D = driftMs(s, endMs); vector<double> when(s.ev.size(), 0); for (auto &t : tl) when[(size_t)t.idx] = t.ms; Song a = s; a.ev.clear(); bool edge = false; for (size_t i = 0; i < s.ev.size(); i++) { auto &e = s.ev[i]; if ((e.b[0] & 0xf0) == 0x90 && e.b[2] > 0) { if (fabs(when[i] - target) < D + 2) edge = true; if (when[i] < target) continue; } a.ev.push_back(e); } if (edge) { v.nontrivial = false; v.traceHash = hh.h; return v; }
    SimFile g; g.data = encodeSong(a); Stage A(StageOpt{0, false, false, 0}); A.in.loadDls(fs.get(9), nullptr); Str *sa = A.file(&g, true, 0); if (!sa) { v.fail("open", "twin"); return v; }
    // play B to the end; remember the song position of each slice of both
    map<i64, i64> posA; i64 lim = (i64)(endMs / S) + 10; vector<i64> pa; for (i64 k = 0; k < lim; k++) { pa.push_back(A.loc(sa)); A.render(); }
    i64 from = B.slice; (void)from; vector<std::pair<i64, i64>> pb; while (B.slice < cut + lim + 2100) { i64 l = B.loc(b); pb.push_back({B.slice, l}); if (B.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render after a seek"); return v; } if (B.state(b) == EAS_STATE_STOPPED || l > endMs) break; }
    vector<double> evt; for (size_t i = 0; i < s.ev.size(); i++) evt.push_back(when[i]); std::sort(evt.begin(), evt.end()); i64 cmpd = 0; size_t j = 0; i64 start = -1;
    for (size_t i = 0; i + 4 < pb.size() && !v.violated; i += 2) { if (pb[i].first < cut + 12) continue; double p0 = (double)pb[i].second, p1 = p0 + 4 * S + 1; if (p1 > endMs) break; bool clear = true; auto it = std::lower_bound(evt.begin(), evt.end(), p0 - 27 - D); for (; it != evt.end() && *it < p1 + S + D; ++it) { clear = false; break; } if (!clear) continue; while (j + 1 < pa.size() && pa[j + 1] <= p0) j++; if (j + 5 >= pa.size()) break;
        string why; double d = soundDiff(A.pcm, j * SLICE, B.pcm, (size_t)pb[i].first * SLICE, 4 * SLICE, &why); cmpd++; if (start < 0) start = (i64)p0; if (d > 0.08) v.fail("sounds-different", fmt("at %.0f ms, after seeking to %lld ms, the sound differs from music that played its way there: %s", p0, (long long)target, why.c_str())); }
    for (auto x : B.sliceHash) hh.u(x); v.traceHash = hh.h; stat("sim.windows_compared", (u64)cmpd); v.nontrivial = cmpd > 0; return v; }
// Whatever was played before a seek to the very beginning, the song then sounds sample by sample as it did the first time.
Verdict judgeRewind(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1) { v.nontrivial = false; return v; } double endMs; auto tl = songTimeline(s, &endMs); if (endMs > 20000 || endMs < 12 || tl.empty() || tempoAmbiguous(s)) { v.nontrivial = false; return v; }
    SimFile f; f.data = encodeSong(s); i64 n = (i64)(endMs / S) + 2; Hash hh; i64 done = 0;
    FileSet fs; fs.build(probePlan()); bool coll = p.cfg("rewind") == 2; Stage A; if (coll) A.in.loadDls(fs.get(9), nullptr); Str *a = A.file(&f, true, 0); if (!a) { v.fail("open", "song"); return v; } vector<i64> la; for (i64 k = 0; k < n; k++) { la.push_back(A.loc(a)); if (A.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render"); return v; } }
    Stage B(StageOpt{0, false, false, 0}); if (coll) B.in.loadDls(fs.get(9), nullptr); Str *b = B.file(&f, true, 0); if (!b) { v.fail("open", "song"); return v; }
    for (auto &l : p.lines) if (l.t[0] == "back" && !v.violated) {
        i64 play = std::min<i64>(6000, std::max<i64>(l.num(5) == 1 ? 0 : 1, l.num(1))), wait = std::min<i64>(200, std::max<i64>(0, l.num(3))); bool pz = l.num(2) != 0, rel = l.num(4) != 0; for (i64 k = 0; k < play && B.state(b) != EAS_STATE_STOPPED; k++) if (B.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render"); return v; }
        i64 st = B.state(b), here = B.loc(b); if (here == 0 && l.num(5) != 1) continue; if (st != EAS_STATE_PLAY && st != EAS_STATE_STOPPED && !(st == EAS_STATE_READY && l.num(5) == 1)) continue; if (pz && st == EAS_STATE_PLAY && l.num(5) != 1) { EAS_Pause(B.in.h, b->h); if (wait) B.render(2); } else pz = false;
        if (l.num(5) == 1) { EAS_I32 len = -1; i64 r = EAS_ParseMetaData(B.in.h, b->h, &len); if (r != EAS_SUCCESS) { v.fail("scan-refused", fmt("EAS_ParseMetaData returned %lld", (long long)r)); return v; } stat("sim.scan"); }
        i64 r = l.num(5) == 1 ? 0 : EAS_Locate(B.in.h, b->h, rel ? -here : 0, rel); if (r != EAS_SUCCESS) { v.fail("seek-refused", fmt("EAS_Locate returned %lld", (long long)r)); return v; } if (B.loc(b) != 0) { v.fail("seek-position", fmt("position reads %lld ms after seeking to 0", (long long)B.loc(b))); return v; }
        if (pz) { B.render(wait); EAS_Resume(B.in.h, b->h); }
        i64 from = B.slice, at = -1; while (at < 0 && B.slice < from + 6) { i64 x = B.slice; if (B.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render after a seek"); return v; } if (B.loc(b) != 0) at = x; } if (at < 0) { v.fail("seek-stands", "the song does not move after seeking to its beginning"); return v; }
        for (i64 k = 1; k < n; k++) { if (B.loc(b) != la[(size_t)k]) { v.fail("seek-position", fmt("%lld slices after a seek to the beginning the position is %lld ms instead of %lld ms", (long long)k, (long long)B.loc(b), (long long)la[(size_t)k])); break; } B.render(); }
        for (i64 k = 0; k < n && !v.violated; k++) { if (k < 2 && at < from + 3) continue; double d = 0; for (int i = 0; i < SLICE; i++) d = std::max<double>(d, std::max(fabs(A.pcm.l[(size_t)(k * SLICE + i)] - B.pcm.l[(size_t)((at + k) * SLICE + i)]), fabs(A.pcm.r[(size_t)(k * SLICE + i)] - B.pcm.r[(size_t)((at + k) * SLICE + i)]))); done++; if (d > 0) v.fail("sounds-different", fmt("%lld slices (%.1f ms) after a seek to the beginning the sound differs by %.0f from the first time", (long long)k, k * S, d)); }
        hh.u((u64)play); hh.u((u64)pz); }
    for (auto x : B.sliceHash) hh.u(x); v.traceHash = hh.h; stat("sim.slices_compared", (u64)done); v.nontrivial = done > 0; return v; }
Verdict judge_T04(const Plan &p) { if (p.cfg("rewind")) return judgeRewind(p); return p.cfg("probe") ? judgeChase(p) : judgeTransport(p); }
