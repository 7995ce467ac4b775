// E01: effects. The instance under test is compared with its twin on which no effect parameter was ever set.
#include "band.h"

namespace {
const int REV = 2, CHO = 3;
struct FxRun { bool ok = false; Pcm pcm, other; vector<char> quiet; vector<char> revOn, choOn; vector<string> results; i64 refused = 0, sets = 0; string bad; vector<i64> rr, settings; };
bool fxValid(i64 m, i64 q, i64 v) {
    if (m == REV) return q == 0 || (q == 1 && v >= 0 && v <= 3) || ((q == 2 || q == 3) && v >= 0 && v <= 32767);
    if (m == CHO) return q == 0 || (q == 1 && v >= 0 && v <= 3) || (q == 2 && v >= 10 && v <= 50) || (q == 3 && v >= 15 && v <= 60) || (q == 4 && v >= 0 && v <= 32767);
    return false;
}
}
// mode 0: parameters as written, 1: none at all; scale >= 0 replaces the level of "lev" lines; swap: bypass lines of a slice last
// last: a preset that is chosen (after another one), with its level, at slice cfg from, and switched on
static FxRun fxPlay(const Plan &p, bool params, i64 total, i64 level, bool swap, bool two, int last = -1) {
    FxRun R; FileSet fs; fs.build(p); Stage st; std::unique_ptr<Stage> o2; EAS_DATA_HANDLE E = st.in.h; if (!E) return R;
    if (SimFile *g = fs.get(9)) st.in.loadDls(g, nullptr);
    SimFile f2; if (two) { StageOpt so; so.reset = false; o2.reset(new Stage(so)); if (SimFile *g = fs.get(9)) { SimFile gg; gg.data = g->data; o2->in.loadDls(&gg, nullptr); } }
    SimFile *song = fs.get(1); Str *f = song ? st.file(song, true, 0) : nullptr, *m = st.midi(); Str *bf = nullptr, *bm = nullptr;
    if (two) { if (song) { f2.data = song->data; bf = o2->file(&f2, true, 0); } bm = o2->midi(); }
    if (!m || (song && !f)) return R;
    EAS_SetVolume(E, nullptr, p.cfg("master", 90)); if (two) EAS_SetVolume(o2->in.h, nullptr, p.cfg("master", 90));
    bool by[2] = {true, true}; i64 lv[2] = {-1, -1}, pre[2] = {1, 0}; auto A = acts(p); size_t ai = 0; vector<std::pair<i64, std::pair<int, int>>> offs;
    for (i64 k = 0; k < total; k++) {
        auto both = [&](const Bytes &b) { st.write(m, b); if (two) o2->write(bm, b); };
        for (auto &x : offs) if (x.first == k) both({(u8)(0x80 | x.second.first), (u8)x.second.second, 64});
        vector<const Act *> now; for (; ai < A.size() && A[ai].at <= k; ai++) now.push_back(&A[ai]);
        if (swap) std::stable_sort(now.begin(), now.end(), [](const Act *a, const Act *b) { auto w = [](const Act *x) { return x->cmd() == "param" && x->num(2) == 0 ? 1 : 0; }; return w(a) < w(b); });
        for (auto *a : now) {
            const string &c = a->cmd();
            if (c == "note") { int ch = wrap(a->num(1), 16), key = (int)a->num(2) & 127; both({(u8)(0x90 | ch), (u8)key, (u8)a->num(4, 100)}); offs.push_back({k + std::max<i64>(1, a->num(3)), {ch, key}}); }
            else if (c == "prog") both({(u8)(0xc0 | wrap(a->num(1), 16)), (u8)(a->num(2) & 127)});
            else if (c == "stop") { for (int ch = 0; ch < 16; ch++) both({(u8)(0xb0 | ch), 120, 0}); if (f) { EAS_Pause(E, f->h); if (two && bf) EAS_Pause(o2->in.h, bf->h); } }
            else if (c == "param" || c == "lev") { if (!params) continue;
                i64 mo = a->num(1), q = a->num(2), v = a->num(3); if (c == "lev" && level >= 0) v = level; if (c == "lev") q = mo == REV ? 2 : 4;
                i64 r = EAS_SetParameter(E, (EAS_I32)mo, (EAS_I32)q, (EAS_I32)v); bool good = fxValid(mo, q, v); R.sets++;
                if ((r == EAS_SUCCESS) != good) R.bad = fmt("EAS_SetParameter(%lld, %lld, %lld) returns %lld", (long long)mo, (long long)q, (long long)v, (long long)r);
                if (!good) { R.refused++; continue; }
                int i = mo == REV ? 0 : 1; if (q == 0) by[i] = v == 1; else if (q == 1) { if (pre[i] != v) lv[i] = -1; pre[i] = v; } else if ((i == 0 && q == 2) || (i == 1 && q == 4)) lv[i] = v; }
        }
        if (last >= 0 && k == p.cfg("from")) { EAS_I32 m = p.cfg("module", CHO) == REV ? REV : CHO; i64 w = p.cfg("level", -1); for (int c : {(last + 1) % 4, last}) EAS_SetParameter(E, m, 1, c); if (w >= 0) EAS_SetParameter(E, m, m == REV ? 2 : 4, (EAS_I32)std::min<i64>(w, 32767)); EAS_SetParameter(E, m, 0, 0);
            for (int q = 1; q <= (m == REV ? 3 : 4); q++) { EAS_I32 x = -1; EAS_GetParameter(E, m, q, &x); R.settings.push_back(x); } }
        i64 r = st.render(); R.rr.push_back(r); if (two) o2->render();
        R.revOn.push_back(!by[0] && lv[0] != 0); R.choOn.push_back(!by[1] && lv[1] != 0); R.quiet.push_back(!R.revOn.back() && !R.choOn.back());
    }
    R.pcm = st.pcm; if (two) R.other = o2->pcm; R.ok = true; return R;
}
void gen_E01(Rng &r, Plan &p, bool thorough) {
    int kind = r.weighted({55, 20, 10, 15}); p.add("cfg kind %d", kind); i64 len = r.range(40, thorough ? 900 : 200);
    Plan q = probePlan(); for (auto &l : q.lines) p.lines.push_back(l);
    bool song = r.chance(0.4); if (song) { GenSongOpt o; o.maxNotes = 30; o.maxMs = (double)len * 5; Song s = genSong(r, o); songToPlan(p, 1, s); }
    bool loud = kind == 1 && r.chance(0.4); if (loud) len = std::min<i64>(len, 120);
    p.add("cfg master %lld", (long long)(loud ? r.range(92, 100) : kind == 1 || r.chance(0.7) ? (song ? r.range(55, 75) : r.range(70, 90)) : 90));
    for (int c = 0; c < 4; c++) if (r.chance(0.8)) p.add("a 0 prog %d %d", c, (int)r.range(0, 4));
    if (loud) for (i64 k = 0; k < len; k += r.range(2, 8)) for (int c = 0; c < 4; c++) p.add("a %lld note %d %d %lld 127", (long long)k, c, (int)r.range(48, 79), (long long)r.range(3, 60));
    else if (!song || r.chance(0.3)) for (i64 k = 0; k < len; k += r.range(1, 25)) p.add("a %lld note %d %d %lld %d", (long long)k, (int)r.range(0, 3), (int)r.range(48, 79), (long long)r.pick({1, 3, 10, 40, 100}), (int)r.range(1, 127));
    if (kind == 0) {
        if (r.chance(0.4)) p.add("cfg two 1");
        int n = (int)r.range(1, thorough ? 50 : 20); i64 k = r.range(0, len / 3); bool bad = r.chance(0.4);
        p.add("a %lld param %d 0 0", (long long)k, (int)r.pick({REV, CHO}));
        for (int i = 0; i < n; i++) { k += r.pick({0, 0, 0, 1, 2, r.range(0, 40)}); int m = (int)r.pick({REV, CHO}); if (r.chance(0.03)) k += 150;
            switch (r.range(0, 7)) {
            case 0: case 1: p.add("a %lld param %d 0 %d", (long long)k, m, (int)r.chance(0.4)); break;
            case 2: case 3: p.add("a %lld param %d 1 %lld", (long long)k, m, (long long)(bad && r.chance(0.3) ? r.pick({-1, 4, 5, 100, -32768, 65536, 65537, 256}) : r.range(0, 3))); break;
            case 4: p.add("a %lld param %d %d %lld", (long long)k, m, m == REV ? 2 : 4, (long long)(bad && r.chance(0.3) ? r.pick({-1, 32768, 65536, 70000, -32768}) : r.pick({0, 0, 1, 100, 32767, r.range(0, 32767), r.range(0, 8000)}))); break;
            case 5: if (m == CHO) p.add("a %lld param 3 %d %lld", (long long)k, 2, (long long)(bad && r.chance(0.4) ? r.pick({0, 9, 51, -10, 65546}) : r.range(10, 50))); break;
            case 6: if (m == CHO) p.add("a %lld param 3 %d %lld", (long long)k, 3, (long long)(bad && r.chance(0.4) ? r.pick({0, 14, 61, -20, 65556}) : r.range(15, 60))); break;
            default: if (bad) p.add("a %lld param %lld %lld %lld", (long long)k, (long long)r.pick({m, m, 0, 1, 4, 12, -1}), (long long)r.pick({-1, 4, 5, 6, 9, 2}), (long long)r.range(0, 40)); } }
        len = std::max(len, k + 20);
        if (r.chance(0.3)) { p.add("a %lld stop", (long long)len); p.add("cfg tail 1700"); if (r.chance(0.3)) p.add("a %lld param 2 0 1", (long long)len); }
        else { i64 e = len - r.range(1, 15); p.add("a %lld param 2 0 1", (long long)e); p.add("a %lld param 3 0 1", (long long)e); }
    } else if (kind == 3) {      // settings of a bypassed effect: only the last ones count
        int m = (int)r.pick({REV, CHO}); i64 k = r.range(0, len / 2), at = 0; p.add("cfg module %d", m); int pre = (int)r.range(0, 3);
        for (int i = 0, n = (int)r.range(1, 12); i < n; i++) { at = std::min(k, at + r.pick({0, 0, r.range(0, 20)})); int q = (int)r.weighted({50, 20, 15, 15}); p.add("a %lld param %d %d %lld", (long long)at, m, q + 1, (long long)(q == 0 ? r.range(0, 3) : m == REV || q == 3 ? r.range(0, 32767) : q == 1 ? r.range(10, 50) : r.range(15, 60))); }
        p.add("cfg from %lld", (long long)k); p.add("cfg preset %d", pre); p.add("cfg other %d", (pre + (int)r.range(1, 3)) % 4); if (r.chance(0.5)) p.add("cfg level %lld", (long long)r.range(2000, 32767));
    } else {
        int m = (int)r.pick({REV, CHO}); i64 k = r.range(0, len / 4); p.add("cfg module %d", m); p.add("cfg from %lld", (long long)k);
        p.add("a %lld param %d 0 0", (long long)k, m); p.add("a %lld param %d 1 %d", (long long)k, m, (int)r.range(0, 3)); if (m == CHO && r.chance(0.7)) { p.add("a %lld param 3 2 %lld", (long long)k, (long long)r.range(10, 50)); p.add("a %lld param 3 3 %lld", (long long)k, (long long)r.range(15, 60)); }
        i64 hi = r.pick({32767, 16384, r.range(2000, 32767)}); p.add("a %lld lev %d 0 %lld", (long long)k, m, (long long)hi); p.add("cfg hi %lld", (long long)hi); p.add("cfg lo %lld", (long long)r.range(1, hi)); }
    p.add("cfg slices %lld", (long long)len);
}
Verdict judge_E01(const Plan &p) {
    Verdict v; i64 len = std::min<i64>(p.cfg("slices", 100), 3000), tail = std::min<i64>(p.cfg("tail"), 3000), total = len + tail; int kind = (int)p.cfg("kind"); bool two = kind == 0 && p.cfg("two"); Hash hh;
    FxRun ref = fxPlay(p, false, total, -1, false, false); if (!ref.ok) { v.nontrivial = false; return v; }
    auto at = [&](const Pcm &a, int ch, size_t i) -> double { return ch ? a.r[i] : a.l[i]; };
    if (kind == 0) {
        FxRun x = fxPlay(p, true, total, -1, false, two); if (!x.ok) { v.fail("open", "the same streams could not be opened"); return v; }
        if (!x.bad.empty()) { v.fail("result", x.bad); return v; }
        if (x.rr != ref.rr) { v.fail("render-result", "rendering returns other results with effects"); return v; }
        double peak = 0; u64 on = 0; double worst = 0; i64 lastRev = -1, lastSound = -1; bool everRev = false;
        for (i64 k = 0; k < total; k++) {
            for (int ch = 0; ch < 2; ch++) for (size_t i = (size_t)k * SLICE; i < (size_t)(k + 1) * SLICE; i++) {
                double a = at(ref.pcm, ch, i), b = at(x.pcm, ch, i), d = fabs(a - b); if (a != 0) lastSound = k; peak = std::max(peak, fabs(a));
                if (x.quiet[(size_t)k]) { if (d != 0) { v.fail("not-transparent", fmt("slice %lld: every effect is bypassed or at level 0, but the sound differs from that without effects by %.0f", (long long)k, d)); return v; } continue; }
                worst = std::max(worst, d / (peak + 100));
                double lim = (x.revOn[(size_t)k] || everRev ? 3.0 * peak + 300 : 1.0 * peak + 4);
                if (d > lim && d > 0) { v.fail("unbounded", fmt("slice %lld: effects add %.0f to a sound whose peak so far is %.0f", (long long)k, d, peak)); return v; } }
            if (x.revOn[(size_t)k]) { everRev = true; lastRev = k; } if (!x.quiet[(size_t)k]) on++; }
        if (tail >= 1600) {
            double m = 0; bool revEnd = x.revOn.back(); for (int ch = 0; ch < 2; ch++) for (size_t i = (size_t)(total - 50) * SLICE; i < (size_t)total * SLICE; i++) m = std::max(m, fabs(at(x.pcm, ch, i) - at(ref.pcm, ch, i)));
            if (revEnd && m > 400) v.fail("no-decay", fmt("%lld slices after the music ended the effects still sound at %.0f", (long long)tail, m));
            if (!revEnd && x.choOn.back() && lastRev < len && m > 0) v.fail("no-decay", fmt("%lld slices after the music ended the chorus still sounds at %.0f", (long long)tail, m)); }
        if (two && x.other.n() == ref.pcm.n()) for (size_t i = 0; i < ref.pcm.n(); i++) if (x.other.l[i] != ref.pcm.l[i] || x.other.r[i] != ref.pcm.r[i]) { v.fail("other-instance", fmt("slice %d: the effects of one instance change the sound of another", (int)(i / SLICE))); break; }
        stat("fault.refused_parameter", (u64)x.refused); stat("sim.effect_slices", on); hh.u(fastHash(x.pcm.l.data(), x.pcm.l.size() * 4)); v.traceHash = hh.h; v.nontrivial = on > 0 && peak > 100; (void)worst;
        stat(fmt("max.%d", (int)(worst * 10)));
        return v;
    }
    if (kind == 3) {
        if (p.cfgs("from").empty() || p.cfgs("preset").empty() || p.cfgs("other").empty() || p.cfg("preset") == p.cfg("other")) { v.nontrivial = false; return v; }
        for (auto &l : p.lines) if (l.t[0] == "a" && l.t.size() > 3 && l.t[2] == "param" && (l.num(4) == 0 || l.num(1) > p.cfg("from") || l.num(3) != p.cfg("module", CHO))) { v.nontrivial = false; return v; }
        int pre = wrap(p.cfg("preset"), 4), oth = wrap(p.cfg("other"), 4); FxRun a = fxPlay(p, true, total, -1, false, false, pre), b = fxPlay(p, false, total, -1, false, false, pre), c = fxPlay(p, false, total, -1, false, false, oth);
        if (!a.ok || !b.ok || !c.ok) { v.nontrivial = false; return v; } double dd = 0, dc = 0; int peak = 0; size_t o = (size_t)p.cfg("from") * SLICE, far = o + 20 * SLICE;
        for (int q = 0; q < (int)b.settings.size(); q++) if (a.settings[(size_t)q] != b.settings[(size_t)q]) v.fail("settings", fmt("parameter %d of preset %d reads %lld after other settings before it and %lld without them", q + 1, pre, (long long)a.settings[(size_t)q], (long long)b.settings[(size_t)q]));
        for (size_t i = 0; i < b.pcm.n() && !v.violated; i++) for (int ch = 0; ch < 2; ch++) { double x = at(b.pcm, ch, i), y = at(a.pcm, ch, i), z = at(c.pcm, ch, i), w = at(ref.pcm, ch, i); if (x != y) { v.fail("settings", fmt("slice %d: it matters how a bypassed effect was set up before its last settings", (int)(i / SLICE))); break; } if (i >= far) { dd += (x - w) * (x - w); dc += (x - z) * (x - z); peak = std::max(peak, (int)fabs(w)); } }
        if (!v.violated && peak > 1000 && b.pcm.n() > far + 80 * SLICE && dd / (double)(b.pcm.n() - far) > 400) { stat(fmt("preset%lld.%d%d.%02d", (long long)p.cfg("module"), std::min(pre, oth), std::max(pre, oth), (int)std::min(99.0, 100 * sqrt(dc / dd)))); if (dc < 1e-4 * dd) v.fail("settings", fmt("presets %d and %d sound the same", pre, oth)); }
        hh.u(fastHash(b.pcm.l.data(), b.pcm.l.size() * 4)); v.traceHash = hh.h; v.nontrivial = dd > 0; return v; }
    { bool lev = false; for (auto &l : p.lines) lev = lev || (l.t.size() > 2 && l.t[0] == "a" && l.t[2] == "lev"); bool all = lev; for (auto *k : {"hi", "lo", "from", "module", "slices"}) all = all && (kind == 2 || !p.cfgs(k).empty()); if (!all) { v.nontrivial = false; return v; } }   // left over from minimisation
    i64 hi = p.cfg("hi", 32767), lo = std::max<i64>(1, p.cfg("lo", 1)); i64 from = p.cfg("from");
    FxRun a = fxPlay(p, true, total, hi, false, false); if (!a.ok || !a.bad.empty()) { v.fail("result", a.bad); return v; }
    hh.u(fastHash(a.pcm.l.data(), a.pcm.l.size() * 4)); v.traceHash = hh.h; double rr = 0, dd = 0, early = 0; size_t n = 0; bool clip = false, on = true;
    for (i64 k = from; k < len && k < (i64)a.quiet.size(); k++) on = on && !a.quiet[(size_t)k];
    for (size_t i = (size_t)from * SLICE; i < ref.pcm.n(); i++) for (int ch = 0; ch < 2; ch++) { double x = at(ref.pcm, ch, i), y = at(a.pcm, ch, i); if (fabs(x) > 32700 || fabs(y) > 32700) clip = true; rr += x * x; if ((i64)(i / SLICE) < len - 50) early += x * x; dd += (y - x) * (y - x); n++; }
    early = sqrt(early / (n + 1)); rr = sqrt(rr / (n + 1)); dd = sqrt(dd / (n + 1));
    if (kind == 2) {       // the order of switching on and setting up within one step does not matter
        FxRun b = fxPlay(p, true, total, hi, true, false);
        for (size_t i = 0; i < a.pcm.n(); i++) if (a.pcm.l[i] != b.pcm.l[i] || a.pcm.r[i] != b.pcm.r[i]) { v.fail("order", fmt("slice %d: it matters whether the effect is switched on before or after it is set up", (int)(i / SLICE))); break; }
        v.nontrivial = dd > 1; return v; }
    // the level scales the effect and nothing else
    FxRun b = fxPlay(p, true, total, lo, false, false);
    for (size_t i = 0; i < ref.pcm.n(); i++) for (int ch = 0; ch < 2; ch++) { double x = at(ref.pcm, ch, i), y = at(a.pcm, ch, i), z = at(b.pcm, ch, i); if (fabs(z) > 32700) continue;
        if (fabs(y) > 32700) { if (lo * 8 < hi) continue; double wy = x + (z - x) * hi / lo, tol = 3.0 * hi / lo + 3; if (y > 0 ? wy < 32700 - tol : wy > -32700 + tol) { v.fail("level", fmt("slice %d: the effect at level %lld calls for %.0f, but the sound is %.0f", (int)(i / SLICE), (long long)hi, wy, y)); return v; } continue; }
        double want = (y - x) * lo / hi; if (fabs((z - x) - want) > 2.5) { v.fail("level", fmt("slice %d: at level %lld the effect adds %.0f, at level %lld it adds %.0f", (int)(i / SLICE), (long long)hi, y - x, (long long)lo, z - x)); return v; } }
    if (on && !clip && early > 60 && early > 0.5 * rr && len - from > 60 && hi > 8000) {      // sound long enough before the end for the effect to answer
         stat(fmt("gain%d.%02d", (int)p.cfg("module"), (int)std::min(99.0, dd / rr * 10 * 32767 / hi))); if (dd < rr * hi / 32767 * (p.cfg("module") == REV ? 0.08 : 0.4)) v.fail("no-effect", fmt("the effect is on at level %lld but adds only %.1f to a sound of %.1f", (long long)hi, dd, rr)); }
    v.nontrivial = dd > 1; return v;
}
