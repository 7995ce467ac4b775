// S01: text events reach the callback that is registered, cut to its buffer, and nobody else's.
#include "stage.h"
namespace {
struct Sub { int stream = 0, id = 0; i64 size = 0; vector<u8> mem; struct Call { i64 slice; int type; string text; }; vector<Call> got; const i64 *clock = nullptr; bool live = true; string bad; const bool *rendering = nullptr; };
const size_t GUARD = 64;
void onText(E_EAS_METADATA_TYPE type, char *text, EAS_VOID_PTR user) {
    Sub *u = (Sub *)user; const char *want = (const char *)u->mem.data() + GUARD;
    if (text != want) u->bad = "the callback got another buffer than the registered one";
    else if (!u->live) u->bad = "a callback that was replaced or whose stream was closed was called";
    else if (!*u->rendering) u->bad = "a callback arrived outside a render step";
    if (!u->bad.empty()) return;
    size_t n = strnlen(text, (size_t)u->size); if ((i64)n >= u->size) { u->bad = "a text is not terminated inside the registered buffer"; return; }
    u->got.push_back({*u->clock, (int)type, string(text, n)});
}
int kindOf(const Ev &e) { if (e.b[0] != 0xff || e.b.size() < 2) return -1; switch (e.b[1]) { case 1: return EAS_METADATA_TEXT; case 2: return EAS_METADATA_COPYRIGHT; case 3: return EAS_METADATA_TITLE; case 5: return EAS_METADATA_LYRIC; } return -1; }
}
void gen_S01(Rng &r, Plan &p, bool thorough) {
    int n = (int)r.range(1, 3); i64 slices = r.range(40, thorough ? 500 : 200); p.add("cfg slices %lld", (long long)slices);
    for (int i = 0; i < n; i++) {
        GenSongOpt g; g.maxNotes = 10; g.maxTracks = r.chance(0.04) ? 45 : 4; g.maxMs = (double)slices * SLICE_MS * 0.8; g.meta = false; Song s = genSong(r, g); i64 last = 1; for (auto &e : s.ev) last = std::max(last, e.tick);
        set<int> empty;
        for (int j = 0, m = (int)r.range(1, thorough ? 60 : 25); j < m; j++) {      // no two texts of a song are alike
            Bytes b{0xff, (u8)r.pick({1, 2, 3, 5, 5, 1, 4, 6, 7, 8, 9, 0x7f, 0x20})}; i64 len = r.pick({0, 1, 2, 7, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 300, r.range(0, 300)}); if (b[1] == 0x20) len = 1;
            if (len == 0 && !empty.insert(b[1]).second) len = 1;
            b.push_back((u8)(1 + j)); for (i64 q = 1; q < len; q++) b.push_back((u8)r.range(1, 255)); b.resize(2 + (size_t)len);
            s.ev.push_back({(int)r.range(0, s.ntrk - 1), r.chance(0.15) ? 0 : r.chance(0.1) ? last : r.range(0, last), b, 0});
        }
        std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); for (size_t q = 0; q < s.ev.size(); q++) s.ev[q].order = (int)q; songToPlan(p, 1 + i, s);
        if (r.chance(0.85)) p.add("a 0 reg %d %lld", i, (long long)r.pick({0, 1, 2, 3, 8, 16, 17, 32, 64, 65, 128, 256, 400}));
    }
    for (int j = 0, m = (int)r.range(0, 12); j < m; j++) {
        i64 k = r.range(0, slices); int i = (int)r.range(0, n - 1);
        switch (r.weighted({5, 2, 4, 3, 2, 2})) {
            case 0: p.add("a %lld reg %d %lld", (long long)k, i, (long long)r.pick({0, 1, 2, 5, 16, 31, 64, 127, 128, 129, 400})); break;
            case 1: p.add("a %lld unreg %d", (long long)k, i); break;
            case 2: p.add("a %lld pause %d", (long long)k, i); p.add("a %lld resume %d", (long long)(k + r.range(0, 15)), i); break;
            case 3: p.add("a %lld close %d", (long long)k, i); if (r.chance(0.6)) { p.add("a %lld open %d", (long long)(k + r.range(0, 5)), i); p.add("a %lld reg %d %lld", (long long)(k + r.range(0, 12)), i, (long long)r.range(1, 100)); } break;
            case 4: p.add("a %lld vol %d %lld", (long long)k, i, (long long)r.range(0, 100)); break;
            default: p.add("a %lld rate %d %lld", (long long)k, i, (long long)r.range(1 << 27, 1 << 29)); break;
        }
    }
}
Verdict judge_S01(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 4000); auto A = acts(p); Hash hh; u64 delivered = 0, cut = 0;
    vector<Song> songs(3); vector<bool> ok(3); vector<Bytes> bytes(3); vector<vector<double>> when(3); vector<double> drift(3);
    for (int i = 0; i < 3; i++) {
        Song &s = songs[(size_t)i]; ok[(size_t)i] = songFromPlan(p, 1 + i, s) && s.ntrk >= 1 && !tempoAmbiguous(s); if (!ok[(size_t)i]) continue;
        double endMs; when[(size_t)i].assign(s.ev.size(), 0); for (auto &t : songTimeline(s, &endMs)) when[(size_t)i][(size_t)t.idx] = t.ms;
        if (endMs > 60000) ok[(size_t)i] = false; drift[(size_t)i] = driftMs(s, endMs); bytes[(size_t)i] = encodeSong(s);
    }
    // twin 0: one big buffer per opening, never replaced; twin 1: the registrations of the plan
    struct Call { int opening; i64 slice; int type; string text; double a, b; bool stopped; }; vector<vector<Call>> ref(3); vector<u64> sound[2]; map<std::pair<int, int>, i64> reached;
    struct Expect { Sub *sub; int stream, opening; i64 from, to; };  vector<Expect> spans; vector<std::unique_ptr<Sub>> subs; i64 openings[3] = {0, 0, 0};
    for (int twin = 0; twin < 2 && !v.violated; twin++) {
        Stage st; st.keep = false; SimFile f[3]; Str *s[3] = {0, 0, 0}; Sub *sub[3] = {0, 0, 0}; int opening[3] = {-1, -1, -1}; size_t seen[3] = {0, 0, 0};
        auto reg = [&](int i, i64 size) {
            Sub *u = new Sub; subs.emplace_back(u); u->size = size; u->clock = &st.slice; u->rendering = &st.rendering; u->mem.assign((size_t)size + 2 * GUARD, 0xa5);
            i64 r = EAS_RegisterMetaDataCallback(st.in.h, s[i]->h, onText, (char *)u->mem.data() + GUARD, size, u); if (r != EAS_SUCCESS) { v.fail("register", fmt("registering a callback is refused with %lld", (long long)r)); return; }
            sub[i] = u; seen[i] = 0; if (twin) spans.push_back({u, i, opening[i], st.slice, n});
        };
        auto drop = [&](int i) { if (sub[i]) { sub[i]->live = false; for (auto &e : spans) if (e.sub == sub[i]) e.to = st.slice; } sub[i] = nullptr; };
        auto fresh = [&](int i) { i64 r = 0; opening[i]++; s[i] = st.file(&f[i], true, 0, &r); if (!s[i]) v.fail("open", fmt("a well-formed file could not be opened: %lld", (long long)r)); else if (!twin) reg(i, 512); };
        for (int i = 0; i < 3; i++) if (ok[(size_t)i]) { f[i].data = bytes[(size_t)i]; fresh(i); }
        size_t ai = 0;
        for (i64 k = 0; k < n && !v.violated; k++) {
            for (; ai < A.size() && A[ai].at <= k && !v.violated; ai++) {
                int i = (int)(((A[ai].num(1) % 3) + 3) % 3); if (!ok[(size_t)i]) continue; const string &c = A[ai].cmd();
                if (c == "open") { if (!s[i]) fresh(i); continue; }
                if (!s[i]) continue;
                if (c == "reg") { if (twin) { drop(i); reg(i, std::max<i64>(0, std::min<i64>(4096, A[ai].num(2)))); } }
                else if (c == "unreg") { if (twin) { drop(i); if (EAS_RegisterMetaDataCallback(st.in.h, s[i]->h, nullptr, nullptr, 0, nullptr) != EAS_SUCCESS) v.fail("register", "removing the callback is refused"); } }
                else if (c == "close") { st.close(s[i]); s[i] = nullptr; drop(i); }
                else if (c == "pause") EAS_Pause(st.in.h, s[i]->h);
                else if (c == "resume") EAS_Resume(st.in.h, s[i]->h);
                else if (c == "rate") EAS_SetPlaybackRate(st.in.h, s[i]->h, (EAS_U32)A[ai].num(2));
                else if (c == "vol") EAS_SetVolume(st.in.h, s[i]->h, A[ai].num(2));
            }
            i64 at[3]; bool stop[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) if (s[i]) { at[i] = st.loc(s[i]); i64 q = st.state(s[i]); stop[i] = q == EAS_STATE_PAUSED || q == EAS_STATE_STOPPED; }
            if (st.render() != EAS_SUCCESS) v.fail("render", "rendering well-formed files failed");
            for (auto &u : subs) if (u->clock == &st.slice) {
                for (size_t j = 0; j < GUARD; j++) if (u->mem[j] != 0xa5 || u->mem[GUARD + (size_t)u->size + j] != 0xa5) { v.fail("overrun", fmt("a byte outside a registered buffer of %lld bytes was written in slice %lld", (long long)u->size, (long long)k)); break; }
                if (!u->bad.empty()) v.fail("stray", u->bad + fmt(" (slice %lld)", (long long)k));
            }
            if (!twin) for (int i = 0; i < 3; i++) if (s[i]) reached[{i, opening[i]}] = st.loc(s[i]);
            if (!twin) for (int i = 0; i < 3; i++) if (s[i] && sub[i]) for (i64 b = st.loc(s[i]); seen[i] < sub[i]->got.size(); seen[i]++) { auto &c = sub[i]->got[seen[i]]; ref[(size_t)i].push_back({opening[i], c.slice, c.type, c.text, (double)at[i], (double)b, stop[i]}); }
        }
        sound[twin] = st.sliceHash; if (!twin) for (int i = 0; i < 3; i++) openings[i] = opening[i] + 1;
    }
    if (v.violated) return v;
    // the big-buffer twin against the files
    for (int i = 0; i < 3 && !v.violated; i++) for (int o = 0; o < openings[i] && !v.violated; o++) {
        const Song &s = songs[(size_t)i]; vector<vector<int>> todo((size_t)s.ntrk); for (size_t j = 0; j < s.ev.size(); j++) if (kindOf(s.ev[j]) >= 0 && s.ev[j].trk < s.ntrk) todo[(size_t)s.ev[j].trk].push_back((int)j);
        vector<size_t> head((size_t)s.ntrk, 0); i64 tick = -1;
        for (auto &c : ref[(size_t)i]) {
            if (c.opening != o) continue;
            int pick = -1; for (int t = 0; t < s.ntrk; t++) if (head[(size_t)t] < todo[(size_t)t].size()) { auto &e = s.ev[(size_t)todo[(size_t)t][head[(size_t)t]]]; if (kindOf(e) == c.type && string(e.b.begin() + 2, e.b.end()) == c.text) pick = t; }
            string show = hex(Bytes(c.text.begin(), c.text.end())).substr(0, 40);
            if (pick < 0) { v.fail("text", fmt("stream %d got type %d text %s (%d bytes) in slice %lld, which no track has next", i, c.type, show.c_str(), (int)c.text.size(), (long long)c.slice)); break; }
            int j = todo[(size_t)pick][head[(size_t)pick]++]; auto &e = s.ev[(size_t)j]; double w = when[(size_t)i][(size_t)j], d = drift[(size_t)i] + 2;
            if (e.tick < tick) v.fail("order", fmt("stream %d: text event at tick %lld comes after one at tick %lld", i, (long long)e.tick, (long long)tick)); tick = e.tick;
            if (c.stopped) v.fail("stray", fmt("stream %d: text event in slice %lld while the stream is paused or stopped", i, (long long)c.slice));
            if (w < c.a - d || w > c.b + d + 12) v.fail("time", fmt("stream %d: text event due at %.1f ms delivered in slice %lld between %.0f and %.0f ms", i, w, (long long)c.slice, c.a, c.b));
            hh.u((u64)c.slice); hh.u((u64)j); delivered++;
        }
        // nothing due before the furthest delivered tick or the reached position is missing
        for (int t = 0; t < s.ntrk && !v.violated; t++) if (head[(size_t)t] < todo[(size_t)t].size()) { auto &e = s.ev[(size_t)todo[(size_t)t][head[(size_t)t]]]; int j = todo[(size_t)t][head[(size_t)t]]; if (e.tick < tick) v.fail("lost", fmt("stream %d: text event of track %d at tick %lld was not delivered, one at tick %lld was", i, t, (long long)e.tick, (long long)tick)); else if (when[(size_t)i][(size_t)j] < (double)reached[{i, o}] - drift[(size_t)i] - 14) v.fail("lost", fmt("stream %d: the text event due at %.1f ms was not delivered although the position is %lld ms", i, when[(size_t)i][(size_t)j], (long long)reached[{i, o}])); }
    }
    // the planned registrations get exactly what the twin got while they were registered
    for (auto &e : spans) {
        if (v.violated) break;
        size_t j = 0; auto &g = e.sub->got;
        for (auto &c : ref[(size_t)e.stream]) {
            if (c.opening != e.opening || c.slice < e.from || c.slice >= e.to || e.sub->size == 0) continue;
            string w = c.text.substr(0, (size_t)e.sub->size - 1); if (w.size() < c.text.size()) cut++;
            if (j >= g.size()) { v.fail("missing", fmt("stream %d: the text of slice %lld did not reach the callback registered in slice %lld with %lld bytes", e.stream, (long long)c.slice, (long long)e.from, (long long)e.sub->size)); break; }
            if (g[j].slice != c.slice || g[j].type != c.type || g[j].text != w) { v.fail("delivery", fmt("stream %d, buffer of %lld bytes: got type %d, %d bytes in slice %lld; expected type %d, %d bytes in slice %lld", e.stream, (long long)e.sub->size, g[j].type, (int)g[j].text.size(), (long long)g[j].slice, c.type, (int)w.size(), (long long)c.slice)); break; }
            j++; hh.u(w.size());
        }
        if (!v.violated && j < g.size()) v.fail("extra", fmt("stream %d: a callback received %d texts too many, the first in slice %lld", e.stream, (int)(g.size() - j), (long long)g[j].slice));
    }
    for (size_t k = 0; k < sound[0].size() && !v.violated; k++) if (sound[0][k] != sound[1][k]) v.fail("sound", fmt("registering callbacks changes the audio of slice %d", (int)k));
    stat("sim.text_events", delivered); stat("sim.text_cut", cut); v.nontrivial = delivered > 0; v.traceHash = hh.h; return v;
}
