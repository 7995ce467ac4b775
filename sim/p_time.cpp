// T01..T06: musical time. Markers (lyrics) written next to every event tell when the player reached it.
#include "band.h"
// a song that only waits: the host for interactive streams that must share a file player's configuration

static const double S = SLICE_MS;
// two different tempi at one tick in different tracks: the file does not say which comes last
bool tempoAmbiguous(const Song &s) { map<i64, std::pair<int, Bytes>> m; for (auto &e : s.ev) if (e.b[0] == 0xff && e.b.size() > 1 && e.b[1] == 0x51) { auto it = m.find(e.tick); if (it != m.end() && it->second.first != e.trk) return true; m[e.tick] = {e.trk, e.b}; } return false; }

// system-exclusive messages in packets: F0 with the first bytes, F7 events with the others; F7 also escapes a whole message
static void splitSysex(Rng &r, Song &s) {
    vector<Ev> add; int ord = 1000000;
    if (r.chance(0.6) || s.ev.empty()) { i64 at = s.ev.empty() ? 0 : r.pick(s.ev).tick; s.ev.push_back({(int)r.range(0, s.ntrk - 1), at, r.pick(vector<Bytes>{{0xf0, 0x7f, 0x7f, 4, 1, 0, (u8)r.range(20, 127), 0xf7}, {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}, {0xf0, 0x7d, 1, 2, 3, 4, 0xf7}, {0xf7, 0xc3, (u8)r.range(0, 127)}, {0xf7, 0x93, (u8)r.range(40, 80), 100}}), ord++}); }
    for (auto &e : s.ev) if (e.b[0] == 0xf0 && e.b.size() > 3 && r.chance(0.8)) { Bytes whole = e.b; i64 tick = e.tick; size_t at = (size_t)r.range(1, (i64)whole.size() - 1); e.b.assign(whole.begin(), whole.begin() + (long)at); while (at < whole.size()) { size_t n = (size_t)r.range(1, (i64)(whole.size() - at)); Ev c = e; c.order = ord++; c.tick = tick = tick + (r.chance(0.3) ? r.range(0, s.ppqn / 8) : 0); c.b.assign(1, 0xf7); c.b.insert(c.b.end(), whole.begin() + (long)at, whole.begin() + (long)(at + n)); at += n; add.push_back(c); } }
    // the packets of one message follow each other at once in their track
    for (auto &c : add) { size_t i = s.ev.size(); for (size_t j = 0; j < s.ev.size(); j++) if (s.ev[j].trk == c.trk && s.ev[j].tick <= c.tick && (s.ev[j].b[0] == 0xf0 || s.ev[j].b[0] == 0xf7)) i = j + 1; s.ev.insert(s.ev.begin() + (long)std::min(i, s.ev.size()), c); }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); for (size_t t = 0; t < s.trkEot.size(); t++) if (s.trkEot[t] >= 0) for (auto &e : s.ev) if (e.trk == (int)t) s.trkEot[t] = std::max(s.trkEot[t], e.tick);
}
// packets that do not follow their message, or into whose time another track's events fall, have no defined meaning here
static bool packetsClear(const Song &s) {
    vector<vector<const Ev *>> t((size_t)s.ntrk); for (auto &e : s.ev) if (e.b[0] != 0xff) t[(size_t)e.trk].push_back(&e);
    auto sorted = [](vector<const Ev *> &v) { std::stable_sort(v.begin(), v.end(), [](const Ev *a, const Ev *b) { return a->tick < b->tick; }); };
    for (auto &v : t) { sorted(v); bool open = false; i64 since = 0; for (auto *e : v) { u8 c = e->b[0]; if (c == 0xf7 && !open) { if (e->b.size() < 2 || e->b[1] < 0x80 || e->b[1] >= 0xf0) return false; size_t want = (e->b[1] & 0xe0) == 0xc0 ? 3 : 4; if (e->b.size() != want) return false; continue; } if (c == 0xf7) { for (size_t i = 1; i + 1 < e->b.size(); i++) if (e->b[i] & 0x80) return false; for (auto &x : s.ev) if (x.trk != e->trk && x.b[0] != 0xff && x.tick >= since && x.tick <= e->tick) return false; open = e->b.back() != 0xf7; continue; } if (open) return false; open = c == 0xf0 && e->b.back() != 0xf7; since = e->tick; } if (open) return false; }
    return true;
}

// ---------------------------------------------------------------- T01: every event once, in order, at its musical time
// the same song in finer ticks
static void finerTicks(Rng &r, Song &s) {
    if (s.smpte || s.ppqn < 1) return; i64 f = r.range(2, std::max(2, 32767 / s.ppqn)); if (f * s.ppqn > 32767) return; i64 last = 0; for (auto &e : s.ev) last = std::max(last, e.tick); if (last * f > 400000) return;
    s.ppqn = (int)(s.ppqn * f); for (auto &e : s.ev) e.tick *= f; for (auto &e : s.trkEot) if (e > 0) e *= f;
}
// very many events at one time
static void burst(Rng &r, Song &s) {
    if (s.ev.empty()) return; i64 at = r.pick(s.ev).tick; int t = (int)r.range(0, s.ntrk - 1), c = (int)r.range(0, 15), ord = 2000000;
    for (int i = 0, n = (int)r.range(600, 3000); i < n; i++) { if (r.chance(0.02)) c = (int)r.range(0, 15); s.ev.push_back({t, at, r.chance(0.3) ? Bytes{(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)} : Bytes{(u8)(0xb0 | c), (u8)r.pick({1, 7, 10, 11}), (u8)r.range(0, 127)}, ord++}); }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); if (t < (int)s.trkEot.size() && s.trkEot[(size_t)t] >= 0) s.trkEot[(size_t)t] = std::max(s.trkEot[(size_t)t], at);
}
void gen_T01(Rng &r, Plan &p, bool thorough) {
    GenSongOpt o; o.maxNotes = thorough ? 120 : 50; o.maxTracks = r.chance(0.04) ? 49 : thorough ? 8 : 4; o.maxMs = thorough ? 4000 : 1500; o.sysex = true;
    Song s = genSong(r, o); s.enc |= r.chance(0.6) ? 1 : 0; if (r.chance(0.2)) addSetupBar(r, s); if (r.chance(0.4)) splitSysex(r, s); if (r.chance(0.08)) finerTicks(r, s); if (r.chance(0.025)) burst(r, s); if (r.chance(0.03)) s.enc |= 32; p.add("cfg poly %lld", (long long)(r.chance(0.2) ? r.range(1, 64) : 0)); songToPlan(p, 1, s);
    // the device returns what is asked, but a second stream and host yields disturb the parse schedule
    if (r.chance(0.35)) { p.add("cfg second 1"); GenSongOpt o2; o2.maxNotes = 10; o2.maxMs = 800; Song t = genSong(r, o2); songToPlan(p, 2, t); }
    if (r.chance(0.25)) { p.add("cfg lead %lld", (long long)r.pick({1, 2, 3, 20, r.range(1, 300)})); p.add("cfg leadseed %lld", (long long)r.range(0, 1 << 30)); if (r.chance(0.2)) p.add("cfg nosearch 1"); }
}
// what may stand before the header of a file: some device's header, a RIFF wrapper, or pieces of the very signature looked for
static Bytes leadBytes(const Plan &p) {
    Bytes b; Rng r((u64)p.cfg("leadseed", 1) * 77 + 5); i64 n = std::max<i64>(0, std::min<i64>(2000, p.cfg("lead", 0)));
    while ((i64)b.size() < n) switch (r.range(0, 3)) {
        case 0: b.push_back((u8)r.range(0, 255)); break;
        case 1: { Bytes x = r.pick(vector<Bytes>{{'M'}, {'M', 'T'}, {'M', 'T', 'h'}, {'M', 'T', 'r', 'k'}, {'T', 'h', 'd'}}); b.insert(b.end(), x.begin(), x.end()); break; }
        default: b.push_back((u8)"MThdRIFDdata"[r.range(0, 11)]);
    }
    b.resize((size_t)n); for (size_t i = 0; i + 3 < b.size(); i++) if (b[i] == 'M' && b[i + 1] == 'T' && b[i + 2] == 'h' && b[i + 3] == 'd') b[i + 3] = 'x';
    return b;
}
Verdict judge_T01(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1) { v.nontrivial = false; return v; }
    double endMs; auto tl = songTimeline(s, &endMs); if (endMs > 60000 || tempoAmbiguous(s) || !packetsClear(s)) { v.nontrivial = false; return v; }
    Song sm = withMarkers(s); i64 poly = p.cfg("poly");
    SimFile fm, fp, f2; fm.data = encodeSong(sm); fp.data = encodeSong(s); Song s2; bool second = p.cfg("second") && songFromPlan(p, 2, s2); if (second) f2.data = encodeSong(s2);
    Bytes lead = leadBytes(p); fm.data.insert(fm.data.begin(), lead.begin(), lead.end());
    if (p.cfg("nosearch", 0)) {   // the search for the header is off until asked for: only a file that starts with it is taken
        Stage st; EAS_HANDLE h; i64 r = st.in.open(&fm, &h), want = lead.empty() ? EAS_SUCCESS : EAS_ERROR_UNRECOGNIZED_FORMAT;
        if (r != want) { v.fail("header-search", fmt("a file behind %d other bytes gives %lld with the header search off", (int)lead.size(), (long long)r)); return v; }
    }
    map<int, double> when; for (auto &t : tl) when[t.idx] = t.ms;
    auto isNoteOn = [&](int i) { auto &b = s.ev[(size_t)i].b; size_t o = b[0] == 0xf7 ? 1 : 0; return b.size() >= o + 3 && (b[o] & 0xf0) == 0x90 && b[o + 2] > 0; };
    i64 notes = 0; auto counted = [&](Stage &st, Str *x, const char *who) { EAS_I32 c = -1; i64 r = EAS_GetNoteCount(st.in.h, x->h, &c); if (r != EAS_SUCCESS || c != notes) v.fail("note-count", fmt("%s: EAS_GetNoteCount reports %lld (result %lld) after %lld notes", who, (long long)c, (long long)r, (long long)notes)); };
    vector<vector<int>> perSlice; Hash hh; vector<u64> pcmA; i64 stopSlice = -1; i64 maxSlices = (i64)(endMs / S) + 40 + (i64)(driftMs(s, endMs) / S);
    {   // A: the marked file
        if (second && poly) gAhead = 0;      // the order of two players inside one step may decide which note makes way
        Stage st; if (!lead.empty()) EAS_SetHeaderSearchFlag(st.in.h, EAS_TRUE); Str *a = st.file(&fm); if (second) st.file(&f2, true, 0); if (!a) { v.fail("open", "a well-formed file could not be opened and prepared"); return v; }
        { EAS_I32 ft = -1; if (EAS_GetFileType(st.in.h, a->h, &ft) != EAS_SUCCESS || ft != (s.ntrk == 1 ? EAS_FILE_SMF0 : EAS_FILE_SMF1)) v.fail("file-type", fmt("EAS_GetFileType reports %lld for a file of %d tracks", (long long)ft, s.ntrk)); }
        if (poly) EAS_SetPolyphony(st.in.h, a->h, poly); st.keep = false;
        for (i64 k = 0; k < maxSlices; k++) { if (st.render() != EAS_SUCCESS) { v.fail("render-error", fmt("rendering a well-formed file failed in slice %lld with %lld", (long long)k, (long long)st.result.back())); return v; } i64 e = st.state(a); if (e != EAS_STATE_PLAY && e != EAS_STATE_READY) { stopSlice = k; break; } }
        pcmA = st.sliceHash; perSlice.resize(st.sliceHash.size());
        set<int> seen; vector<int> lastIdx((size_t)s.ntrk, -1); vector<i64> lastTick((size_t)s.ntrk, -1); i64 lastT = -1; 
        for (auto &m : a->meta) { int i = m.type == EAS_METADATA_LYRIC ? markerIndex(m.text) : -1; if (i < 0) continue; hh.u((u64)i); hh.u((u64)m.slice);
            if (i >= (int)s.ev.size()) { v.fail("bad-marker", "a lyric that is not in the file was reported"); return v; }
            if (!seen.insert(i).second) { v.fail("event-twice", fmt("event %d was played twice", i)); return v; }
            auto &e = s.ev[(size_t)i]; if (e.tick < lastT) { v.fail("order", fmt("event %d (tick %lld) was played after an event at tick %lld", i, (long long)e.tick, (long long)lastT)); return v; } lastT = e.tick;
            if (e.tick == lastTick[(size_t)e.trk] && i < lastIdx[(size_t)e.trk]) { v.fail("order-in-track", fmt("event %d was played out of file order", i)); return v; } lastTick[(size_t)e.trk] = e.tick; lastIdx[(size_t)e.trk] = i;
            double t = when[i], d = driftMs(s, t); if (t > (m.slice + 1) * S + d || t < m.slice * S - d - 0.5) { v.fail("time", fmt("event %d is due at %.2f ms but was played in the slice %.2f..%.2f ms (resolution %.2f ms)", i, t, m.slice * S, (m.slice + 1) * S, d)); return v; }
            if (m.slice < (i64)perSlice.size()) perSlice[(size_t)m.slice].push_back(i); }
        for (size_t i = 0; i < s.ev.size(); i++) if (s.ev[i].b[0] != 0xff && !seen.count((int)i)) { v.fail("event-lost", fmt("event %d (tick %lld, due %.1f ms) was never played; playback ended in slice %lld of %.0f", (int)i, (long long)s.ev[i].tick, when[(int)i], (long long)stopSlice, endMs / S)); return v; }
        for (int i : seen) notes += isNoteOn(i); counted(st, a, "the file"); if (v.violated) return v;
    }
    i64 cmp = stopSlice < 0 ? (i64)pcmA.size() : stopSlice; v.traceHash = hh.h; for (auto x : pcmA) hh.u(x); v.traceHash = hh.h;
    {   // B: the same file without markers (running status survives)
        Stage st; Str *a = st.file(&fp, true, 0); if (second) st.file(&f2, true, 0); if (!a) { v.fail("open", "the same file without lyrics could not be opened"); return v; } if (poly) EAS_SetPolyphony(st.in.h, a->h, poly); st.keep = false; st.render((i64)pcmA.size());
        for (i64 k = 0; k < cmp; k++) if (st.sliceHash[(size_t)k] != pcmA[(size_t)k]) { v.fail("sound-differs-from-file-with-lyrics", fmt("slice %lld differs", (long long)k)); return v; } }
    {   // C: the messages, with explicit status bytes, fed to an interactive stream in the slices they were due
        std::unique_ptr<SimFile> df(dummyFile()); Stage st; Str *d = st.file(df.get(), true, 0); Str *m = d ? st.midi(d) : nullptr; if (second) st.file(&f2, true, 0); if (!m) { v.fail("midi-open", "interactive stream"); return v; } if (poly) EAS_SetPolyphony(st.in.h, d->h, poly); st.keep = false;
        for (i64 k = 0; k < cmp; k++) { for (int i : perSlice[(size_t)k]) { auto &w = s.ev[(size_t)i].b; st.write(m, w[0] == 0xf7 ? Bytes(w.begin() + 1, w.end()) : w); } st.render(); if (st.sliceHash.back() != pcmA[(size_t)k]) { v.fail("sound-differs-from-messages", fmt("slice %lld of the file does not sound like its own messages", (long long)k)); return v; } } notes = 0; for (i64 k = 0; k < cmp; k++) for (int i : perSlice[(size_t)k]) notes += isNoteOn(i); counted(st, d, "its own messages"); if (v.violated) return v; }
    stat("sim.leads", lead.empty() ? 0 : 1); stat("sim.events", s.ev.size()); stat("sim.tracks", (u64)s.ntrk); v.nontrivial = s.ev.size() > 1; return v;
}
// ---------------------------------------------------------------- transport reference model, shared by T02..T06
// The model follows the header's words: a position in song time, a running/paused/ending/stopped state, a rate, a repeat count.
// "act" lines: pause | resume | locate ms rel | rate r | repeat n | scan | getrepeat
struct TOpt { bool checkSilence = true; };
static const char *stName(i64 s) { static const char *n[] = {"ready", "play", "stopping", "pausing", "stopped", "paused", "open", "error", "empty"}; return s >= 0 && s <= 8 ? n[s] : "?"; }
Verdict judgeTransport(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1) { v.nontrivial = false; return v; }
    double endMs; auto tl = songTimeline(s, &endMs); if (endMs > 120000 || tempoAmbiguous(s) || s.ev.empty() || endMs < 6) { v.nontrivial = false; return v; }
    Song s2; bool second = p.cfg("second") && songFromPlan(p, 2, s2); if (second && tempoAmbiguous(s2)) second = false;
    vector<double> when(s.ev.size(), 0); for (auto &t : tl) when[(size_t)t.idx] = t.ms;
    vector<double> when2; double end2 = 0; if (second) { auto t2 = songTimeline(s2, &end2); when2.assign(s2.ev.size(), 0); for (auto &t : t2) when2[(size_t)t.idx] = t.ms; }
    SimFile f1, f2; f1.data = encodeSong(withMarkers(s)); if (second) f2.data = encodeSong(withMarkers(s2));
    i64 total = std::min<i64>(p.cfg("slices", 600), 12000); double D = driftMs(s, endMs);
    Stage st; Str *b = nullptr; bool first2 = p.cfg("second") == 2; if (second && first2) b = st.file(&f2); Str *a = st.file(&f1); if (second && !first2) b = st.file(&f2);
    if (!a || (second && !b)) { v.fail("open", "a well-formed file could not be opened and prepared"); return v; }
    if (i64 sp = p.cfg("spoly")) EAS_SetSynthPolyphony(st.in.h, 0, std::min<i64>(64, sp));      // the streams compete for voices
    if (p.cfg("prio1") > 0) EAS_SetPriority(st.in.h, a->h, p.cfg("prio1")); if (b && p.cfg("prio2") > 0) EAS_SetPriority(st.in.h, b->h, p.cfg("prio2"));
    bool loud = true; for (auto *x : {&s, &s2}) for (auto &e : x->ev) { int t = e.b[0] & 0xf0; loud = loud && !(t == 0xb0 && (e.b[1] == 7 || e.b[1] == 11)) && e.b[0] != 0xf0 && e.b[0] != 0xf7 && !(t == 0x90 && e.b[2] > 0 && e.b[2] < 50); }      // a soft note may go on unheard for long
    enum { RUN, STOPPING, STOPPED, PAUSED }; int m = RUN; double pos = 0; double fl = SLICE_MS; i64 repeat = 0; vector<char> done(s.ev.size(), 0); double from = 0; i64 endSlice = -1, pausedSince = -1; double stopPos = 0; size_t metaSeen = 0; i64 rclock = 0; i64 lastTick = -1; vector<int> lastIdx((size_t)s.ntrk, -1); i64 passes = 0; bool any = false; i64 nacts = 0; double slack = 0; i64 quietRun = 0; bool lag = false;   // a seek or scan may cost one render step
    auto A = acts(p); size_t ai = 0; Hash hh; i64 k = 0;
    auto restart = [&](double at) { pos = at; from = at; std::fill(done.begin(), done.end(), 0); lastTick = -1; std::fill(lastIdx.begin(), lastIdx.end(), -1); slack = 0; lag = false; };
    auto complete = [&](double upto, const char *why) { for (size_t i = 0; i < s.ev.size(); i++) if (s.ev[i].b[0] != 0xff && !done[i] && when[i] > from + D && when[i] < upto - D) { v.fail("event-lost", fmt("event %d due at %.1f ms was not played although the position reached %.1f ms (%s, slice %lld)", (int)i, when[i], upto, why, (long long)k)); return; } };
    auto obs = [&]() -> int { i64 e = st.state(a); if (e == EAS_STATE_PLAY && repeat && (m == STOPPING || m == STOPPED) && st.loc(a) != 0) return STOPPED; /* a stream about to repeat reports play */ switch (e) { case 0: case 1: return RUN; case 2: return STOPPING; case 4: return STOPPED; case 3: case 5: return PAUSED; } return -1 - (int)e; };
    auto checkLoc = [&](const char *when_) { i64 l = st.loc(a); double tol = 1.01 + slack; if (m == RUN || m == PAUSED) { if (fabs(l - pos) > tol) v.fail("position", fmt("position is %lld ms, expected %.2f ms %s slice %lld", (long long)l, pos, when_, (long long)k)); } else if (fabs(l - stopPos) > tol) v.fail("position-after-end", fmt("position is %lld ms, expected %.2f ms after the end, %s slice %lld", (long long)l, stopPos, when_, (long long)k)); };
    for (k = 0; k < total && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k && !v.violated; ai++) {
            const string &c = A[ai].cmd(); nacts++; i64 r = -777; bool okExpected = true;
            if (c == "pause") { bool due = m == STOPPED && repeat && st.state(a) == EAS_STATE_PLAY; if (due) { m = RUN; if (repeat > 0) repeat--; passes++; restart(0); lag = true; } /* a stream about to repeat */ r = EAS_Pause(st.in.h, a->h); okExpected = m == RUN; if (okExpected) { m = PAUSED; pausedSince = k; } stat("sim.pause"); }
            else if (c == "resume") { r = EAS_Resume(st.in.h, a->h); okExpected = m == PAUSED; if (okExpected) m = RUN; stat("sim.resume"); }
            else if (c == "rate") { i64 q = A[ai].num(1, 1 << 28); r = EAS_SetPlaybackRate(st.in.h, a->h, (EAS_U32)q); okExpected = q >= (1 << 27) && q <= (1 << 29); if (okExpected) fl = SLICE_MS * (double)q / (double)(1 << 28); stat("sim.rate"); }
            else if (c == "repeat") { i64 n = A[ai].num(1); r = EAS_SetRepeat(st.in.h, a->h, n); repeat = n; }
            else if (c == "getrepeat") { EAS_I32 n = -99; r = EAS_GetRepeat(st.in.h, a->h, &n); if (r == EAS_SUCCESS && n != repeat) v.fail("repeat-readback", fmt("repeat count reads %lld, expected %lld in slice %lld", (long long)n, (long long)repeat, (long long)k)); }
            else if (c == "state") { r = 0; (void)st.state(a); }
            else if (c == "scan") { EAS_I32 len = -99; r = EAS_ParseMetaData(st.in.h, a->h, &len); if (r == EAS_SUCCESS) { if (fabs(len - endMs) > D + 1) v.fail("length", fmt("the scan reports %lld ms, the last event is at %.1f ms", (long long)len, endMs)); m = RUN; restart(0); lag = true; } stat("sim.scan"); }
            else if (c == "locate") { i64 t = A[ai].num(1); bool rel = A[ai].num(2) != 0; i64 before = st.loc(a); i64 target = std::max<i64>(0, rel ? before + t : t); r = EAS_Locate(st.in.h, a->h, t, rel); stat("sim.locate"); metaSeen = a->meta.size();
                if (r == EAS_SUCCESS && target != before) { int mk = m; m = RUN; int o = obs(); m = mk; if (o == RUN && repeat && target > endMs - D - 1 && st.loc(a) != target) o = STOPPED; bool wasPaused = m == PAUSED; double upTo = m == RUN || m == PAUSED ? pos : 0; (void)upTo;
                    if (target < endMs - D - 1) { int want = wasPaused ? PAUSED : RUN; if (o != want) v.fail(wasPaused ? "paused-state-lost" : "state-after-seek", fmt("state is %s after seeking from %s in slice %lld", stName(st.state(a)), wasPaused ? "paused" : "playing", (long long)k)); m = want; }
                    else if (target > endMs + D + 1) { if (o != STOPPING && o != STOPPED) v.fail("seek-past-end", fmt("state is %s after seeking to %lld ms in a file of %.1f ms", stName(st.state(a)), (long long)target, endMs)); m = o; }
                    else { if (o < 0) v.fail("state-after-seek", "bad state"); m = o; }
                    if (m == STOPPING || m == STOPPED) { stopPos = (double)st.loc(a); if (fabs(stopPos - endMs) > D + 1 || stopPos > target + 1) v.fail("seek-past-end-position", fmt("position %.0f ms after seeking to %lld ms in a file of %.1f ms", stopPos, (long long)target, endMs)); endSlice = k; from = 1e18; }
                    else { restart((double)target); lag = true; if (m == PAUSED && !wasPaused) m = RUN; i64 l = st.loc(a); if (l != target) v.fail("seek-position", fmt("position reads %lld ms right after seeking to %lld ms", (long long)l, (long long)target)); }
                } }
            else { nacts--; continue; }
            hh.s(c); hh.u((u64)r);
            if (!v.violated && (r == EAS_SUCCESS) != okExpected) v.fail(okExpected ? "refused" : "accepted", fmt("%s returned %lld in slice %lld, model state %d", c.c_str(), (long long)r, (long long)k, m));
            if (!v.violated) { int o = obs(); bool same = o == m || (m == STOPPING && o == STOPPED); if (!same) v.fail("state-after-call", fmt("state is %s after %s in slice %lld", stName(st.state(a)), c.c_str(), (long long)k)); else if (o == STOPPED && m == STOPPING) m = STOPPED; checkLoc("after a call, before"); }
            any = true;
        }
        if (v.violated) break;
        int m0 = m; double pos0 = pos; double resid = fl; i64 locBefore = st.loc(a);
        i64 r = st.render(); if (r != EAS_SUCCESS) { v.fail("render-error", fmt("EAS_Render returned %lld in slice %lld", (long long)r, (long long)k)); break; }
        { EAS_I32 rt = -1; rclock += 1486; EAS_GetRenderTime(st.in.h, &rt); if (llabs((long long)rt - (long long)((rclock + 1486 * (i64)gWarm) >> 8)) > 1) v.fail("render-clock", fmt("render clock reads %lld ms after %lld ms", (long long)rt, (long long)(rclock >> 8))); }
        int o = obs(); if (o < 0) { v.fail("state", fmt("stream state is %s in slice %lld", stName(st.state(a)), (long long)k)); break; }
        bool fresh = false; for (size_t i = metaSeen; i < a->meta.size(); i++) fresh = fresh || (a->meta[i].inRender && markerIndex(a->meta[i].text) >= 0);
        if (m0 == RUN && o == RUN && repeat && (!lag || fresh) && pos0 + fl > endMs - D - 1 && st.loc(a) != 0 && st.loc(a) == locBefore) o = STOPPED;   // ended at once, about to repeat
        // markers heard in this slice
        double hi = pos0 + resid + slack, lo = pos0 - slack;
        for (; metaSeen < a->meta.size(); metaSeen++) { auto &e = a->meta[metaSeen]; int i = e.type == EAS_METADATA_LYRIC ? markerIndex(e.text) : -1; if (i < 0) continue; if (!e.inRender) continue;
            hh.u((u64)i); hh.u((u64)k);
            if (i >= (int)s.ev.size()) { v.fail("bad-marker", "unknown lyric"); break; }
            if (m0 != RUN) { v.fail(m0 == PAUSED ? "event-while-paused" : "event-after-end", fmt("event %d was played in slice %lld", i, (long long)k)); break; }
            if (done[(size_t)i]) { v.fail("event-twice", fmt("event %d was played twice in one pass (slice %lld)", i, (long long)k)); break; }
            done[(size_t)i] = 1; auto &ev = s.ev[(size_t)i];
            if (ev.tick < lastTick) { v.fail("order", fmt("event %d at tick %lld was played after tick %lld", i, (long long)ev.tick, (long long)lastTick)); break; } lastTick = ev.tick;
            if (lastIdx[(size_t)ev.trk] > i && s.ev[(size_t)lastIdx[(size_t)ev.trk]].tick == ev.tick) { v.fail("order-in-track", fmt("event %d out of order", i)); break; } lastIdx[(size_t)ev.trk] = i;
            double t = when[(size_t)i]; if (t > hi + D || t < lo - D - 1) { v.fail("time", fmt("event %d due at %.2f ms was played in slice %lld, which covers %.2f..%.2f ms of the song (resolution %.2f ms)", i, t, (long long)k, pos0, pos0 + resid, D)); break; } }
        if (v.violated) break;
        if (m0 == RUN) {
            bool idle = lag && o == RUN && st.loc(a) == locBefore; lag = false; if (idle && std::find(done.begin(), done.end(), 1) == done.end()) { checkLoc("after"); continue; }
            if (o == RUN) { pos = pos0 + fl; slack += 0.0045; if (pos0 - slack > endMs + D + 1) v.fail("end-missed", fmt("still playing in slice %lld at %.1f ms of a file of %.1f ms", (long long)k, pos0, endMs)); complete(pos - slack, "playing"); }
            else if (o == STOPPING || o == STOPPED) { if (pos0 + fl + slack < endMs - D - 1) v.fail("ended-early", fmt("playback ended in slice %lld at %.1f ms, the last event is at %.1f ms", (long long)k, pos0 + fl, endMs)); complete(1e17, "end of file"); m = o; stopPos = pos0; endSlice = k; }
            else v.fail("state-change", fmt("state became %s in slice %lld", stName(st.state(a)), (long long)k));
            // a pass that ends without a sound restarts in the same render step
            if (o == RUN && repeat && pos0 + fl > endMs - D - 1 && st.loc(a) == 0 && pos0 > 0) { complete(1e17, "end of pass"); passes++; if (repeat > 0) repeat--; restart(0); }
        } else if (m0 == STOPPING || m0 == STOPPED) {
            if (o == RUN) { if (!repeat) v.fail("restarted", fmt("a stopped stream plays again in slice %lld", (long long)k)); else { passes++; if (repeat > 0) repeat--; m = RUN; restart(0); } }
            else if (o == STOPPED) { if (repeat && m0 == STOPPED) v.fail("repeat-missed", fmt("stopped in slice %lld with repeat count %lld", (long long)k, (long long)repeat)); m = STOPPED; }
            else if (o == STOPPING) { if (m0 == STOPPED) v.fail("state-change", "stopped became stopping"); if (st.silent(k, 1)) quietRun++; else quietRun = 0; if (loud && quietRun > 600) v.fail("never-stops", fmt("still stopping although nothing has sounded for %lld slices", (long long)quietRun)); if (k - endSlice > p.cfg("tail", 4000)) v.fail("never-stops", fmt("still stopping %lld slices after the last event", (long long)(k - endSlice))); }
            else v.fail("state-change", fmt("an ended stream became %s in slice %lld", stName(st.state(a)), (long long)k));
        } else { if (o != PAUSED) v.fail("state-change", fmt("a paused stream became %s in slice %lld", stName(st.state(a)), (long long)k)); else if (k - pausedSince > 60 && st.state(a) != EAS_STATE_PAUSED) v.fail("never-paused", "still pausing after 60 render steps"); }
        if (!v.violated) checkLoc("after");
        if (!v.violated && !second && !p.cfg("wet")) { bool quiet = (m0 == PAUSED && k - pausedSince >= 4) || (m0 == STOPPED); if (quiet && !st.silent(k, 1)) v.fail(m0 == PAUSED ? "sound-while-paused" : "sound-after-stop", fmt("slice %lld is not silent", (long long)k)); }
        st.pcm.l.reserve(1); if (st.pcm.n() > 0 && !p.cfg("keep")) { /* only the last slice is inspected */ }
    }
    v.traceHash = hh.h; if (v.violated) return v;
    if (b) { vector<int> c2(s2.ev.size(), 0); double d2 = driftMs(s2, end2); for (auto &e : b->meta) { int i = e.type == EAS_METADATA_LYRIC ? markerIndex(e.text) : -1; if (i < 0 || i >= (int)s2.ev.size()) continue; if (c2[(size_t)i]++) { v.fail("other-stream", fmt("event %d of the other stream was played twice", i)); return v; } double t = when2[(size_t)i]; if (t > (e.slice + 1) * S + d2 || t < e.slice * S - d2 - 1) { v.fail("other-stream", fmt("event %d of the other stream, due at %.1f ms, was played in slice %lld", i, t, (long long)e.slice)); return v; } }
        for (size_t i = 0; i < s2.ev.size(); i++) if (s2.ev[i].b[0] != 0xff && !c2[i] && when2[i] < total * S - d2) { v.fail("other-stream", fmt("event %d of the other stream, due at %.1f ms, was never played", (int)i, when2[i])); return v; } }
    stat("sim.transport_calls", (u64)nacts); stat("sim.passes", (u64)passes); v.nontrivial = s.ev.size() > 0; (void)any; return v;
}

// probe collection used by sound checks: programs 0..4, keys 48..79, each (program,key) owns one spectral bin
Plan probePlan() { Plan q; q.add("D 9 0"); for (int i = 0; i < 5; i++) q.add("P 9 %d 0 0 %d 0 %d 48 32 400", i, i, 20 + 40 * i); return q; }
// a song on a coarse grid with probe notes and state-changing controllers; bend: one melodic line with pitch bends and tunings
Song genProbeSong(Rng &r, int steps, bool bend) {
    Song s; s.format = r.chance(0.5) ? 0 : 1; s.ppqn = 96; s.ntrk = s.format ? (int)r.range(1, 3) : 1; s.enc = (u64)r.range(0, 3); s.trkEot.assign((size_t)s.ntrk, -1); int G = 24; int nch = bend ? 1 : (int)r.range(1, 4); int ord = 0; set<std::pair<int,int>> used; set<int> seen; i64 lead = r.chance(0.4) ? r.range(1, 4) : 0; bool sus = r.chance(0.4); // with pedals no key is used twice: unisons depend on phase
    auto put = [&](i64 step, Bytes b) { s.ev.push_back({(int)r.range(0, s.ntrk - 1), (lead + step) * G, b, ord++}); };
    int c0 = (int)r.range(0, 3); vector<int> chs; for (int i = 0; i < nch; i++) { int c = (c0 + i * 3) % 16; if (c == 9) c = 10; chs.push_back(c); }
    if (r.chance(0.5)) { i64 us = r.range(400000, 900000); s.ev.push_back({0, 0, {0xff, 0x51, 3, (u8)(us >> 16), (u8)(us >> 8), (u8)us}, ord++}); s.ev.back().b.erase(s.ev.back().b.begin() + 2); }
    for (int st = 0; st < steps; st++) {
        if (r.chance(0.08)) { i64 us = r.range(400000, 900000); s.ev.push_back({0, (lead + st) * G, {0xff, 0x51, (u8)(us >> 16), (u8)(us >> 8), (u8)us}, ord++}); }
        for (size_t ci = 0; ci < chs.size(); ci++) { int c = chs[ci];
            if (r.chance(0.35)) switch (r.range(0, 8)) { case 0: put(st, {(u8)(0xb0 | c), 7, (u8)r.range(0, 127)}); break; case 1: put(st, {(u8)(0xb0 | c), 11, (u8)r.range(20, 127)}); break; case 2: put(st, {(u8)(0xb0 | c), 10, (u8)r.range(0, 127)}); break; case 3: case 4: put(st, {(u8)(0xc0 | c), (u8)(bend ? 0 : r.range(0, 4))}); break;
                case 5: if (sus) { put(st, {(u8)(0xb0 | c), 64, (u8)r.pick({0, 127})}); break; } [[fallthrough]]; case 6: put(st, {(u8)(0xb0 | c), 121, 0}); break; case 7: put(st, {(u8)(0xb0 | c), 123, 0}); break;
                default: if (bend) { if (r.chance(0.5)) put(st, {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)}); else { put(st, {(u8)(0xb0 | c), 101, 0}); int rp = (int)r.range(0, 2); s.ev.back().trk = 0; auto same = [&](Bytes b) { s.ev.push_back({0, (lead + st) * G, b, ord++}); }; same({(u8)(0xb0 | c), 100, (u8)rp}); same({(u8)(0xb0 | c), 6, (u8)(rp == 0 ? r.range(1, 12) : r.range(58, 70))}); } } else put(st, {(u8)(0xd0 | c), (u8)r.range(0, 127)}); }
            if (r.chance(bend ? 0.8 : 0.5)) { int key = 48 + (int)ci + 4 * (int)r.range(0, 7); int len = bend ? 1 : (int)r.pick({1, 1, 2, 3, 6}); bool dup = sus && !seen.insert(c * 128 + key).second; for (int q = -1; q <= len + 1; q++) if (used.count({c * 128 + key, st + q})) dup = true; if (dup) continue; for (int q = 0; q <= len; q++) used.insert({c * 128 + key, st + q});
                int t = (int)r.range(0, s.ntrk - 1); s.ev.push_back({t, (lead + st) * G, {(u8)(0x90 | c), (u8)key, (u8)r.range(60, 127)}, ord++}); s.ev.push_back({t, (lead + st + len) * G, {(u8)(0x80 | c), (u8)key, 64}, ord++}); } } }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); return s; }
// common generator parts
Song genTransportSong(Rng &r, bool thorough, double maxMs) { GenSongOpt o; o.maxNotes = thorough ? 60 : 30; o.maxTracks = r.chance(0.03) ? 30 : 4; o.maxMs = maxMs; Song s = genSong(r, o); s.enc |= r.chance(0.5); if (r.chance(0.02)) s.enc |= 32; if (r.chance(0.15)) addSetupBar(r, s); if (r.chance(0.06)) finerTicks(r, s); return s; }
i64 songSlices(const Song &s, double *endMs) { double e; songTimeline(s, &e); if (endMs) *endMs = e; return (i64)(e / S) + 1; }
void maybeSecond(Rng &r, Plan &p) { if (!r.chance(0.3)) return; p.add("cfg second %d", (int)r.range(1, 2)); if (r.chance(0.3)) p.add("cfg spoly %lld", (long long)r.pick({1, 2, 3, r.range(1, 12)})); if (r.chance(0.3)) { p.add("cfg prio1 %lld", (long long)r.range(1, 100)); p.add("cfg prio2 %lld", (long long)r.range(1, 100)); } GenSongOpt o; o.maxNotes = 12; o.maxMs = 1500; songToPlan(p, 2, genSong(r, o)); }
// T02: end of playback, position, metadata scan
void gen_T02(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.2)) {      // two streams that take each other's voices; both must still find their end
        p.add("cfg second %d", (int)r.range(1, 2)); p.add("cfg spoly %lld", (long long)r.pick({1, 2, 3, 4, r.range(1, 12)})); p.add("cfg prio1 %lld", (long long)r.range(1, 100)); p.add("cfg prio2 %lld", (long long)r.range(1, 100)); i64 n = 0;
        for (int f = 1; f <= 2; f++) { GenSongOpt o; o.maxNotes = 24; o.maxTracks = 3; o.maxMs = 900; o.ccs = false; Song s = genSong(r, o); for (auto &e : s.ev) if ((e.b[0] & 0xf0) == 0x90 && e.b[2]) e.b[2] = (u8)std::max<int>(50, e.b[2]); songToPlan(p, f, s); n = std::max(n, songSlices(s)); }
        if (r.chance(0.3)) p.add("a %lld pause", (long long)r.range(0, n)); if (r.chance(0.3)) p.add("a %lld locate %lld 0", (long long)r.range(0, n), (long long)r.range(0, 800)); if (r.chance(0.5)) p.add("a %lld resume", (long long)n);
        p.add("cfg slices %lld", (long long)(2 * n + 1800)); return; }
    if (r.chance(0.06)) {     // a song of minutes or hours: its length, and its end after a seek
        GenSongOpt o; o.maxNotes = 12; o.maxTracks = 3; o.maxMs = 900; Song s = genSong(r, o); if (r.chance(0.3)) finerTicks(r, s); songToPlan(p, 1, s);
        p.add("cfg far %lld", (long long)r.pick({r.range(20, 600), r.range(600, 8000), r.range(8000, 15000)})); p.add("cfg farat %d", (int)r.range(0, 1000)); return; }
    if (r.chance(0.12)) {     // a scan returns to the beginning and leaves nothing behind that can be heard
        p.add("cfg rewind %d", (int)r.range(1, 2)); Song s = genWildSong(r); songToPlan(p, 1, s); i64 n = songSlices(s);
        for (int i = 0, m = (int)r.range(1, 3); i < m; i++) p.add("back %lld %d %lld 0 1", (long long)(r.chance(0.4) ? 0 : r.chance(0.3) ? n + 2000 : r.range(1, n + 300)), (int)r.chance(0.2), (long long)r.pick({0, 1, r.range(2, 40)}));
        return; }
    Song s = genTransportSong(r, thorough, r.chance(0.1) ? 6000 : 1500); double e; i64 n = songSlices(s, &e); int ord = 100000;
    // hanging notes, held pedals, long releases
    for (int i = 0, m = (int)r.range(0, 4); i < m; i++) { Ev x; x.trk = (int)r.range(0, s.ntrk - 1); x.tick = r.range(0, 4 * s.ppqn); x.order = ord++; int c = (int)r.range(0, 15); x.b = r.chance(0.5) ? Bytes{(u8)(0x90 | c), (u8)r.range(20, 100), (u8)r.range(1, 127)} : Bytes{(u8)(0xb0 | c), (u8)r.pick({64, 66, 72, 121, 123, 120}), (u8)r.range(0, 127)}; s.ev.push_back(x); }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); for (size_t i = 0; i < s.trkEot.size(); i++) if (s.trkEot[i] >= 0) for (auto &x : s.ev) if (x.trk == (int)i) s.trkEot[i] = std::max(s.trkEot[i], x.tick);
    n = songSlices(s, &e); songToPlan(p, 1, s); maybeSecond(r, p); 
    for (int i = 0, m = (int)r.range(0, 3); i < m; i++) p.add("a 0 scan"); if (r.chance(0.15)) p.add("a %lld scan", (long long)r.range(0, n + 20));
    if (r.chance(0.3)) p.add("a %lld state", (long long)r.range(0, n)); p.add("cfg slices %lld", (long long)(2 * n + (r.chance(0.1) ? 3000 : p.cfg("spoly") ? 1600 : 400)));
}
static Verdict judgeFar(const Plan &p) {
    Verdict v; Song s; if (!songFromPlan(p, 1, s) || s.ntrk < 1 || s.ev.empty() || tempoAmbiguous(s)) { v.nontrivial = false; return v; }
    double e0; auto tl = songTimeline(s, &e0); size_t cut = (size_t)(std::max<i64>(0, std::min<i64>(1000, p.cfg("farat"))) * (i64)(s.ev.size() - 1) / 1000); i64 from = s.ev[cut].tick;
    double us = 500000; for (auto &e : s.ev) if (e.tick < from && e.b[0] == 0xff && e.b.size() > 4 && e.b[1] == 0x51) us = e.b[2] * 65536.0 + e.b[3] * 256.0 + e.b[4];      // (by tick order: the events are sorted)
    i64 gap = (i64)(std::max<i64>(1, std::min<i64>(15000, p.cfg("far"))) * 1e6 * s.ppqn / us); if (gap > 0xfffff00) gap = 0xfffff00; if (s.smpte) { v.nontrivial = false; return v; }
    for (auto &e : s.ev) if (e.tick >= from) e.tick += gap; for (auto &e : s.trkEot) if (e >= from) e += gap;
    double endMs; tl = songTimeline(s, &endMs); double D = driftMs(s, endMs); if (endMs > 16000000 || D > 270000) { v.nontrivial = false; return v; }
    vector<double> when(s.ev.size(), 0); for (auto &t : tl) when[(size_t)t.idx] = t.ms; double at = when[cut]; Hash hh;
    SimFile f; f.data = encodeSong(withMarkers(s)); Stage st; st.keep = false; Str *a = st.file(&f); if (!a) { v.fail("open", "a well-formed file could not be opened and prepared"); return v; }
    EAS_I32 len = -1; i64 r = EAS_ParseMetaData(st.in.h, a->h, &len); if (r != EAS_SUCCESS || fabs(len - endMs) > D + 1) { v.fail("length", fmt("the scan reports %lld ms (result %lld), the last event is at %.1f ms", (long long)len, (long long)r, endMs)); return v; }
    i64 target = std::max<i64>(0, (i64)(at - D - 100)); r = EAS_Locate(st.in.h, a->h, target, EAS_FALSE); if (r != EAS_SUCCESS || st.loc(a) != target) { v.fail("seek-position", fmt("position reads %lld ms after seeking to %lld ms (result %lld)", (long long)st.loc(a), (long long)target, (long long)r)); return v; }
    size_t seenMeta = a->meta.size(); vector<int> n(s.ev.size(), 0); i64 last = -1, cap = (i64)((endMs - target + 2 * D) / S) + 4, stop = -1; double pos = (double)target;
    for (i64 k = 0; k < cap && !v.violated; k++) {
        if (st.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render failed"); break; }
        for (; seenMeta < a->meta.size(); seenMeta++) { auto &m = a->meta[seenMeta]; int i = m.type == EAS_METADATA_LYRIC ? markerIndex(m.text) : -1; if (i < 0 || i >= (int)s.ev.size()) continue; hh.u((u64)i);
            if (n[(size_t)i]++) v.fail("event-twice", fmt("event %d was played twice", i)); if (s.ev[(size_t)i].tick < last) v.fail("order", fmt("event %d was played late", i)); last = s.ev[(size_t)i].tick;
            if (fabs(when[(size_t)i] - pos) > D + 2 * S) v.fail("time", fmt("event %d due at %.1f ms was played at %.1f ms (resolution %.1f ms)", i, when[(size_t)i], pos, D)); }
        i64 e = st.state(a); if (e != EAS_STATE_PLAY && e != EAS_STATE_READY) { stop = k; break; } pos += S;
    }
    if (v.violated) return v;
    if (stop < 0) v.fail("end-missed", fmt("still playing at %.1f ms of a file of %.1f ms", pos, endMs)); else if (pos + S < endMs - D - 1) v.fail("ended-early", fmt("playback ended at %.1f ms, the last event is at %.1f ms", pos, endMs));
    for (size_t i = 0; i < s.ev.size() && !v.violated; i++) if (s.ev[i].b[0] != 0xff && !n[i] && when[i] > target + D + 1) v.fail("event-lost", fmt("event %d due at %.1f ms was not played after the seek to %lld ms", (int)i, when[i], (long long)target));
    stat("sim.far_songs"); hh.u((u64)stop); v.traceHash = hh.h; return v;
}
Verdict judge_T02(const Plan &p) { if (p.cfg("far")) return judgeFar(p); if (p.cfg("rewind")) return judgeRewind(p); Verdict v = judgeTransport(p); return v; }
// T03: pauses and resumes at every moment
void gen_T03(Rng &r, Plan &p, bool thorough) {
    Song s = genTransportSong(r, thorough, 1200); i64 n = songSlices(s); songToPlan(p, 1, s); maybeSecond(r, p); i64 at = r.chance(0.3) ? 0 : r.range(0, n), paused = 0;
    for (int i = 0, m = (int)r.range(1, thorough ? 14 : 8); i < m; i++) { bool want = r.chance(0.85) ? !paused : paused; p.add("a %lld %s", (long long)at, want ? "pause" : "resume"); paused = want; at += r.pick({0, 1, 2, r.range(0, 30), r.range(0, n / 3 + 1)}); }
    if (r.chance(0.8)) p.add("a %lld resume", (long long)at); if (r.chance(0.2)) p.add("a %lld pause", (long long)(at + n)); p.add("cfg slices %lld", (long long)(at + n + 300));
}
Verdict judge_T03(const Plan &p) { return judgeTransport(p); }
// T05: repeats
// songs with every kind of channel message for the built-in instruments
Song genWildSong(Rng &r) {
    GenSongOpt o; o.maxNotes = 24; o.maxTracks = 3; o.maxMs = r.pick({200, 700, 1500}); Song s = genSong(r, o); i64 last = 0; int ord = 200000; vector<int> ch; for (auto &e : s.ev) { last = std::max(last, e.tick); if ((e.b[0] & 0xf0) == 0x90) ch.push_back(e.b[0] & 15); } if (ch.empty()) return s;
    for (int i = 0, m = (int)r.range(0, 12); i < m; i++) { int c = r.pick(ch), t = (int)r.range(0, s.ntrk - 1); i64 at = r.range(0, last); auto put = [&](int a, int b, int d) { Bytes x{(u8)(a | c), (u8)b}; if (d >= 0) x.push_back((u8)d); s.ev.push_back({t, at, x, ord++}); };
        switch (r.range(0, 7)) { case 0: put(0xb0, (int)r.pick({101, 100, 99, 98}), (int)r.pick({0, 0, 1, 2, 127})); break; case 1: put(0xb0, 101, 0); put(0xb0, 100, (int)r.range(0, 2)); put(0xb0, 6, (int)r.range(0, 80)); break; case 2: put(0xb0, 0, (int)r.pick({0, 0x78, 0x79, 120, 121, 1})); if (r.chance(0.5)) put(0xb0, 32, (int)r.range(0, 2)); put(0xc0, (int)r.range(0, 127), -1); break;
        case 3: put(0xb0, (int)r.pick({120, 121, 123, 124, 126, 127}), 0); break; case 4: put(0xb0, 1, (int)r.range(0, 127)); break; case 5: put(0xd0, (int)r.range(0, 127), -1); break; case 6: put(0xb0, 64, (int)r.pick({0, 127})); break; default: put(0xc0, (int)r.range(0, 127), -1); } }
    std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); for (size_t i = 0; i < s.trkEot.size(); i++) if (s.trkEot[i] >= 0) for (auto &x : s.ev) if (x.trk == (int)i) s.trkEot[i] = std::max(s.trkEot[i], x.tick);
    if (r.chance(0.3)) { s.ev.push_back({0, r.range(0, last), r.chance(0.5) ? Bytes{0xf0, 0x7e, 0x7f, 9, 1, 0xf7} : Bytes{0xf0, 0x7f, 0x7f, 0x0b, 1, 0, (u8)r.range(1, 10), 1, (u8)r.range(1, 20), 2, (u8)r.range(10, 40), 0xf7}, ord++}); std::stable_sort(s.ev.begin(), s.ev.end(), [](const Ev &a, const Ev &b) { return a.tick < b.tick; }); }
    return s; }
void gen_T05(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.3)) { p.add("cfg probe 1"); p.add("cfg passes %d", (int)r.range(1, 4)); Song s = genProbeSong(r, 8 + (int)r.range(0, 16), r.chance(0.25)); if (r.chance(0.25)) addSetupBar(r, s); songToPlan(p, 1, s); return; }
    if (r.chance(0.3)) { p.add("cfg probe 1"); p.add("cfg wild %d", (int)r.range(1, 2)); p.add("cfg passes %d", (int)r.range(1, 3)); songToPlan(p, 1, genWildSong(r)); return; }
    bool many = r.chance(0.01);   // a jingle repeated hundreds of times
    Song s = genTransportSong(r, thorough, many ? 60 : r.chance(0.2) ? 100 : 700); i64 n = songSlices(s); songToPlan(p, 1, s); maybeSecond(r, p); i64 c = many ? r.range(100, 400) : r.pick({0, 1, 2, 3, 3, r.range(0, 6), -1, -2}); p.add("a %lld repeat %lld", (long long)(r.chance(0.6) ? 0 : r.range(0, n)), (long long)c);
    i64 slices = (n + 60) * std::min<i64>(c < 0 ? 7 : c + 2, many ? 402 : 8);
    for (int i = 0, m = (int)r.range(0, 6); i < m; i++) p.add("a %lld getrepeat", (long long)r.range(0, slices));
    if (r.chance(0.3)) { i64 at = r.range(0, slices); p.add("a %lld pause", (long long)at); p.add("a %lld resume", (long long)(at + r.range(0, 40))); }
    if (r.chance(0.2)) p.add("a %lld repeat %lld", (long long)r.range(0, slices), (long long)r.range(-1, 3)); if (r.chance(0.15)) p.add("a %lld locate %lld 0", (long long)r.range(0, slices), (long long)r.range(0, (i64)(n * S))); if (r.chance(0.15)) p.add("a %lld rate %lld", (long long)r.range(0, slices), (long long)r.range(1 << 27, 1 << 29)); if (r.chance(0.1)) p.add("a 0 scan");
    p.add("cfg slices %lld", (long long)slices);
}
Verdict judge_T05(const Plan &p) {
    if (!p.cfg("probe")) return judgeTransport(p);
    // every pass must sound like the first one: the probe instruments make passes comparable sample by sample
    Verdict v; Song s; if (!songFromPlan(p, 1, s)) { v.nontrivial = false; return v; } double endMs; songTimeline(s, &endMs); if (tempoAmbiguous(s) || endMs > 20000) { v.nontrivial = false; return v; }
    FileSet fs; fs.build(probePlan()); SimFile f; f.data = encodeSong(s); i64 n = std::min<i64>(4, std::max<i64>(1, p.cfg("passes", 2))); Stage st; if (p.cfg("wild") != 1) st.in.loadDls(fs.get(9), nullptr); Str *a = st.file(&f, true, 0); if (!a) { v.fail("open", "probe song"); return v; }
    EAS_SetRepeat(st.in.h, a->h, n); vector<i64> start{0}; i64 prev = 0, cap = (i64)((endMs / S + 1800) * (n + 1)); Hash hh; 
    bool ended = false; for (i64 k = 0; k < cap; k++) { if (st.render() != EAS_SUCCESS) { v.fail("render-error", "EAS_Render failed"); return v; } i64 l = st.loc(a); if (l < prev) start.push_back(k + 1); prev = l; if (st.state(a) == EAS_STATE_STOPPED) { ended = true; break; } }
    if (!ended) { v.fail("never-stops", fmt("%lld repeats of a %.0f ms file do not end", (long long)n, endMs)); return v; }
    if ((i64)start.size() != n + 1) { if (endMs > 12) v.fail("pass-count", fmt("%d passes were played for a repeat count of %lld", (int)start.size(), (long long)n)); else v.nontrivial = false; return v; }
    start.push_back(st.slice); i64 len = (i64)(endMs / S);
    for (i64 q = 1; q <= n && !v.violated; q++) for (i64 k = 0; k + 4 < len; k++) { double d = 0; for (int i = 0; i < SLICE; i++) d = std::max<double>(d, std::max(fabs(st.pcm.l[(size_t)((start[0] + k) * SLICE + i)] - st.pcm.l[(size_t)((start[(size_t)q] + k) * SLICE + i)]), fabs(st.pcm.r[(size_t)((start[0] + k) * SLICE + i)] - st.pcm.r[(size_t)((start[(size_t)q] + k) * SLICE + i)])));
        if (d > 0) { v.fail("pass-differs", fmt("pass %lld differs from the first one by %.0f, %lld slices in (%.1f ms of %.1f)", (long long)q + 1, d, (long long)k, k * S, endMs)); break; } }
    for (auto x : st.sliceHash) hh.u(x); v.traceHash = hh.h; stat("sim.passes", (u64)n); return v; }
// T06: playback rate
void gen_T06(Rng &r, Plan &p, bool thorough) {
    if (r.chance(0.25)) { // a held probe note: pitch and loudness must not follow the rate
        p.add("cfg probe 1"); i64 len = r.range(60, 200); p.add("cfg key %d", (int)r.range(40, 80)); for (int i = 0, m = (int)r.range(1, 8); i < m; i++) p.add("a %lld rate %lld", (long long)r.range(0, len), (long long)r.pick({1 << 27, 1 << 28, 1 << 29, r.range(1 << 27, 1 << 29)})); p.add("cfg slices %lld", (long long)len); return; }
    Song s = genTransportSong(r, thorough, 1500); i64 n = songSlices(s); songToPlan(p, 1, s); maybeSecond(r, p);
    for (int i = 0, m = (int)r.range(1, 8); i < m; i++) p.add("a %lld rate %lld", (long long)(r.chance(0.2) ? 0 : r.range(0, 2 * n)), (long long)r.pick({1 << 27, 1 << 28, 1 << 29, (1 << 27) - 1, (1 << 29) + 1, 0, r.range(1 << 27, 1 << 29), r.range(1 << 27, 1 << 29), r.range(1 << 27, 1 << 29), (i64)0xffffffffll}));
    if (r.chance(0.4)) { i64 at = r.range(0, n); p.add("a %lld pause", (long long)at); p.add("a %lld resume", (long long)(at + r.range(0, 40))); } if (r.chance(0.4)) p.add("a %lld locate %lld %d", (long long)r.range(0, n), (long long)r.range(-200, (i64)(n * S)), (int)r.range(0, 1));
    p.add("cfg slices %lld", (long long)(3 * n + 300));
}
Verdict judge_T06(const Plan &p) {
    if (!p.cfg("probe")) return judgeTransport(p);
    Verdict v; Plan q; q.add("D 9 0"); q.add("P 9 0 0 0 0 0 20 30 60 1000"); FileSet fs; fs.build(q); int key = (int)std::min<i64>(88, std::max<i64>(31, p.cfg("key", 60))), bin = 20 + key - 30;
    Song s; s.format = 0; s.ppqn = 96; s.ntrk = 1; s.trkEot = {400000}; s.ev.push_back({0, 0, {0xc0, 0}, 0}); s.ev.push_back({0, 0, {0x90, (u8)key, 127}, 1}); SimFile f; f.data = encodeSong(s);
    Stage st; st.in.loadDls(fs.get(9), nullptr); Str *a = st.file(&f); if (!a) { v.fail("open", "probe"); return v; } i64 n = std::min<i64>(2000, p.cfg("slices", 100)); auto A = acts(p); size_t ai = 0; double ref = 0; Hash hh;
    for (i64 k = 0; k < n; k++) { for (; ai < A.size() && A[ai].at <= k; ai++) if (A[ai].cmd() == "rate") { i64 q2 = A[ai].num(1); EAS_SetPlaybackRate(st.in.h, a->h, (EAS_U32)q2); hh.u((u64)q2); hh.u((u64)k); } st.render(); if (k >= 6 && k % 2 == 1) { double x = st.amp(bin, k - 1); if (k == 7) ref = x; if (ref > 0 && fabs(x - ref) > ref * 0.02) { v.fail("rate-changes-sound", fmt("the held note measures %.1f instead of %.1f in slice %lld after a rate change", x, ref, (long long)k)); break; } } }
    if (!v.violated && n > 10 && ref < 100) v.fail("probe-silent", "the held note does not sound at the normal pitch"); v.traceHash = hh.h; return v; }
