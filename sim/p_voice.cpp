// V03 polyphony: limits, stealing, priorities, and voices coming back.
#include "band.h"

static const int NOTES = 52, KEYS = 13;       // notes of one player: four channels of thirteen keys
static int chanOf(int note) { static const int c[4] = {0, 5, 10, 15}; return c[note / KEYS]; }
static int binOf(int q, int note) { return 20 + 26 * (4 * q + note / KEYS) + 2 * (note % KEYS); }
static int groupOf(int note) { int k = note % KEYS % 3; return k < 2 ? k + 1 : 0; }      // exclusive key groups of the collection, if it has any
static Plan voiceCollection(bool groups, i64 attack, i64 delay) {
    Plan q; q.add("D 9 0");
    for (int p = 0; p < 8; p++) q.add("P 9 %d 0 0 %d 0 %d 48 %d 300 0 2 %d %lld %lld", p, p, 20 + 26 * p, KEYS, groups, (long long)attack, (long long)delay);
    return q;
}

void gen_V03(Rng &r, Plan &p, bool thorough) {
    int pairs = (int)r.range(1, 2); p.add("cfg pairs %d", pairs);
    if (r.chance(0.35)) p.add("cfg groups 1"); if (r.chance(0.4)) p.add("cfg attack %lld", (long long)r.range(-11900, -8400)); if (r.chance(0.4)) p.add("cfg delay %lld", (long long)r.range(-11900, -8000));
    double storm = r.pick({0, 0, 1, 2, 4}) * 0.2; i64 len = 0, steps = r.range(10, thorough ? 160 : 60);
    int pedals = r.chance(0.5) ? 8 : 0; i64 small = r.pick({1, 2, 3, 5, 8, 16, 40});
    if (r.chance(0.7)) p.add("a 0 spoly 0 %lld", (long long)r.pick({small, small + 1, small + 3, 2 * small, 64}));
    for (int q = 0; q < pairs; q++) if (r.chance(0.5)) p.add("a 0 poly %d %lld", q, (long long)r.range(1, small + 2));
    for (int q = 0; q < pairs; q++) if (r.chance(0.5)) p.add("a 0 prio %d %lld", q, (long long)(r.chance(0.3) ? r.range(45, 60) : r.range(1, 255)));
    for (i64 i = 0, k = 8; i < steps; i++) {
        int q = (int)r.range(0, pairs - 1);
        switch (r.weighted({60, 20, 7, 5, 4, 2, 2, 2, 2, 2, pedals})) {
            case 0: for (int j = 0, n = r.chance(storm) ? (int)r.range(2, 30) : 1; j < n; j++) p.add("a %lld on %d %d %d", (long long)k, q, (int)r.range(0, NOTES - 1), (int)r.range(80, 127)); break;
            case 1: for (int j = 0, n = r.chance(storm) ? (int)r.range(2, 30) : 1; j < n; j++) p.add("a %lld off %d %d", (long long)k, q, (int)r.range(0, NOTES - 1)); break;
            case 2: p.add("a %lld poly %d %lld", (long long)k, q, (long long)r.pick({0, 1, 2, small, small + 2, r.range(1, 64), 64, 65, -1})); break;
            case 3: p.add("a %lld spoly 0 %lld", (long long)k, (long long)r.pick({0, 1, small, small + 1, 2 * small, r.range(1, 64), 64, 65, -1})); break;
            case 4: p.add("a %lld prio %d %lld", (long long)k, q, (long long)(r.chance(0.3) ? r.range(45, 60) : r.range(1, 255))); break;
            case 5: p.add("a %lld gm %d", (long long)k, q); break;
            case 6: p.add("a %lld pause %d", (long long)k, q); break;
            case 7: p.add("a %lld locate %d %lld", (long long)k, q, (long long)r.range(0, 100000)); break;
            case 8: p.add("a %lld reopen %d", (long long)k, q); break;
            case 10: p.add("a %lld pedal %d %d %d", (long long)k, q, (int)r.range(0, 3), (int)r.range(0, 2)); break;
            default: p.add("a %lld mute %d %d %d", (long long)k, q, (int)r.range(0, 3), (int)r.pick({120, 123})); break;
        }
        k += r.chance(storm) ? r.range(0, 4) : r.range(9, 12); len = k;
    }
    p.add("cfg slices %lld", (long long)len + 12);
}

namespace {
struct Player { set<int> cand, heard, kept; bool pedal[4] = {}; i64 offAt[4] = {-99, -99, -99, -99}; i64 poly = 0, prio = 50; void clear() { cand.clear(); kept.clear(); } void drop(int x) { cand.erase(x); kept.erase(x); } };
}
static Str *reopen(Band &b, int q) {
    b.st.close(b.mid[(size_t)q]); b.st.close(b.host[(size_t)q]);
    b.host[(size_t)q] = b.st.file(b.hostFiles[(size_t)q].get(), true, 0);
    return b.mid[(size_t)q] = b.host[(size_t)q] ? b.st.midi(b.host[(size_t)q]) : nullptr;
}
Verdict judge_V03(const Plan &p) {
    Verdict v; i64 n = std::min<i64>(p.cfg("slices", 100), 6000); int pairs = (int)std::max<i64>(1, std::min<i64>(2, p.cfg("pairs", 1)));
    bool groups = p.cfg("groups", 0) != 0; i64 attack = std::min<i64>(-8400, std::max<i64>(-12000, p.cfg("attack", -12000))); if (attack == -12000) attack = 0; i64 delay = std::min<i64>(-8000, std::max<i64>(-12000, p.cfg("delay", -12000))); if (delay == -12000) delay = 0;
    double full; { Band ref(voiceCollection(false, attack, delay), 1); ref.note(0, 0, 48, 127); ref.st.render(8); full = ref.st.amp(20, 6); }
    Band b(voiceCollection(groups, attack, delay), pairs); if (!b.ok) { v.fail("open", "band"); return v; }
    auto programs = [&](int q) { for (int i = 0; i < 4; i++) b.prog(q, chanOf(i * KEYS), 4 * q + i); };
    for (int q = 0; q < pairs; q++) programs(q);
    vector<Player> P((size_t)pairs); i64 G = VOICES; EAS_DATA_HANDLE E = b.st.in.h;
    auto limit = [&](int q) { return P[(size_t)q].poly ? P[(size_t)q].poly : (i64)VOICES; };
    auto total = [&] { i64 t = 0; for (auto &x : P) t += (i64)x.heard.size(); return t; };
    auto listen = [&](i64 k) {      // which notes sound now
        vector<set<int>> s((size_t)pairs); auto sp = b.st.spectrum(k - 3, 4);
        for (int q = 0; q < pairs; q++) for (int i = 0; i < NOTES; i++) if (sp[(size_t)binOf(q, i)] > full * 0.16) s[(size_t)q].insert(i);
        return s;
    };
    auto A = acts(p); size_t ai = 0; i64 last = 0, lastHeard = -1, events = 0, checks = 0; Hash hh; const Act *only = nullptr; int onlyNote = -1;
    for (i64 k = 0; k < n && !v.violated; k++) {
        for (; ai < A.size() && A[ai].at <= k; ai++) {
            const string &c = A[ai].cmd(); int q = wrap(A[ai].num(1), pairs); Player &t = P[(size_t)q]; i64 x = A[ai].num(2); EAS_HANDLE h = b.host[(size_t)q] ? b.host[(size_t)q]->h : nullptr; int note = wrap(x, NOTES);
            if (!h) continue;
            if (c == "on") { if (t.cand.count(note)) continue; b.note(q, chanOf(note), 48 + note % KEYS, std::max(80, wrap(A[ai].num(3), 128))); if (groups && groupOf(note)) for (int i = note / KEYS * KEYS, e = i + KEYS; i < e; i++) if (groupOf(i) == groupOf(note)) t.drop(i); t.cand.insert(note); }
            else if (c == "off") { if (!t.cand.count(note)) continue; b.off(q, chanOf(note), 48 + note % KEYS); if (t.pedal[note / KEYS]) t.kept.insert(note); else { t.drop(note); t.offAt[note / KEYS] = k; } }
            else if (c == "pedal") {      // (a pedal pressed right after a note-off may catch the release of the note)
                int part = wrap(x, 4); bool down = A[ai].num(3) > 0; if (down && k - t.offAt[part] < 10) continue;
                b.cc(q, chanOf(part * KEYS), 64, down ? 100 : 0); t.pedal[part] = down;
                if (!down) { for (int y : set<int>(t.kept)) if (y / KEYS == part) { t.drop(y); t.offAt[part] = k; } }
            }
            else if (c == "poly") {
                i64 r = EAS_SetPolyphony(E, h, x); bool ok = x >= 0;
                if ((r == EAS_SUCCESS) != ok) v.fail("range", fmt("polyphony %lld returned %lld", (long long)x, (long long)r));
                if (ok) t.poly = x > VOICES ? 0 : x;
            }
            else if (c == "spoly") { i64 r = EAS_SetSynthPolyphony(E, 0, x); if (r != EAS_SUCCESS) v.fail("range", fmt("synthesizer polyphony %lld returned %lld", (long long)x, (long long)r)); G = std::min<i64>(VOICES, std::max<i64>(1, x)); }
            else if (c == "prio") { if (EAS_SetPriority(E, h, x) == EAS_SUCCESS) t.prio = x; }
            else if (c == "gm") { b.send(q, {0xf0, 0x7e, 0x7f, 9, 1, 0xf7}); programs(q); t.clear(); for (bool &d : t.pedal) d = false; }
            else if (c == "mute") { int part = wrap(x, 4); b.cc(q, chanOf(part * KEYS), A[ai].num(3) == 123 && !t.pedal[part] ? 123 : 120, 0); for (int i = 0; i < KEYS; i++) t.drop(part * KEYS + i); t.offAt[part] = k; }
            else if (c == "pause") { if (EAS_Pause(E, h) == EAS_SUCCESS) t.clear(); }
            else if (c == "locate") { if (EAS_Locate(E, h, x, 0) == EAS_SUCCESS) { for (int part = 0; part < 4; part++) { b.cc(q, chanOf(part * KEYS), 120, 0); b.cc(q, chanOf(part * KEYS), 64, 0); } programs(q); t.clear(); for (bool &d : t.pedal) d = false; } EAS_Resume(E, h); }
            else if (c == "reopen") { if (!reopen(b, q)) { v.fail("reopen", "stream slots are gone"); break; } programs(q); t = Player(); }
            else continue;
            events++; only = &A[ai]; onlyNote = note; last = k;
        }
        b.st.render();
        if (k - last != 8 || v.violated) continue;
        auto now = listen(k); checks++; auto before = P; for (int q = 0; q < pairs; q++) P[(size_t)q].heard = now[(size_t)q];
        auto where = [&] { return fmt("slice %lld", (long long)k); };
        for (int q = 0; q < pairs; q++) {
            for (int x : now[(size_t)q]) {
                if (!P[(size_t)q].cand.count(x)) v.fail("stuck", fmt("player %d note %d still sounds in %s", q, x, where().c_str()));
                else if (lastHeard >= 0 && events == 1 && !before[(size_t)q].heard.count(x) && !(only->cmd() == "on" && wrap(only->num(1), pairs) == q && onlyNote == x)) v.fail("back", fmt("player %d note %d sounds again without a new start, %s", q, x, where().c_str()));
            }
            if ((i64)now[(size_t)q].size() > limit(q)) v.fail("over-limit", fmt("player %d sounds %d notes, its limit is %lld, %s", q, (int)now[(size_t)q].size(), (long long)limit(q), where().c_str()));
        }
        if (total() > G) v.fail("over-limit", fmt("%lld notes sound, the limit is %lld, %s", (long long)total(), (long long)G, where().c_str()));
        if (events == 1 && only && lastHeard >= 0 && !v.violated) {
            // one operation since the last look: exact bookkeeping
            int q = wrap(only->num(1), pairs); Player &t = before[(size_t)q];
            if (groups && only->cmd() == "on" && groupOf(onlyNote)) for (int i = onlyNote / KEYS * KEYS, e = i + KEYS; i < e; i++) if (groupOf(i) == groupOf(onlyNote)) t.heard.erase(i);      // silenced by its key group, their voices are free
            i64 tb = 0; for (auto &x : before) tb += (i64)x.heard.size();
            vector<int> lost((size_t)pairs); for (int r = 0; r < pairs; r++) for (int x : before[(size_t)r].heard) if (!now[(size_t)r].count(x)) lost[(size_t)r]++;
            i64 all = 0; for (int x : lost) all += x; const string &c = only->cmd(); i64 want = 0;
            if (c == "on") {
                bool isIn = now[(size_t)q].count(onlyNote); bool own = (i64)t.heard.size() >= limit(q), fullUp = tb >= G, canTake = !t.heard.empty() && (own || fullUp);
                if (!own && fullUp) for (int r = 0; r < pairs; r++) if (!before[(size_t)r].heard.empty() && before[(size_t)r].prio >= t.prio) canTake = true;
                if (!own && !fullUp) { if (!isIn) v.fail("refused", fmt("player %d note %d does not start although %lld of %lld voices are free, %s", q, onlyNote, (long long)(G - tb), (long long)G, where().c_str())); want = 0; }
                else if (canTake) { if (!isIn) v.fail("newest", fmt("player %d note %d, the newest, does not sound, %s", q, onlyNote, where().c_str())); want = 1; }
                else want = isIn ? 1 : 0;
                if (own && lost[(size_t)q] != 1) v.fail("steal", fmt("player %d at its limit of %lld lost %d of its notes to its new one, %s", q, (long long)limit(q), lost[(size_t)q], where().c_str()));
                for (int r = 0; r < pairs; r++) if (r != q && lost[(size_t)r] && before[(size_t)r].prio < t.prio) v.fail("priority", fmt("player %d of priority %lld lost a note to player %d of priority %lld, %s", r, (long long)before[(size_t)r].prio, q, (long long)t.prio, where().c_str()));
                if (all != want) v.fail("lost", fmt("%lld notes fell silent for one new note (%lld expected; %lld sounded, limit %lld, player %d had %d of %lld), %s", (long long)all, (long long)want, (long long)tb, (long long)G, q, (int)t.heard.size(), (long long)limit(q), where().c_str()));
            }
            else if (c == "poly") { want = std::max<i64>(0, (i64)t.heard.size() - limit(q)); if (lost[(size_t)q] != want || all != want) v.fail("lost", fmt("setting the polyphony of player %d to %lld silenced %lld notes instead of %lld, %s", q, (long long)limit(q), (long long)all, (long long)want, where().c_str())); }
            else if (c == "spoly") { want = std::max<i64>(0, tb - G); if (all != want) v.fail("lost", fmt("setting the synthesizer polyphony to %lld silenced %lld notes instead of %lld, %s", (long long)G, (long long)all, (long long)want, where().c_str())); }
            else for (int r = 0; r < pairs; r++) {
                int gone = 0; for (int x : before[(size_t)r].heard) if (!P[(size_t)r].cand.count(x)) gone++;
                if (lost[(size_t)r] != gone) v.fail("lost", fmt("%s on player %d silenced %d notes of player %d instead of %d, %s", c.c_str(), q, lost[(size_t)r], r, gone, where().c_str()));
            }
        }
        for (int q = 0; q < pairs; q++) hh.u(now[(size_t)q].size() * 131 + P[(size_t)q].cand.size());
        events = 0; only = nullptr; lastHeard = k;
    }
    // recovery: everything off, then exactly the permitted number of voices is there again
    if (!v.violated) {
        for (int q = 0; q < pairs; q++) { if (!b.host[(size_t)q]) continue; for (int part = 0; part < 4; part++) b.cc(q, chanOf(part * KEYS), 64, 0); for (int x : P[(size_t)q].cand) b.off(q, chanOf(x), 48 + x % KEYS); P[(size_t)q].cand.clear(); programs(q); }
        b.st.render(10); if (!b.st.silent(b.st.slice - 1, 1)) v.fail("stuck", "it still sounds after all notes ended");
        i64 room = G; vector<i64> want((size_t)pairs); vector<int> free; for (int i = 0; i < NOTES; i++) if (!groups || !groupOf(i)) free.push_back(i);      // notes that do not silence each other
        for (int q = 0; q < pairs; q++) { want[(size_t)q] = std::min({room, limit(q), (i64)free.size()}); room -= want[(size_t)q]; for (int i = 0; i < want[(size_t)q]; i++) b.note(q, chanOf(free[(size_t)i]), 48 + free[(size_t)i] % KEYS, 100); }
        b.st.render(8); auto s = listen(b.st.slice - 1);
        for (int q = 0; q < pairs; q++) if ((i64)s[(size_t)q].size() != want[(size_t)q]) v.fail("capacity", fmt("player %d gets %d voices instead of %lld after everything ended (synthesizer limit %lld, own limit %lld)", q, (int)s[(size_t)q].size(), (long long)want[(size_t)q], (long long)G, (long long)limit(q)));
    }
    stat("sim.voice_checks", (u64)checks); v.nontrivial = checks > 1; v.traceHash = hh.h; return v;
}
