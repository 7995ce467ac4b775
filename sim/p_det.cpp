// D01: the same calls give the same results and the same samples, whatever the heap, the stack, the clock and the
// neighbours look like. D02: how a MIDI byte stream is cut into writes does not matter.
#include "script.h"
#include "band.h"

void gen_D01(Rng &r, Plan &p, bool thorough) {
    ScriptOpt o; o.insts = (int)r.range(1, 3); o.ops = (int)r.range(15, thorough ? 160 : 60); o.maxRender = 8;
    o.fileFaults = o.allocFaults = o.yields = false; o.hostileFiles = r.chance(0.5); o.badArgs = r.chance(0.5);
    genFiles(r, p, o); p.add("cfg dirt %lld", (long long)r.range(1, 1000000));
    if (r.chance(0.65)) { genScript(r, p, o); return; }
    // storms of several instances, interleaved at random
    vector<Plan> part((size_t)o.insts); vector<size_t> at((size_t)o.insts, 0); size_t left = 0;
    for (int i = 0; i < o.insts; i++) { genStorm(r, part[(size_t)i], i, o.ops, r.chance(0.5)); left += part[(size_t)i].lines.size(); }
    while (left) { size_t i = (size_t)r.range(0, o.insts - 1); if (at[i] >= part[i].lines.size()) continue; p.lines.push_back(part[i].lines[at[i]++]); left--; }
}
Verdict judge_D01(const Plan &p) {
    Verdict v; i64 d = p.cfg("dirt", 1); set<i64> insts; for (auto &l : p.lines) if (l.t[0] == "op") insts.insert(l.num(1));
    ExecOpts o; o.verbose = gVerbose; Trace a = execPlan(p, o); Hash hh;
    struct Twin { const char *cls; int only; }; vector<Twin> twins{{"memory", -1}, {"repeat", -1}};
    if (insts.size() > 1) for (i64 i : insts) twins.push_back({"company", (int)i});
    u64 loud = 0; for (auto &x : a.ops) { hh.u(opHash(x)); if (x.cmd == "render") loud++; }
    for (size_t t = 0; t < twins.size() && !v.violated; t++) {
        ExecOpts q; q.onlyInst = twins[t].only; if (t != 1) { q.noise = (d + (i64)t) % 3 != 0; q.fill = (u8)(d + (i64)t * 17); q.stack = (u8)(d * 7 + (i64)t); q.timeBase = (u64)d * 7919; }
        Trace b = execPlan(p, q); size_t j = 0;
        auto mine = [&](const OpRec &x) { return q.onlyInst < 0 || x.inst == q.onlyInst; };
        if (a.exited || b.exited) { if (a.exited != b.exited && q.onlyInst < 0) v.fail(twins[t].cls, "one of two equal runs ended the process"); continue; }
        for (auto &x : a.ops) {
            if (!mine(x)) continue;
            if (j >= b.ops.size()) { v.fail(twins[t].cls, fmt("line %d %s missing from the second run", x.line, x.cmd.c_str())); break; }
            auto &y = b.ops[j++];
            if (x.line != y.line || opHash(x) != opHash(y)) { v.fail(twins[t].cls, fmt("line %d %s of instance %lld returns %lld and other %s in the second run (%lld)", x.line, x.cmd.c_str(), (long long)x.inst, (long long)x.res, x.pcmHash != y.pcmHash ? "samples" : x.metaHash != y.metaHash ? "texts" : "values", (long long)y.res)); break; }
        }
        if (!v.violated && q.onlyInst < 0 && (a.leakedBlocks != b.leakedBlocks)) v.fail(twins[t].cls, "two equal runs keep different amounts of memory");
    }
    v.nontrivial = loud > 1; v.traceHash = hh.h; return v;
}

// ---------------------------------------------------------------- D02
// "s <stream> alone|shared", "a <slice> msg <stream> <tseed> <hex>": twin A writes every message whole with its status byte;
// twin B cuts, merges, compresses and litters the same messages as its tseed says
namespace {
Bytes oneMessage(Rng &r) {
    u8 c = (u8)r.pick({0, 0, 1, 9, r.range(0, 15)}), key = (u8)r.range(48, 72);
    switch (r.weighted({40, 22, 16, 6, 6, 3, 2, 4})) {
        case 0: return {(u8)(0x90 | c), key, (u8)(r.chance(0.15) ? 0 : r.range(1, 127))};
        case 1: return {(u8)(0x80 | c), key, (u8)r.range(0, 127)};
        case 2: { u8 n = (u8)r.pick({0, 1, 6, 7, 10, 11, 32, 38, 64, 64, 98, 99, 100, 101, 101, 120, 121, 123, 126, r.range(0, 127)}); return {(u8)(0xb0 | c), n, (u8)(n >= 98 && n <= 101 ? r.range(0, 3) : r.range(0, 127))}; }
        case 3: return {(u8)(0xc0 | c), (u8)r.range(0, 127)};
        case 4: return {(u8)(0xe0 | c), (u8)r.range(0, 127), (u8)r.range(0, 127)};
        case 5: return {(u8)(0xd0 | c), (u8)r.range(0, 127)};
        case 6: return {(u8)(0xa0 | c), key, (u8)r.range(0, 127)};
        default: switch (r.range(0, 4)) {
            case 0: return {0xf0, 0x7e, 0x7f, 9, (u8)r.pick({1, 2, 3}), 0xf7};
            case 1: return {0xf0, 0x7f, 0x7f, 4, 1, (u8)r.range(0, 127), (u8)r.range(0, 127), 0xf7};
            case 2: { Bytes b{0xf0, 0x7f, 0x7f, 0x0b, 1}; for (int i = 0, n = (int)r.range(1, 16); i < n; i++) { b.push_back((u8)r.range(0, 15)); b.push_back((u8)r.range(1, 32)); } b.push_back(0xf7); return b; }
            case 3: return {0xf0, 0x43, 0x10, 0x4c, 0, 0, 0x7e, 0, 0xf7};
            default: return {0xf0, 0x7e, 0x7f, 9, (u8)r.pick({1, 3}), 0xf7};
        }
    }
}
// bytes with no meaning of their own; *rs is the running status they leave behind (0: none, data would be dropped)
Bytes junk(Rng &r, bool *explicitStatus) {
    Bytes b; *explicitStatus = true;
    switch (r.range(0, 7)) {
        case 0: b = {(u8)r.range(0x80, 0xbf)}; if (r.chance(0.6)) b.push_back((u8)r.range(0, 127)); break;              // a channel message broken off
        case 1: b = {(u8)r.range(0xc0, 0xdf)}; break;
        case 2: b = {(u8)r.range(0xe0, 0xef)}; if (r.chance(0.6)) b.push_back((u8)r.range(0, 127)); break;
        case 3: b = {0xf0}; for (int i = 0, n = (int)r.range(0, 6); i < n; i++) b.push_back(i ? (u8)r.range(0, 127) : (u8)0x7d); break;   // a system exclusive broken off
        case 4: { static const Bytes heads[] = {{0xf0, 0x7e, 0x7f, 9}, {0xf0, 0x7e}, {0xf0, 0x7f, 0x7f, 4, 1, 0x40}, {0xf0, 0x7f, 0x7f, 0x0b}, {0xf0, 0x7e, 0x00, 9, 1}, {0xf0, 0, 1, 0x3a}}; b = heads[r.range(0, 5)]; break; }
        case 5: b = {(u8)r.pick({0xf1, 0xf2, 0xf3, 0xf6, 0xf4, 0xf5})}; for (int i = 0, n = (int)r.range(0, 3); i < n; i++) b.push_back((u8)r.range(0, 127)); break;
        case 6: b = {0xf0, 0x7d}; for (int i = 0, n = (int)(r.chance(0.04) ? r.range(100, 9000) : r.range(0, 5)); i < n; i++)      // sometimes as long as a bulk dump
            b.push_back((u8)r.range(0, 127)); b.push_back(0xf7); for (int i = 0, n = (int)r.range(0, 3); i < n; i++) b.push_back((u8)r.range(0, 127)); break;
        default: b = {0xf7}; for (int i = 0, n = (int)r.range(0, 3); i < n; i++) b.push_back((u8)r.range(0, 127)); break;
    }
    return b;
}
}
void gen_D02(Rng &r, Plan &p, bool thorough) {
    int n = (int)r.range(1, 3); if (r.chance(0.4)) { genDls(r, p, 5, false); p.add("cfg global 5"); }
    for (int i = 0; i < n; i++) p.add("s %d %s", i, n > 1 && r.chance(0.5) ? "shared" : "alone");
    i64 k = 0, m = r.range(4, thorough ? 200 : 60); double gap = r.pick({30, 60, 90}) / 100.0;
    for (int i = 0; i < m; i++) { if (r.chance(gap)) k += r.range(1, 5); p.add("a %lld msg %d %lld %s", (long long)k, (int)r.range(0, n - 1), (long long)r.range(1, 1000000000), hex(oneMessage(r)).c_str()); }
    p.add("cfg tail %lld", (long long)r.range(2, 30));
}
Verdict judge_D02(const Plan &p) {
    Verdict v; auto A = acts(p); FileSet fs; fs.build(p); vector<string> kinds; for (auto &l : p.lines) if (l.t[0] == "s") kinds.push_back(l.tok(2)); if (kinds.empty()) kinds.push_back("alone"); if (kinds.size() > 3) kinds.resize(3);
    i64 n = (A.empty() ? 0 : std::min<i64>(A.back().at, 4000)) + 1 + p.cfg("tail", 4); u64 writes[2] = {0, 0}, cuts = 0, litter = 0, dropped = 0;
    struct Out { vector<u64> slice; vector<i64> res; Pcm pcm; };
    auto run = [&](bool twin) {
        Out o; std::unique_ptr<SimFile> silent; Stage st; if (SimFile *g = fs.get((int)p.cfg("global", -1))) st.in.loadDls(g, nullptr);
        struct Wire { Str *s; Bytes hold; u8 rs = 0; bool inMsg = false; }; vector<Wire> w;
        Str *host = nullptr;
        if (std::find(kinds.begin(), kinds.end(), "shared") != kinds.end()) { silent.reset(dummyFile()); host = st.file(silent.get(), true, 0); }
        for (auto &k : kinds) { w.push_back({st.midi(k == "shared" ? host : nullptr), {}}); }
        auto flush = [&](Wire &x) { if (x.hold.empty()) return; i64 r = st.write(x.s, x.hold); writes[twin]++; if (r != EAS_SUCCESS) o.res.push_back(r); x.hold.clear(); };
        // the next message of each stream may begin to arrive while earlier slices are rendered
        vector<vector<size_t>> todo(w.size()); for (size_t i = 0; i < A.size(); i++) if (A[i].cmd() == "msg") todo[(size_t)A[i].num(1) % w.size()].push_back(i);
        vector<size_t> at(w.size(), 0); vector<Bytes> rest(w.size()); vector<bool> prepared(w.size(), false);
        auto prepare = [&](size_t s) {      // the byte string that carries message todo[s][at[s]]
            const Act &a = A[todo[s][at[s]]]; Bytes m = unhex(a.tok(3)); Rng r((u64)a.num(2)); Bytes b; bool expl = false; Wire &x = w[s]; if (m.empty()) { rest[s].clear(); prepared[s] = true; return; }
            if (r.chance(0.3)) { Bytes q = junk(r, &expl); b.insert(b.end(), q.begin(), q.end()); litter++; }
            bool drop = !expl && x.rs && m[0] == x.rs && m[0] < 0xf0 && r.chance(0.7); if (drop) dropped++;
            b.insert(b.end(), m.begin() + drop, m.end()); x.rs = m[0] < 0xf0 ? m[0] : 0;
            Bytes c; bool rt = r.chance(0.3); for (u8 y : b) { if (rt && r.chance(0.4)) { c.push_back((u8)r.pick({0xf8, 0xfa, 0xfb, 0xfc, 0xfe})); litter++; } c.push_back(y); } rest[s] = c; prepared[s] = true;
        };
        size_t g = 0; Rng early(p.seed * 31 + 7);
        for (i64 k = 0; k < n; k++) {
            for (; g < A.size() && A[g].at <= k; g++) {
                if (A[g].cmd() != "msg") continue;
                size_t s = (size_t)A[g].num(1) % w.size(); Wire &x = w[s];
                if (!twin) { x.hold = unhex(A[g].tok(3)); flush(x); continue; }
                for (size_t q = 0; q < w.size(); q++) if (q != s) flush(w[q]);
                if (!prepared[s]) prepare(s);
                Rng r((u64)A[g].num(2) + 5); double cut = r.pick({0, 20, 100}) / 100.0;
                for (u8 y : rest[s]) { x.hold.push_back(y); if (r.chance(cut)) { flush(x); cuts++; } }
                rest[s].clear(); prepared[s] = false; at[s]++; if (r.chance(0.5)) flush(x);
            }
            if (twin) for (size_t s = 0; s < w.size(); s++) {
                flush(w[s]);
                if (at[s] < todo[s].size() && A[todo[s][at[s]]].at < n && early.chance(0.15)) {      // all but the last byte may come early
                    if (!prepared[s]) prepare(s);
                    size_t most = rest[s].size() ? rest[s].size() - 1 : 0; Bytes m = unhex(A[todo[s][at[s]]].tok(3)); if (m.size() && m[0] == 0xf0) most = std::min<size_t>(most, (size_t)(std::find(rest[s].begin(), rest[s].end(), 0xf0) - rest[s].begin()));   // exclusives may act before their end byte, so only what precedes them comes early
                    size_t take = (size_t)early.range(0, (i64)most); if (take) { Bytes b(rest[s].begin(), rest[s].begin() + (long)take); rest[s].erase(rest[s].begin(), rest[s].begin() + (long)take); w[s].hold = b; flush(w[s]); cuts++; }
                }
            }
            i64 r = st.render(); if (r != EAS_SUCCESS) o.res.push_back(r);
        }
        o.slice = st.sliceHash; o.pcm = st.pcm; return o;
    };
    Out a = run(false), b = run(true); Hash hh; u64 loud = 0;
    if (a.res.size()) v.fail("refused", fmt("a complete message was answered with %lld", (long long)a.res[0]));
    if (b.res.size()) v.fail("refused", fmt("a write of the regrouped stream was answered with %lld", (long long)b.res[0]));
    for (size_t k = 0; k < a.slice.size() && !v.violated; k++) if (a.slice[k] != b.slice[k]) v.fail("grouping", fmt("slice %d sounds different when the same messages are written in other pieces", (int)k));
    for (u64 h : a.slice) hh.u(h); for (float x : a.pcm.l) if (fabs(x) > 4) loud++;
    stat("sim.writes_whole", writes[0]); stat("sim.writes_cut", writes[1]); if (cuts) stat("fault.cut_message", cuts); if (litter) stat("fault.interrupted_or_realtime_bytes", litter); if (dropped) stat("fault.running_status", dropped);
    v.nontrivial = loud > 300; v.traceHash = hh.h; return v;
}
