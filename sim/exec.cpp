// Generic executor: a schedule of API calls, renders and faults over any number of instances.
#include "sim.h"

struct MetaCtx { OpRec *cur = nullptr; u64 hash = 0; int count = 0; char *buf = nullptr; i64 size = 0; };
static OpRec *gCurOp = nullptr;
static void metaCb(E_EAS_METADATA_TYPE type, char *text, EAS_VOID_PTR) {
    if (gCurOp) { gCurOp->metaCount++; gCurOp->metaHash = fastHash(text, strlen(text)) ^ (gCurOp->metaHash * 31) ^ ((u64)type << 56); }
}
u64 opHash(const OpRec &o) { Hash h; h.s(o.cmd); h.u((u64)o.res); for (i64 v : o.out) h.u((u64)v); h.u(o.pcmHash); h.u(o.metaHash); h.u((u64)o.metaCount); return h.h; }
u64 Trace::hash() const { Hash h; for (auto &o : ops) h.u(opHash(o)); h.u(exited); h.u(leakedBlocks); h.u(badFree); return h.h; }

struct XStream { EAS_HANDLE h = nullptr; int kind = 0; int fid = -1; };   // kind 1 file 2 midi
struct XInst { Inst in; map<int, XStream> st; vector<void *> bufs; };

// leftovers of earlier calls below the stack pointer
static __attribute__((noinline)) void dirtyStack(int v) { volatile u8 b[48000]; memset((void *)b, v, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
Trace execPlan(const Plan &p, const ExecOpts &o) {
    Trace tr; FileSet fs; fs.build(p);
    seamReset(); gHeap.fill = o.fill; gHeap.noise = o.noise; gSys.timeBase = o.timeBase;
    map<int, XInst> insts; vector<void *> metaBufs;
    auto closeStream = [&](XInst &x, int s) -> i64 { auto it = x.st.find(s); if (it == x.st.end()) return -999; i64 r = it->second.kind == 1 ? EAS_CloseFile(x.in.h, it->second.h) : EAS_CloseMIDIStream(x.in.h, it->second.h); x.st.erase(it); return r; };
    for (size_t li = 0; li < p.lines.size() && !tr.exited; li++) {
        Line lx = p.lines[li]; if (lx.t[0] != "op") continue;
        if (lx.tok(2) == "ifail") { if (tr.ops.empty() || tr.ops.back().line != (int)li - 2 || tr.ops.back().res == EAS_SUCCESS || !tr.ops.back().faulted || lx.t.size() < 4) continue; lx.t.erase(lx.t.begin() + 2); tr.ops.back().superseded = true; }
        const Line &l = lx; int ii = (int)l.num(1); const string &c = l.tok(2);
        if (o.onlyInst >= 0 && ii != o.onlyInst) continue;
        if (c == "fread") { if (o.ignoreFaults) continue; auto *f = fs.get((int)l.num(3)); if (f) { f->armIn = l.num(4); f->armKind = (int)l.num(5); f->armArg = l.num(6); f->armCount = l.num(7, 1); } continue; }
        if (c == "falloc") { if (o.ignoreFaults) continue; gHeap.failAfter = l.num(3); gHeap.failCount = l.num(4, 1); continue; }
        if (c == "fallocp") { if (o.ignoreFaults) continue; gHeap.failProb = l.num(3) / 1e6; gHeap.failRng = Rng((u64)l.num(4)); continue; }
        if (c == "fyield") { if (o.ignoreFaults) continue; gSys.yieldProb = l.num(3) / 1e6; gSys.yieldRng = Rng((u64)l.num(4)); gSys.yieldMax = l.num(5, -1); continue; }
        if (c == "heal") { gHeap.failAfter = -1; gHeap.failCount = 0; gHeap.failProb = 0; gSys.yieldProb = 0; for (auto &f : fs.f) f.second->armIn = -1; continue; }
        XInst &x = insts[ii]; int s = (int)l.num(3); EAS_DATA_HANDLE E = x.in.h;
        OpRec r; r.line = (int)li; r.cmd = c; r.inst = ii; r.res = -777; gCurOp = &r;
        map<int, u64> frd; for (auto &f : fs.f) frd[f.first] = f.second->reads;
        set<int> allowed; for (auto &q : x.st) if (q.second.kind == 1) allowed.insert(q.second.fid); if (c == "open" || c == "dls") allowed.insert((int)l.num(4));
        u64 a0 = gHeap.calls, f0 = gHeap.failed; u64 rd0 = 0; for (auto &f : fs.f) rd0 += f.second->reads + f.second->fired * 1000000;
        auto have = [&](int k) { auto it = x.st.find(s); return E && it != x.st.end() && (k == 0 || it->second.kind == k); };
        auto H = [&]() { return x.st[s].h; };
        if (E && !x.in.holders.empty() && c != "prepare" && c != "regcb") x.in.aheadClose();
        if (E && (c == "open" || c == "mopen") && !x.st.count(s)) x.in.aheadOpen();
        bool did = true; if (o.stack >= 0) dirtyStack(o.stack);
        try {
            if (c == "init") { if (!E) { r.res = x.in.init(); x.in.ahead = aheadOf(ii); } else did = false; if (did && (r.res == EAS_SUCCESS) != (x.in.h != nullptr)) tr.contract = "EAS_Init result and handle disagree"; }
            else if (!E) did = false;
            else if (c == "shutdown") { x.st.clear(); r.res = x.in.shutdown(); }
            else if (c == "open") { auto *f = fs.get((int)l.num(4)); if (!f || x.st.count(s)) did = false; else { EAS_HANDLE h; r.res = x.in.open(f, &h); if (r.res == EAS_SUCCESS) { XStream z; z.h = h; z.kind = 1; z.fid = (int)l.num(4); x.st[s] = z; if (!h) tr.contract = "EAS_OpenFile succeeded with a null handle"; } } }
            else if (c == "prepare") { if (have(0)) r.res = EAS_Prepare(E, H()); else did = false; }
            else if (c == "close") { if (x.st.count(s)) r.res = closeStream(x, s); else did = false; }
            else if (c == "closeall") { r.res = 0; vector<int> k; for (auto &q : x.st) k.push_back(q.first); for (int q : k) { i64 z = closeStream(x, q); if (z != EAS_SUCCESS) r.out.push_back(z); } }
            else if (c == "mopen") { i64 sh = l.num(4, -1); if (x.st.count(s)) did = false; else { EAS_HANDLE hs = nullptr, h = nullptr; if (sh >= 0) { auto it = x.st.find((int)sh); if (it == x.st.end()) did = false; else hs = it->second.h; } if (did) { r.res = EAS_OpenMIDIStream(E, &h, hs); if (r.res == EAS_SUCCESS) { XStream z; z.h = h; z.kind = 2; x.st[s] = z; if (!h) tr.contract = "EAS_OpenMIDIStream succeeded with a null handle"; } } } }
            else if (c == "mwrite") { if (have(2)) { Bytes b = unhex(l.tok(4)); u8 *m = (u8 *)malloc(b.size() ? b.size() : 1); memcpy(m, b.data(), b.size()); r.res = EAS_WriteMIDIStream(E, H(), m, (EAS_I32)b.size()); free(m); } else did = false; }
            else if (c == "burst") { if (have(2)) { i64 n = std::min<i64>(70000, std::max<i64>(0, l.num(4))); u8 ch = (u8)(l.num(5) & 15); for (i64 i = 0; i < n; i++) { u8 m[6] = {(u8)(0x90 | ch), (u8)(36 + i % 60), 80, (u8)(0x80 | ch), (u8)(36 + i % 60), 0}; r.res = EAS_WriteMIDIStream(E, H(), m, 6); } } else did = false; }
            else if (c == "mclose") { if (have(2)) r.res = closeStream(x, s); else did = false; }
            else if (c == "render") { i64 n = l.num(3, 1); Hash hh; i64 last = 0; for (i64 i = 0; i < n; i++) { Slice sl; last = x.in.render(sl); hh.u((u64)sl.result); hh.u((u64)sl.count); hh.u(fastHash(sl.pcm, sizeof sl.pcm)); if (sl.count != 0 && sl.count != SLICE) tr.contract = fmt("EAS_Render reported %lld frames", (long long)sl.count); if (last != EAS_SUCCESS && sl.count != 0) tr.contract = "EAS_Render failed but reported frames"; if (last != EAS_SUCCESS) r.out.push_back(i); } r.res = last; r.pcmHash = hh.h; }
            else if (c == "badrender") { int16_t b[1024]; EAS_I32 cnt = -1; r.res = EAS_Render(E, b, (EAS_I32)l.num(3), &cnt); r.out.push_back(cnt); }
            else if (c == "pause") { if (have(0)) r.res = EAS_Pause(E, H()); else did = false; }
            else if (c == "resume") { if (have(0)) r.res = EAS_Resume(E, H()); else did = false; }
            else if (c == "locate") { if (have(0)) r.res = EAS_Locate(E, H(), (EAS_I32)l.num(4), (EAS_BOOL)l.num(5)); else did = false; }
            else if (c == "rate") { if (have(0)) r.res = EAS_SetPlaybackRate(E, H(), (EAS_U32)l.num(4)); else did = false; }
            else if (c == "transp") { if (have(0)) r.res = EAS_SetTransposition(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "vol") { if (s < 0) r.res = EAS_SetVolume(E, NULL, (EAS_I32)l.num(4)); else if (have(0)) r.res = EAS_SetVolume(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "getvol") { if (s < 0) r.res = EAS_GetVolume(E, NULL); else if (have(0)) r.res = EAS_GetVolume(E, H()); else did = false; }
            else if (c == "poly") { if (have(0)) r.res = EAS_SetPolyphony(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "getpoly") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetPolyphony(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "prio") { if (have(0)) r.res = EAS_SetPriority(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "getprio") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetPriority(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "repeat") { if (have(0)) r.res = EAS_SetRepeat(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "getrepeat") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetRepeat(E, H(), &v); r.out.push_back(v); } else did = false; }
            else if (c == "meta") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_ParseMetaData(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "regcb") { if (have(0)) { i64 n = l.num(4, 64); char *b = (char *)malloc((size_t)std::max<i64>(n, 1)); metaBufs.push_back(b); r.res = EAS_RegisterMetaDataCallback(E, H(), metaCb, b, (EAS_I32)n, b); } else did = false; }
            else if (c == "notes") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetNoteCount(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "ftype") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetFileType(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "state") { EAS_STATE v = -99; if (have(0)) { r.res = EAS_State(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "loc") { EAS_I32 v = -99; if (have(0)) { r.res = EAS_GetLocation(E, H(), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); } else did = false; }
            else if (c == "rtime") { EAS_I32 v = -99; r.res = EAS_GetRenderTime(E, &v); r.out.push_back(v); }
            else if (c == "dls") { auto *f = fs.get((int)l.num(4)); if (!f) did = false; else if (s < 0) r.res = x.in.loadDls(f, NULL); else if (have(0)) r.res = x.in.loadDls(f, H()); else did = false; }
            else if (c == "param") r.res = EAS_SetParameter(E, (EAS_I32)l.num(3), (EAS_I32)l.num(4), (EAS_I32)l.num(5));
            else if (c == "getparam") { EAS_I32 v = -99; r.res = EAS_GetParameter(E, (EAS_I32)l.num(3), (EAS_I32)l.num(4), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); }
            else if (c == "maxload") r.res = EAS_SetMaxLoad(E, (EAS_I32)l.num(3));
            else if (c == "synthpoly") r.res = EAS_SetSynthPolyphony(E, (EAS_I32)l.num(3), (EAS_I32)l.num(4));
            else if (c == "getsynthpoly") { EAS_I32 v = -99; r.res = EAS_GetSynthPolyphony(E, (EAS_I32)l.num(3), &v); if (r.res == EAS_SUCCESS) r.out.push_back(v); }
            else if (c == "hdrsearch") r.res = EAS_SetHeaderSearchFlag(E, (EAS_BOOL)l.num(3));
            else if (c == "playmode") { if (have(0)) r.res = EAS_SetPlayMode(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "maxpcm") { if (have(0)) r.res = EAS_SetMaxPCMStreams(E, H(), (EAS_I32)l.num(4)); else did = false; }
            else if (c == "sndlib") { if (s < 0) r.res = EAS_SetSoundLibrary(E, NULL, NULL); else if (have(0)) r.res = EAS_SetSoundLibrary(E, H(), NULL); else did = false; }
            else if (c == "filetype0") did = false;
            else did = false;
        } catch (SimExit &e) { r.res = -12345; tr.exited = true; did = true; }
        gCurOp = nullptr; if (E && !x.in.holders.empty() && (c == "mopen" || c == "prepare" || r.res != EAS_SUCCESS)) { if ((c == "open" || c == "mopen") && r.res != EAS_SUCCESS) x.in.ahead = (int)x.in.holders.size(); x.in.aheadClose(); }
        for (auto &f : fs.f) if (f.second->reads != frd[f.first] && !allowed.count(f.first)) tr.contract = fmt("%s called the file device for file %d, which is not open", c.c_str(), f.first);
        if (!did) continue;
        u64 rd1 = 0; for (auto &f : fs.f) rd1 += f.second->reads + f.second->fired * 1000000;
        r.allocs = gHeap.calls - a0; r.reads = (rd1 - rd0) % 1000000; r.faulted = gHeap.failed != f0 || (rd1 - rd0) / 1000000;
        stat("op." + c);
        if (o.verbose) { fprintf(stderr, "  [%zu] %s -> %lld", li, l.str().substr(0, 120).c_str(), (long long)r.res); for (i64 v : r.out) fprintf(stderr, " %lld", (long long)v); fprintf(stderr, " pcm=%016llx meta=%d\n", (unsigned long long)r.pcmHash, r.metaCount); }
        tr.ops.push_back(r);
    }
    if (!tr.exited) {
        // instances still open are shut down without closing their streams first: shutdown owns everything
        gHeap.failAfter = -1; gHeap.failCount = 0; gHeap.failProb = 0; gSys.yieldProb = 0; for (auto &f : fs.f) f.second->armIn = -1;
        try { for (auto &k : insts) if (k.second.in.h) { OpRec r; r.line = -1; r.cmd = "shutdown"; r.inst = k.first; r.res = k.second.in.shutdown(); tr.ops.push_back(r); } } catch (SimExit &) { tr.exited = true; }
        tr.leakedBlocks = gHeap.live.size(); tr.leakedBytes = gHeap.bytes;
    }
    for (auto &f : fs.f) if (f.second->badArgs) tr.contract = "file device called with impossible arguments: " + f.second->badArgDetail;
    tr.badFree = gHeap.badFree; tr.heapFailed = gHeap.failed;
    if (gHeap.failed) stat("fault.alloc_failure", gHeap.failed);
    if (gSys.yields) stat("fault.host_yield", gSys.yields);
    if (gHeap.noise || gHeap.fill) stat("fault.dirty_heap");
    for (void *b : metaBufs) free(b);
    seamReset();
    return tr;
}
