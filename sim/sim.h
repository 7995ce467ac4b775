// Deterministic simulator for the sonivox library: core types.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>

extern "C" {
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"
}

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
using std::string; using std::vector; using std::map; using std::set;
typedef vector<u8> Bytes;

// ---------------------------------------------------------------- PRNG: one integer decides everything
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    i64 range(i64 lo, i64 hi) { if (hi <= lo) return lo; return lo + (i64)(next() % (u64)(hi - lo + 1)); }   // inclusive
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const vector<T> &v) { return v[(size_t)range(0, (i64)v.size() - 1)]; }
    i64 pick(std::initializer_list<i64> v) { return v.begin()[range(0, (i64)v.size() - 1)]; }
    int weighted(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; i64 r = range(0, t - 1); int i = 0; for (int x : w) { if (r < x) return i; r -= x; i++; } return 0; }
};

struct Hash { u64 h = 1469598103934665603ull; void add(const void *p, size_t n) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } }
    void u(u64 v) { add(&v, 8); } void s(const string &x) { add(x.data(), x.size()); u(x.size()); } };
u64 fastHash(const void *p, size_t n);

// ---------------------------------------------------------------- plan: line-based, every line deletable
struct Line { vector<string> t; string str() const; i64 num(size_t i, i64 def = 0) const { return i < t.size() ? strtoll(t[i].c_str(), nullptr, 0) : def; }
    const string &tok(size_t i) const { static string e; return i < t.size() ? t[i] : e; } };
struct Plan {
    string prop; u64 seed = 0; vector<Line> lines;
    void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    string text() const; static bool parse(const string &txt, Plan &out);
    i64 cfg(const char *key, i64 def = 0) const;            // "cfg key value"
    string cfgs(const char *key) const;
};
string hex(const Bytes &b); Bytes unhex(const string &s);
string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- verdict and statistics
struct Stats { map<string, u64> n; void add(const string &k, u64 v = 1) { n[k] += v; } };
struct Verdict {
    bool violated = false; string cls, detail; u64 traceHash = 0; u64 stateHash = 0; bool nontrivial = true;
    void fail(const string &c, const string &d) { if (!violated) { violated = true; cls = c; detail = d; } }
};
extern Stats *gStats;              // counters of the current worker
extern bool gVerbose;              // never influences a decision
inline void stat(const string &k, u64 v = 1) { if (gStats) gStats->add(k, v); }

// ---------------------------------------------------------------- seams: heap, clock, process, yield
struct SimHeap {
    struct Blk { size_t size; u64 serial; };
    map<void *, Blk> live; u64 serial = 0; size_t bytes = 0;
    u8 fill = 0; bool noise = false;         // contents of fresh blocks
    i64 failAfter = -1; i64 failCount = 0;   // fail allocation number failAfter from now, failCount times
    double failProb = 0; Rng failRng{1};
    u64 failed = 0; u64 badFree = 0; u64 zeroSize = 0; u64 calls = 0;
    void reset() ;
};
extern SimHeap gHeap;
struct SimSys { u64 timeBase = 0; u64 timeCalls = 0; bool exited = false; u64 exits = 0;
    u64 yieldCalls = 0, yields = 0; double yieldProb = 0; Rng yieldRng{1}; i64 yieldMax = -1; };
extern SimSys gSys;
struct SimExit { int code; };                // thrown when library code tries to end the process
void seamReset();

// ---------------------------------------------------------------- simulated file device
enum FaultKind { FK_NONE, FK_ERROR, FK_SHORT, FK_ZERO, FK_TRUNC, FK_FLIP, FK_OVERREPORT };
struct SimFile {
    Bytes data; string name; u64 reads = 0, bytesRead = 0; u64 badArgs = 0; string badArgDetail;
    i64 armIn = -1; int armKind = 0; i64 armArg = 0; i64 armCount = 0; u64 fired = 0; i64 offAt = -1, offSkip = 0;   // offAt: the read that covers this byte is the one to fail
    i64 sizeOverride = -1; bool revoked = false; u64 readsAfterRevoke = 0;
    int readAt(void *buf, int off, int size); int size();
};
void fileLocator(SimFile *f, EAS_FILE *loc);
const char *faultName(int k);

// ---------------------------------------------------------------- song model
struct Ev { int trk; i64 tick; Bytes b; int order; };      // b: status.. | F0 len-less sysex payload | FF type payload
struct Song {
    int format = 1, ppqn = 96, ntrk = 1; u64 enc = 0; i64 eot = -1; vector<Ev> ev; vector<i64> trkEot;
    int smpte = 0;
};
struct EncOpt { bool running = false, padVlq = false, alien = false, longHdr = false; };
Bytes encodeSong(const Song &s);
bool songFromPlan(const Plan &p, int fid, Song &s);          // lines: S fid format ppqn ntrk enc eot ; E fid trk tick hex
void songToPlan(Plan &p, int fid, const Song &s);
// merged order: by tick, then (model-permitted) any order between tracks, file order within one track
struct TEv { int trk; i64 tick; int idx; double ms; };
vector<TEv> songTimeline(const Song &s, double *endMs, bool *setupBar = nullptr);
bool hasSetupBar(const Song &s); void addSetupBar(Rng &r, Song &s);
//      // independent double-precision tempo map
struct MidiMsg { Bytes b; };

// ---------------------------------------------------------------- DLS model
#if defined(_SAMPLE_RATE_22050)
const int DLS_RATE = 22050;            // waves are written at the output rate unless said otherwise
#else
const int DLS_RATE = 44100;
#endif
struct DlsWave { int rate = DLS_RATE, bits = 16; Bytes data; int unity = 60, fine = 0; i64 gain = 0; i64 loopStart = -1, loopLen = 0; bool wsmp = true; };
struct DlsConn { int src, ctl, dst; i64 scale; };
struct DlsRgn { int keyLo = 0, keyHi = 127, velLo = 0, velHi = 127, opt = 0, group = 0, wave = 0; bool wsmp = false; int unity = 60, fine = 0; i64 gain = 0; i64 loopStart = -1, loopLen = 0; vector<DlsConn> art; bool rgn2 = false; int cdl = 0; };
struct DlsIns { int bankMsb = 0, bankLsb = 0, prog = 0; bool drum = false; int hdrRegions = -1; vector<DlsRgn> rgn; vector<DlsConn> art; };
struct Dls { vector<DlsWave> wave; vector<DlsIns> ins; int pad = 0, enc = 0; u64 encSeed = 0; };
Bytes encodeDls(const Dls &d);
bool dlsFromPlan(const Plan &p, int fid, Dls &d);
Bytes sineWave(int nsamp, double cycles, double amp, double phase = 0);
const int PROBE_N = 512;              // probe wave length, and the measurement window
const i64 PROBE_REL = -12000;         // release time constant of probe instruments in 1/65536 of a timecent
// probe instrument: every key owns one spectral bin of a 512 sample window

// files of a plan
struct FileSet { map<int, SimFile *> f; ~FileSet(); void build(const Plan &p); SimFile *get(int i) { auto it = f.find(i); return it == f.end() ? nullptr : it->second; } };

// ---------------------------------------------------------------- instance wrapper
typedef void (*MetaSink)(void *, int type, const char *text);
#if defined(_SAMPLE_RATE_22050)
const int RATE = 22050, SLICE = 128;   // output rate and frames per render call
#else
const int RATE = 44100, SLICE = 256;
#endif
const int VOICES = MAX_SYNTH_VOICES;     // build option MAX_VOICES
const double SLICE_MS = 1486.0 / 256;    // the engine's own idea of one slice
struct Slice { i64 result; i64 count; int16_t pcm[SLICE * 2]; };
extern u64 gAhead; extern int gAheadNo, gWarm; inline int aheadOf(int n) { return (int)(gAhead >> (2 * ((u64)n % 12))) & 3; }
inline void sameSlots() { u64 a = gAhead & 3; gAhead = 0; for (int i = 0; i < 12; i++) gAhead |= a << (2 * i); }   // all instances of a judge alike
struct Inst {
    EAS_DATA_HANDLE h = nullptr; u64 slices = 0;
    int ahead = 0; vector<EAS_HANDLE> holders;               // streams opened before the first one and closed again: it gets another slot
    void aheadOpen(); void aheadClose();
    i64 init() { holders.clear(); i64 r = EAS_Init(&h); ahead = aheadOf(gAheadNo++); if (r == EAS_SUCCESS) warm(); return r; }
    void warm();                                             // idle render steps before anything else happens
    i64 shutdown() { holders.clear(); i64 r = EAS_Shutdown(h); h = nullptr; return r; }
    i64 render(Slice &s);                                    // exact-size heap buffer, guard checked
    i64 open(SimFile *f, EAS_HANDLE *hs) { EAS_FILE *loc = (EAS_FILE *)malloc(sizeof(EAS_FILE)); fileLocator(f, loc); *hs = (EAS_HANDLE)0; i64 r = EAS_OpenFile(h, loc, hs); memset(loc, 0x5a, sizeof *loc); free(loc); return r; }
    i64 loadDls(SimFile *f, EAS_HANDLE hs) { EAS_FILE *loc = (EAS_FILE *)malloc(sizeof(EAS_FILE)); fileLocator(f, loc); i64 r = EAS_LoadDLSCollection(h, hs, loc); memset(loc, 0x5a, sizeof *loc); free(loc); return r; }
};
extern u64 gSimFrames;             // simulated time over the whole worker, in output frames
struct Pcm { vector<float> l, r; void add(const Slice &s) { for (int i = 0; i < SLICE; i++) { l.push_back(s.pcm[2 * i]); r.push_back(s.pcm[2 * i + 1]); } } size_t n() const { return l.size(); } };
double rms(const vector<float> &v, size_t a, size_t n);
double goertzel(const vector<float> &v, size_t a, size_t n, double freq);   // amplitude of a sine of freq (cycles per sample)

// ---------------------------------------------------------------- generic operation executor (scripts of API calls)
struct ExecOpts { bool verbose = false; u8 fill = 0; int stack = -1; bool noise = false; int onlyInst = -1; bool ignoreFaults = false; bool stopOnExit = true; u64 timeBase = 0; };
struct OpRec { int line; string cmd; i64 res; vector<i64> out; u64 pcmHash = 0; i64 inst = 0; u64 allocs = 0, reads = 0; bool faulted = false; u64 metaHash = 0; int metaCount = 0; bool superseded = false; };
struct Trace { vector<OpRec> ops; bool exited = false; u64 leakedBlocks = 0; size_t leakedBytes = 0; u64 badFree = 0; u64 heapFailed = 0; string contract; u64 hash() const; };
Trace execPlan(const Plan &p, const ExecOpts &o);
u64 opHash(const OpRec &o);

// ---------------------------------------------------------------- property registry
struct Prop { const char *id; void (*gen)(Rng &, Plan &, bool thorough); Verdict (*judge)(const Plan &); };
const vector<Prop> &props();
#define DECL_PROP(x) void gen_##x(Rng &r, Plan &p, bool thorough); Verdict judge_##x(const Plan &p);

// generators shared between properties
struct GenSongOpt { int maxNotes = 60; int maxTracks = 4; bool meta = true; bool tempo = true; bool markers = false; double maxMs = 1500; bool sysex = false; bool ccs = true; double leadProb = 0.5; bool drums = true; bool evenLoad = false; bool setupBar = false; bool sameKeyOverlap = true; };
Song genSong(Rng &r, const GenSongOpt &o);
Bytes genMidiBytes(Rng &r, int n, bool wild);
