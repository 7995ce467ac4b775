// One simulated host application: an instance, its streams, the audio it heard and the callbacks it got, slice by slice.
#pragma once
#include "sim.h"
struct MetaEv { i64 slice; int type; string text; bool inRender = true; };
struct Str { EAS_HANDLE h = nullptr; int kind = 0; char *buf = nullptr; i64 bufSize = 0; vector<MetaEv> meta; i64 *clock = nullptr; bool *rendering = nullptr; bool overrun = false; };
struct StageOpt { u8 fill = 0; bool noise = false; bool reset = true; u64 timeBase = 0; };
struct Stage {
    Inst in; i64 slice = 0; vector<Str *> strs; Pcm pcm; vector<u64> sliceHash; vector<i64> result; bool keep = true; bool rendering = false; bool initOk = false;
    vector<int16_t> last;
    explicit Stage(const StageOpt &o = StageOpt());
    ~Stage();
    Str *file(SimFile *f, bool prepare = true, i64 metaBuf = 64, i64 *res = nullptr);   // open (+ register metadata callback) (+ prepare)
    Str *midi(Str *share = nullptr, i64 *res = nullptr);
    i64 write(Str *s, const Bytes &b);
    i64 close(Str *s);
    i64 render(i64 n = 1);                      // last result
    i64 state(Str *s); i64 loc(Str *s);
    i64 shutdown();
    bool silent(i64 a, i64 n) const;            // slices [a,a+n) exactly silent
    double amp(int bin, i64 sliceFrom, int ch = 0) const;   // amplitude of a probe bin over the two slices from sliceFrom
    vector<double> spectrum(i64 sliceFrom, int slices, int ch = 0) const;   // Hann-windowed amplitudes of bins 0..255
};
// schedule lines: "a <slice> <cmd> <args...>"; sorted by slice, file order inside one slice
struct Act { i64 at; const Line *l; int idx; i64 num(size_t i, i64 d = 0) const { return l->num(i + 2, d); } const string &cmd() const { return l->tok(2); } const string &tok(size_t i) const { return l->tok(i + 2); } };
vector<Act> acts(const Plan &p);
// song with a lyric marker "L<index>" just before every non-meta event; mapping marker -> event index
Song withMarkers(const Song &s);
int markerIndex(const string &t);               // -1 when not a marker
double driftMs(const Song &s, double untilMs);   // resolution of the tempo map accumulated up to a time
Plan cloneWithout(const Plan &p, const std::function<bool(const Line &)> &drop);
Plan probePlan(); Song genWildSong(Rng &r); Song genProbeSong(Rng &r, int steps, bool bend);
// largest relative difference between two stretches of sound: levels and Hann spectra, insensitive to phase
double soundDiff(const Pcm &a, size_t oa, const Pcm &b, size_t ob, size_t n, string *why = nullptr);
bool tempoAmbiguous(const Song &s);
Verdict judgeTransport(const Plan &p); Verdict judgeRewind(const Plan &p);
Song genTransportSong(Rng &r, bool thorough, double maxMs);
i64 songSlices(const Song &s, double *endMs = nullptr);
void maybeSecond(Rng &r, Plan &p);
