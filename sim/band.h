// A band: one instance with one or two interactive players. Each player shares the synthesizer of a silent two-hour
// "host" file stream, because settings (volume, transposition, polyphony) are refused on an interactive stream itself.
#pragma once
#include "stage.h"

SimFile *dummyFile();                        // the silent host song

struct Band {
    Stage st; FileSet files; vector<std::unique_ptr<SimFile>> hostFiles; vector<Str *> host, mid; bool ok = true;
    Band(const Plan &collection, int pairs, int fid = 9, bool reset = true, const void *library = nullptr);      // reset=false beside another one
    int pairs() const { return (int)mid.size(); }
    void send(int pair, std::initializer_list<int> bytes);
    void note(int pair, int ch, int key, int vel) { send(pair, {0x90 | (ch & 15), key & 127, vel & 127}); }
    void off(int pair, int ch, int key) { send(pair, {0x80 | (ch & 15), key & 127, 64}); }
    void cc(int pair, int ch, int num, int val) { send(pair, {0xb0 | (ch & 15), num & 127, val & 127}); }
    void prog(int pair, int ch, int p) { send(pair, {0xc0 | (ch & 15), p & 127}); }
    void bend(int pair, int ch, int v14) { send(pair, {0xe0 | (ch & 15), v14 & 127, (v14 >> 7) & 127}); }
};
// frequency (Hz) of the single tone in [a, a+n) from its rising zero crossings; 0 when there are fewer than three
double toneFreq(const vector<float> &v, size_t a, size_t n);
inline int wrap(i64 v, int n) { return n <= 0 ? 0 : (int)(((v % n) + n) % n); }
