/* Small helpers for demonstrations: build a MIDI file or a sound collection in memory, play it, listen. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "eas.h"
#include "eas_reverb.h"
#include "eas_chorus.h"

typedef struct { unsigned char d[1 << 18]; int n; long reads; int failAt; } Mem;      /* failAt: number of the read that fails, 0 = none */
static int memRead(void *h, void *buf, int off, int size) {
    Mem *m = (Mem *)h; m->reads++;
    if (m->failAt && m->reads >= m->failAt) return -1;
    if (off >= m->n) return 0;
    if (off + size > m->n) size = m->n - off;
    memcpy(buf, m->d + off, (size_t)size); return size; }
static int memSize(void *h) { return ((Mem *)h)->n; }
static void locator(Mem *m, EAS_FILE *f) { memset(f, 0, sizeof *f); f->handle = m; f->readAt = memRead; f->size = memSize; }

static void put(Mem *m, int b) { m->d[m->n++] = (unsigned char)b; }
static void put16(Mem *m, unsigned v) { put(m, v >> 8); put(m, v); }
static void put32(Mem *m, unsigned v) { put16(m, v >> 16); put16(m, v & 0xffff); }
static void vlq(Mem *m, unsigned v) { int s = 28; while (s > 0 && !(v >> s)) s -= 7; for (; s >= 0; s -= 7) put(m, (int)((v >> s) & 0x7f) | (s ? 0x80 : 0)); }
static int trkAt;
static void header(Mem *m, int format, int tracks, int ppqn) { memset(m, 0, sizeof *m); memcpy(m->d, "MThd", 4); m->n = 4; put32(m, 6); put16(m, format); put16(m, tracks); put16(m, ppqn); }
static void track(Mem *m) { memcpy(m->d + m->n, "MTrk", 4); m->n += 4; trkAt = m->n; put32(m, 0); }
static void endTrack(Mem *m, unsigned delta) { vlq(m, delta); put(m, 0xff); put(m, 0x2f); put(m, 0); int e = m->n; unsigned len = (unsigned)(e - trkAt - 4); m->n = trkAt; put32(m, len); m->n = e; }
static void ev3(Mem *m, unsigned delta, int a, int b, int c) { vlq(m, delta); put(m, a); put(m, b); put(m, c); }
static void ev2(Mem *m, unsigned delta, int a, int b) { vlq(m, delta); put(m, a); put(m, b); }
static void text(Mem *m, unsigned delta, int type, const char *t) { vlq(m, delta); put(m, 0xff); put(m, type); vlq(m, (unsigned)strlen(t)); memcpy(m->d + m->n, t, strlen(t)); m->n += (int)strlen(t); }
static void tempo(Mem *m, unsigned delta, unsigned usec) { vlq(m, delta); put(m, 0xff); put(m, 0x51); put(m, 3); put(m, usec >> 16); put(m, usec >> 8); put(m, usec); }

static short pcm[256 * 2]; static double level[2]; static int peak; static long slices;
static EAS_RESULT slice(EAS_DATA_HANDLE e) {
    EAS_I32 n = 0; memset(pcm, 0, sizeof pcm); EAS_RESULT r = EAS_Render(e, pcm, 256, &n); double s[2] = {0, 0}; peak = 0; slices++;
    for (int i = 0; i < 512; i++) { s[i & 1] += (double)pcm[i] * pcm[i]; if (abs(pcm[i]) > peak) peak = abs(pcm[i]); }
    level[0] = sqrt(s[0] / 256); level[1] = sqrt(s[1] / 256); return r; }
static double loud(EAS_DATA_HANDLE e, int n) { double s = 0; for (int i = 0; i < n; i++) { slice(e); s += level[0] * level[0] + level[1] * level[1]; } return sqrt(s / n); }

typedef struct { int n; long at[4096]; int type[4096]; char text[4096][32]; } Log;
static void logCb(E_EAS_METADATA_TYPE t, char *s, EAS_VOID_PTR u) { Log *l = (Log *)u; if (l->n < 4096) { l->at[l->n] = slices; l->type[l->n] = (int)t; snprintf(l->text[l->n], 32, "%s", s); l->n++; } }
static EAS_HANDLE openSong(EAS_DATA_HANDLE e, Mem *m) { EAS_FILE f; EAS_HANDLE h = NULL; locator(m, &f); if (EAS_OpenFile(e, &f, &h) != EAS_SUCCESS) return NULL; if (EAS_Prepare(e, h) != EAS_SUCCESS) { EAS_CloseFile(e, h); return NULL; } return h; }
static EAS_I32 stateOf(EAS_DATA_HANDLE e, EAS_HANDLE h) { EAS_STATE s = -1; EAS_State(e, h, &s); return (EAS_I32)s; }
static EAS_I32 locOf(EAS_DATA_HANDLE e, EAS_HANDLE h) { EAS_I32 l = -1; EAS_GetLocation(e, h, &l); return l; }
static void midi3(EAS_DATA_HANDLE e, EAS_HANDLE h, int a, int b, int c) { EAS_U8 x[3] = {(EAS_U8)a, (EAS_U8)b, (EAS_U8)c}; EAS_WriteMIDIStream(e, h, x, 3); }
static void midi2(EAS_DATA_HANDLE e, EAS_HANDLE h, int a, int b) { EAS_U8 x[2] = {(EAS_U8)a, (EAS_U8)b}; EAS_WriteMIDIStream(e, h, x, 2); }
static double freqOf(const short *x, int n, int ch) { int first = -1, last = -1, c = 0; for (int i = 1; i < n; i++) if (x[2 * (i - 1) + ch] < 0 && x[2 * i + ch] >= 0) { if (first < 0) first = i; last = i; c++; } return c > 1 ? (c - 1) * 44100.0 / (last - first) : 0; }

/* a collection with one looped sine wave (8 periods of 64 samples, unity key 60) on the given programs of bank 0 and, if drum, on the drum program */
static void le16(Mem *m, unsigned v) { put(m, v & 255); put(m, (v >> 8) & 255); }
static void le32(Mem *m, unsigned v) { le16(m, v & 0xffff); le16(m, (v >> 16) & 0xffff); }
static void fourcc(Mem *m, const char *t) { memcpy(m->d + m->n, t, 4); m->n += 4; }
static int begin(Mem *m, const char *id, const char *list) { fourcc(m, id); int at = m->n; le32(m, 0); if (list) fourcc(m, list); return at; }
static void finish(Mem *m, int at) { int e = m->n; m->n = at; le32(m, (unsigned)(e - at - 4)); m->n = e; if (e & 1) put(m, 0); }
static void wsmp(Mem *m, int unity, int fine, int gain, int loopStart, int loopLen) { int a = begin(m, "wsmp", NULL); le32(m, 20); le16(m, (unsigned)unity); le16(m, (unsigned)fine & 0xffff); le32(m, (unsigned)gain); le32(m, 0); le32(m, loopLen ? 1 : 0); if (loopLen) { le32(m, 16); le32(m, 0); le32(m, (unsigned)loopStart); le32(m, (unsigned)loopLen); } finish(m, a); }
static void rgnh(Mem *m, int kl, int kh, int vl, int vh, int opt, int group) { int a = begin(m, "rgnh", NULL); le16(m, kl); le16(m, kh); le16(m, vl); le16(m, vh); le16(m, opt); le16(m, group); finish(m, a); }
static void wlnk(Mem *m, int wave) { int a = begin(m, "wlnk", NULL); le16(m, 0); le16(m, 0); le32(m, 1); le32(m, (unsigned)wave); finish(m, a); }
static void sineWave(Mem *m, int samples, int cycles, int amp) { int a = begin(m, "LIST", "wave"); int f = begin(m, "fmt ", NULL); le16(m, 1); le16(m, 1); le32(m, 44100); le32(m, 88200); le16(m, 2); le16(m, 16); finish(m, f); wsmp(m, 60, 0, 0, 0, samples - 2); int d = begin(m, "data", NULL); for (int i = 0; i < samples; i++) le16(m, (unsigned)(int)lrint(amp * sin(2 * M_PI * cycles * i / (samples - 2))) & 0xffff); finish(m, d); finish(m, a); }
static void simpleCollection(Mem *m, int programs, int drum) {
    memset(m, 0, sizeof *m); int riff = begin(m, "RIFF", "DLS "); int c = begin(m, "colh", NULL); le32(m, (unsigned)(programs + (drum ? 1 : 0))); finish(m, c);
    int li = begin(m, "LIST", "lins");
    for (int p = 0; p < programs + (drum ? 1 : 0); p++) { int dr = p == programs; int in = begin(m, "LIST", "ins "); int ih = begin(m, "insh", NULL); le32(m, 1); le32(m, dr ? 0x80000000u : 0); le32(m, dr ? 0 : (unsigned)p); finish(m, ih); int lr = begin(m, "LIST", "lrgn"); int rg = begin(m, "LIST", "rgn "); rgnh(m, 0, 127, 0, 127, 0, 0); wsmp(m, 60, 0, 0, 0, 512); wlnk(m, dr ? 0 : p); finish(m, rg); finish(m, lr); int la = begin(m, "LIST", "lart"); int ar = begin(m, "art1", NULL); le32(m, 8); le32(m, 1); le16(m, 0); le16(m, 0); le16(m, 0x209); le16(m, 0); le32(m, (unsigned)(-12000) << 16); finish(m, ar); finish(m, la); finish(m, in); }
    finish(m, li); int pt = begin(m, "ptbl", NULL); le32(m, 8); int nw = programs > 0 ? programs : 1; le32(m, (unsigned)nw); int at = m->n; for (int i = 0; i < nw; i++) le32(m, 0); finish(m, pt);
    int wv = begin(m, "LIST", "wvpl"); int base = m->n; for (int i = 0; i < nw; i++) { int e = m->n; m->n = at + 4 * i; le32(m, (unsigned)(e - base)); m->n = e; sineWave(m, 514, 8 * (i + 1), 8000); } finish(m, wv); finish(m, riff); }
static EAS_RESULT loadCollection(EAS_DATA_HANDLE e, EAS_HANDLE h, Mem *m) { EAS_FILE f; locator(m, &f); return EAS_LoadDLSCollection(e, h, &f); }
#define CHECK(c, ...) do { if (!(c)) { printf("FAILED: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
