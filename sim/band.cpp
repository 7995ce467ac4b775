#include "band.h"
SimFile *dummyFile() { Song d; d.format = 0; d.ppqn = 96; d.ntrk = 1; d.trkEot = {96 * 2 * 3600}; auto *f = new SimFile; f->data = encodeSong(d); return f; }

static StageOpt stageOpt(bool reset) { StageOpt o; o.reset = reset; return o; }
Band::Band(const Plan &collection, int pairs, int fid, bool reset, const void *library) : st(stageOpt(reset)) {
    files.build(collection);
    if (library) ok = EAS_SetSoundLibrary(st.in.h, nullptr, (EAS_SNDLIB_HANDLE)library) == EAS_SUCCESS;
    if (SimFile *c = files.get(fid)) ok = ok && st.in.loadDls(c, nullptr) == EAS_SUCCESS;
    for (int i = 0; i < pairs && ok; i++) {
        hostFiles.emplace_back(dummyFile());
        Str *f = st.file(hostFiles.back().get(), true, 0), *m = f ? st.midi(f) : nullptr;
        if (!m) { ok = false; break; }
        host.push_back(f); mid.push_back(m);
    }
}
void Band::send(int pair, std::initializer_list<int> bytes) {
    Bytes b; for (int x : bytes) b.push_back((u8)x);
    st.write(mid[(size_t)wrap(pair, pairs())], b);
}
double toneFreq(const vector<float> &v, size_t a, size_t n) {
    // a crossing counts only after the signal was clearly negative, so that a little leakage adds none
    double first = -1, last = -1, low = 0.3 * rms(v, a, n); int count = 0; bool armed = false;
    for (size_t i = a + 1; i < a + n && i < v.size(); i++) {
        if (v[i] < -low) armed = true;
        if (!armed || v[i - 1] >= 0 || v[i] < 0) continue;
        double t = (double)i - v[i] / (v[i] - v[i - 1]);
        if (first < 0) first = t;
        last = t; count++; armed = false;
    }
    return count >= 3 ? (count - 1) * (double)RATE / (last - first) : 0;
}
