#include "sim.h"
#define ALL(X) X(M01) X(M02) X(M03) X(T01) X(T02) X(T03) X(T04) X(T05) X(T06) X(V01) X(V02) X(V03) X(V04) X(D03) X(L02) X(M04) X(D01) X(D02) X(S01) X(S02) X(S03) X(W01) X(E01) X(L01) X(V05) X(V06) X(L03) X(L04) X(L05) X(D04) X(V07)
#define DECL(x) DECL_PROP(x)
#define ENTRY(x) {#x, gen_##x, judge_##x},
ALL(DECL)
const vector<Prop> &props() { static vector<Prop> v = { ALL(ENTRY) }; return v; }
