// Random histories of public calls, with faults, for the robustness properties.
#pragma once
#include "stage.h"
struct ScriptOpt { int ops = 40; int insts = 1; bool hostileFiles = true; bool fileFaults = true; bool allocFaults = true; bool yields = true; bool badArgs = true; bool midi = true; bool dls = true; bool render = true; bool shutdowns = true; int maxRender = 30; double renderW = 1; };
// files 1..4 songs (possibly mutated), 5,6 collections, 7 raw bytes
void genFiles(Rng &r, Plan &p, const ScriptOpt &o);
void genStorm(Rng &r, Plan &p, int inst, int steps, bool dls);
void genScript(Rng &r, Plan &p, const ScriptOpt &o);
// selects and plays every instrument of one of the collections already in the plan
void genTour(Rng &r, Plan &p, int inst);
void genDls(Rng &r, Plan &p, int fid, bool wild);
