#pragma once
#include "term.hpp"
// Is a = b for every assignment? Sound, incomplete: bit-level linear normal form, then
// truth tables over a linear basis, then a bounded solver query.
bool proveEq(T a, T b, int effort);
// Representative of t: an older term proved equal to it, or t itself.
T canon(T t);
struct ProveStats { unsigned long long cand = 0, linear = 0, table = 0, smt = 0, failed = 0; double secs = 0; };
extern ProveStats g_prove;
extern int g_cutN;                    // XOR nodes with more operands become cut variables (0: never)
extern unsigned long long g_ncuts;
extern std::unordered_map<u32, T> g_cutDef;
