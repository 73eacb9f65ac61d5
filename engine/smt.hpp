#pragma once
#include "term.hpp"
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SmtStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };
extern SmtStats g_smt;
extern std::string g_solver;   // command line of the solver
extern std::string g_dumpdir;  // when set, every query is also written there
// Decide the conjunction of 1-bit terms. On SAT fills model (var id -> value).
// cut: nodes to be treated as free variables (may be null).
SatRes smtCheck(const std::vector<T>& conj, int timeout_ms, std::unordered_map<u32, u64>* model, const std::function<bool(T)>* cut = nullptr);
void smtClose();
