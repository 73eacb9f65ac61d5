#include "smt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <chrono>
#include <set>
#include <algorithm>
SmtStats g_smt;
std::string g_solver = "z3-new";
std::string g_dumpdir;
static pid_t pid = -1; static int fin = -1, fout = -1; static std::string rbuf;

static void start() {
  int a[2], b[2]; if (pipe(a) || pipe(b)) exit(3);
  pid = fork();
  if (pid == 0) {
    dup2(a[0], 0); dup2(b[1], 1); close(a[0]); close(a[1]); close(b[0]); close(b[1]);
    execlp(g_solver.c_str(), g_solver.c_str(), "-in", "-smt2", "-memory:3000", (char*)nullptr); _exit(127);
  }
  close(a[0]); close(b[1]); fin = a[1]; fout = b[0]; rbuf.clear(); fcntl(fin, F_SETFL, O_NONBLOCK);
  signal(SIGPIPE, SIG_IGN);
}
void smtClose() { if (pid > 0) { close(fin); close(fout); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = -1; } }
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool sendAll(const std::string& s, double deadline) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fin, s.data() + o, s.size() - o);
    if (n > 0) { o += n; continue; }
    if (n < 0 && errno == EAGAIN) { double left = deadline - nowS(); if (left <= 0) return false; struct pollfd pf = {fin, POLLOUT, 0}; poll(&pf, 1, (int)std::min(1000.0, left * 1000 + 1)); continue; }
    return false;
  }
  return true;
}
static bool readLine(std::string& line, double deadline) {
  while (true) {
    size_t p = rbuf.find('\n');
    if (p != std::string::npos) { line = rbuf.substr(0, p); rbuf.erase(0, p + 1); return true; }
    double now = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    if (now > deadline) return false;
    struct pollfd pf = {fout, POLLIN, 0}; int r = poll(&pf, 1, (int)std::min(1000.0, (deadline - now) * 1000 + 1));
    if (r > 0) { char b[65536]; ssize_t n = read(fout, b, sizeof b); if (n <= 0) return false; rbuf.append(b, n); }
  }
}
static std::string bv(u64 v, unsigned w) { char b[40]; snprintf(b, sizeof b, "(_ bv%llu %u)", (unsigned long long)v, w); return b; }
static std::string nm(T t) { return "t" + std::to_string(t->id); }
static void muxTable(std::string& s, const Table* t, u64 lo, int bit) {
  bool same = true; for (u64 i = 1; i < (1ull << (bit + 1)) && same; i++) same = t->v[lo + i] == t->v[lo];
  if (same || bit < 0) { s += bv(t->v[lo], t->w); return; }
  s += "(ite (= ((_ extract " + std::to_string(bit) + " " + std::to_string(bit) + ") x) #b1) ";
  muxTable(s, t, lo + (1ull << bit), bit - 1); s += " "; muxTable(s, t, lo, bit - 1); s += ")";
}
static void muxTuple(std::string& s, T tu, const std::string& x, u64 lo, int bit, unsigned w) {
  if (bit < 0) { s += lo < tu->n ? nm(tu->args[lo]) : bv(0, w); return; }
  if (lo >= tu->n) { s += bv(0, w); return; }
  s += "(ite (= ((_ extract " + std::to_string(bit) + " " + std::to_string(bit) + ") " + x + ") #b1) ";
  muxTuple(s, tu, x, lo + (1ull << bit), bit - 1, w); s += " "; muxTuple(s, tu, x, lo, bit - 1, w); s += ")";
}
static std::string b1(const std::string& c) { return "(ite " + c + " #b1 #b0)"; }

SatRes smtCheck(const std::vector<T>& conj, int timeout_ms, std::unordered_map<u32, u64>* model, const std::function<bool(T)>* cut) {
  auto t0 = std::chrono::steady_clock::now();
  g_smt.queries++;
  // collect the cone in topological order (ids are topological)
  std::vector<T> nodes; { std::unordered_map<u32, bool> seen; std::vector<T> st(conj.begin(), conj.end());
    while (!st.empty()) { T t = st.back(); st.pop_back(); if (seen[t->id]) continue; seen[t->id] = true; nodes.push_back(t); if (cut && (*cut)(t)) continue; for (u32 i = 0; i < t->n; i++) st.push_back(t->args[i]); } }
  std::sort(nodes.begin(), nodes.end(), [](T a, T b) { return a->id < b->id; });
  std::string s = "(reset)\n(set-option :timeout " + std::to_string(timeout_ms) + ")\n";
  std::set<std::string> ufs; std::set<u32> tabs; std::vector<T> vars; std::string body; bool uf = false;
  for (T t : nodes) {
    std::string d;
    bool c = cut && (*cut)(t);
    if (t->op == O_TUPLE) continue;
    if (t->op == O_VAR || c) { vars.push_back(t); body += "(declare-const " + nm(t) + " (_ BitVec " + std::to_string(t->w) + "))\n"; continue; }
    auto A = [&](u32 i) { return nm(t->args[i]); };
    auto bin = [&](const char* o) { return std::string("(") + o + " " + A(0) + " " + A(1) + ")"; };
    auto amt = [&](u32 i) { T a = t->args[i]; if (a->w == t->w) return nm(a); if (a->w < t->w) return "((_ zero_extend " + std::to_string(t->w - a->w) + ") " + nm(a) + ")"; return "((_ extract " + std::to_string(t->w - 1) + " 0) " + nm(a) + ")"; };
    switch (t->op) {
    case O_CONST: d = bv(t->val, t->w); break;
    case O_ADD: {
      if (t->val || t->n == 0) d = bv(t->val, t->w);
      u64 m = maskw(t->w);
      for (u32 i = 0; i < t->n; i++) {
        std::string x; u64 k = t->coef[i];
        if (k == 1) x = A(i); else if (k == m) { if (d.empty()) d = "(bvneg " + A(i) + ")"; else d = "(bvsub " + d + " " + A(i) + ")"; continue; } else x = "(bvmul " + bv(k, t->w) + " " + A(i) + ")";
        d = d.empty() ? x : "(bvadd " + d + " " + x + ")";
      } break; }
    case O_MUL: d = A(0); for (u32 i = 1; i < t->n; i++) d = "(bvmul " + d + " " + A(i) + ")"; break;
    case O_XOR: {
      if (t->val == maskw(t->w)) { d = A(0); for (u32 i = 1; i < t->n; i++) d = "(bvxor " + d + " " + A(i) + ")"; d = "(bvnot " + d + ")"; break; }
      d = t->val ? bv(t->val, t->w) : A(0); for (u32 i = t->val ? 0 : 1; i < t->n; i++) d = "(bvxor " + d + " " + A(i) + ")"; break; }
    case O_AND: d = A(0); for (u32 i = 1; i < t->n; i++) d = "(bvand " + d + " " + A(i) + ")"; break;
    case O_CONCAT: d = "(concat"; for (u32 i = 0; i < t->n; i++) d += " " + A(i); d += ")"; break;
    case O_EXTRACT: d = "((_ extract " + std::to_string(t->attr + t->w - 1) + " " + std::to_string(t->attr) + ") " + A(0) + ")"; break;
    case O_ITE: d = "(ite (= " + A(0) + " #b1) " + A(1) + " " + A(2) + ")"; break;
    case O_EQ: d = b1("(= " + A(0) + " " + A(1) + ")"); break;
    case O_ULT: d = b1(bin("bvult")); break;
    case O_SHL: d = "(bvshl " + A(0) + " " + amt(1) + ")"; break;
    case O_LSHR: d = "(bvlshr " + A(0) + " " + amt(1) + ")"; break;
    case O_ASHR: d = "(bvashr " + A(0) + " " + amt(1) + ")"; break;
    case O_ROTL: { std::string z = t->args[1]->w < t->w ? "((_ zero_extend " + std::to_string(t->w - t->args[1]->w) + ") " + A(1) + ")" : A(1);
      d = "(let ((r " + z + ")) (bvor (bvshl " + A(0) + " r) (bvlshr " + A(0) + " (bvsub " + bv(t->w, t->w) + " r))))"; break; }
    case O_UDIV: d = bin("bvudiv"); break;
    case O_UREM: d = bin("bvurem"); break;
    case O_SDIV: d = bin("bvsdiv"); break;
    case O_SREM: d = bin("bvsrem"); break;
    case O_LOOKUP: {
      if (tabs.insert(t->tab->id).second) { std::string f = "(define-fun T" + std::to_string(t->tab->id) + " ((x (_ BitVec " + std::to_string(t->tab->k) + "))) (_ BitVec " + std::to_string(t->tab->w) + ") "; muxTable(f, t->tab, 0, t->tab->k - 1); body += f + ")\n"; }
      d = "(T" + std::to_string(t->tab->id) + " " + A(0) + ")"; break; }
    case O_TLOOKUP: muxTuple(d, t->args[0], A(1), 0, t->args[1]->w - 1, t->w); break;
    case O_UF: case O_PERM: {
      uf = true; std::string f = (t->op == O_UF ? "U" : (t->val >> 16 & 1) ? "D" : "E") + std::to_string(t->fn) + "_" + std::to_string(t->attr) + "_" + std::to_string(t->n) + "_" + std::to_string(t->val & 0xffff);
      if (ufs.insert(f).second) { if (t->n) body += "(declare-fun " + f + " ((_ BitVec " + std::to_string(8 * t->n) + ")) (_ BitVec 8))\n"; else body += "(declare-const " + f + " (_ BitVec 8))\n"; }
      if (!t->n) { d = f; break; }
      if (t->n == 1) d = "(" + f + " " + A(0) + ")"; else { d = "(" + f + " (concat"; for (u32 i = 0; i < t->n; i++) d += " " + A(i); d += "))"; } break; }
    default: fprintf(stderr, "smt: op %d\n", t->op); exit(3);
    }
    body += "(define-fun " + nm(t) + " () (_ BitVec " + std::to_string(t->w) + ") " + d + ")\n";
  }
  s += std::string("(set-logic ") + (uf ? "QF_UFBV" : "QF_BV") + ")\n" + body;
  for (T t : conj) s += "(assert (= " + nm(t) + " #b1))\n";
  s += "(check-sat)\n";
  if (!g_dumpdir.empty()) { std::string p = g_dumpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_smt.queries) + ".smt2"; FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
  SatRes res = UNKNOWN;
  if (pid < 0) start();
  double now = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  double deadline = now + timeout_ms / 1000.0 * 1.5 + 3;
  std::string line; bool ok = sendAll(s, deadline);
  while (ok) {
    ok = readLine(line, deadline); if (!ok) break;
    if (line == "sat") { res = SAT; break; } if (line == "unsat") { res = UNSAT; break; }
    if (line == "unknown" || line == "timeout") { res = UNKNOWN; break; }
    if (line.find("error") != std::string::npos) { fprintf(stderr, "smt error: %s\n", line.c_str()); res = UNKNOWN; ok = false; break; }
  }
  if (!ok) { smtClose(); res = UNKNOWN; }
  else if (res == SAT && model && !vars.empty()) {
    std::string q = "(get-value ("; for (T v : vars) q += nm(v) + " "; q += "))\n(echo \"done\")\n";
    std::string all; ok = sendAll(q, deadline + 20);
    while (ok) { ok = readLine(line, deadline + 20); if (!ok || line == "done" || line == "\"done\"") break; all += line + " "; }
    if (!ok) { smtClose(); res = UNKNOWN; }
    size_t p = 0;
    while ((p = all.find("(t", p)) != std::string::npos) {
      u32 id = strtoul(all.c_str() + p + 2, nullptr, 10); size_t e = all.find_first_of("#", p); if (e == std::string::npos) break;
      u64 v = 0; if (all[e + 1] == 'x') v = strtoull(all.c_str() + e + 2, nullptr, 16); else v = strtoull(all.c_str() + e + 2, nullptr, 2);
      (*model)[id] = v; p = e;
    }
  }
  g_smt.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (res == SAT) g_smt.sat++; else if (res == UNSAT) g_smt.unsat++; else g_smt.unknown++;
  return res;
}
