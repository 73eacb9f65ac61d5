// Equality of terms by simulation-guided candidates and small proofs.
#include "prove.hpp"
#include "smt.hpp"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <set>
ProveStats g_prove;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- bit-level linear forms: a set of atoms and a constant, interned
typedef u32 LF; // id
static const int SW = 4; // signature words (64 lanes each)
struct Sig { u64 w[SW]; bool operator==(const Sig& o) const { return !memcmp(w, o.w, sizeof w); } bool zero() const { for (int i = 0; i < SW; i++) if (w[i]) return false; return true; } };
struct LinForm { std::vector<u32> at; bool c; Sig sg; };
static std::vector<LinForm> lfs; static std::unordered_map<u64, std::vector<LF>> lfTab;
enum AK : u8 { A_BIT, A_PROD, A_LK, A_CUT };
struct Atom { AK k; T t; unsigned bit; std::vector<LF> op; std::vector<u64> col; Sig sg; };
static std::vector<Atom> atoms; static std::unordered_map<u64, u32> bitAtom; static std::map<std::vector<LF>, u32> prodAtom;
static std::unordered_map<u32, std::vector<LF>> bitMemo;
static u64 work = 0; static u64 workLimit = ~0ull;
struct TooMuch {};
std::unordered_map<u32, T> g_cutDef;   // cut variable -> what it stands for

// 256-lane simulation of terms (lanes 0..3 are the eager ones)
static std::unordered_map<u32, std::vector<u64>> simMemo; static const int SL = SW * 64;
static const std::vector<u64>& simTerm(T root) {
  std::vector<std::pair<T, u32>> st{{root, 0}};
  while (!st.empty()) {
    T u = st.back().first; if (simMemo.count(u->id)) { st.pop_back(); continue; }
    auto cd = g_cutDef.find(u->id); if (cd != g_cutDef.end()) { T d = cd->second; auto it = simMemo.find(d->id); if (it == simMemo.end()) { st.push_back({d, 0}); continue; } auto v = it->second; simMemo[u->id] = std::move(v); st.pop_back(); continue; }
    if (st.back().second < u->n) { T c = u->args[st.back().second++]; if (!simMemo.count(c->id)) st.push_back({c, 0}); continue; }
    std::vector<u64> r(u->op == O_TUPLE ? 0 : SL);
    if (u->op == O_VAR) { u64 z0 = g_seed * 7 + u->val * 1315423911ull + 3; for (int l = 0; l < SL; l++) { if (l < NL) { r[l] = u->sig[l]; continue; } z0 += 0x9E3779B97F4A7C15ull; u64 z = z0; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; r[l] = (z ^ (z >> 31)) & maskw(u->w); } }
    else if (u->op == O_TLOOKUP) { auto& ix = simMemo[u->args[1]->id]; for (int l = 0; l < SL; l++) r[l] = ix[l] < u->args[0]->n ? simMemo[u->args[0]->args[ix[l]]->id][l] : 0; }
    else if (u->op != O_TUPLE) { std::vector<const std::vector<u64>*> as(u->n); for (u32 i = 0; i < u->n; i++) as[i] = &simMemo[u->args[i]->id]; std::vector<u64> a(u->n + 1); for (int l = 0; l < SL; l++) { for (u32 i = 0; i < u->n; i++) a[i] = (*as[i])[l]; r[l] = evalNode(u, a.data()); } }
    simMemo[u->id] = std::move(r); st.pop_back();
  }
  return simMemo[root->id];
}

static LF internLF(std::vector<u32>&& at, bool c) {
  u64 h = c ? 77 : 5; for (u32 x : at) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; }
  work += at.size() + 4; if (work > workLimit) throw TooMuch();
  auto& v = lfTab[h]; for (LF i : v) if (lfs[i].c == c && lfs[i].at == at) return i;
  Sig sg; for (int i = 0; i < SW; i++) sg.w[i] = c ? ~0ull : 0; for (u32 a : at) for (int i = 0; i < SW; i++) sg.w[i] ^= atoms[a].sg.w[i];
  lfs.push_back({std::move(at), c, sg}); v.push_back(lfs.size() - 1); return lfs.size() - 1;
}
static LF lfConst(bool c) { return internLF({}, c); }
static LF lfAtom(u32 a) { return internLF({a}, false); }
static LF lfXor(LF a, LF b) {
  if (a == b) return lfConst(false);
  const LinForm &x = lfs[a], &y = lfs[b]; if (y.at.empty() && !y.c) return a; if (x.at.empty() && !x.c) return b;
  std::vector<u32> r; r.reserve(x.at.size() + y.at.size());
  std::set_symmetric_difference(x.at.begin(), x.at.end(), y.at.begin(), y.at.end(), std::back_inserter(r));
  bool c = x.c ^ y.c; return internLF(std::move(r), c);
}
static LF lfXorMany(const std::vector<LF>& in, bool c) {
  std::vector<u32> all; for (LF i : in) { all.insert(all.end(), lfs[i].at.begin(), lfs[i].at.end()); c ^= lfs[i].c; }
  work += all.size();
  std::sort(all.begin(), all.end()); std::vector<u32> r;
  for (size_t i = 0; i < all.size();) { size_t j = i; while (j < all.size() && all[j] == all[i]) j++; if ((j - i) & 1) r.push_back(all[i]); i = j; }
  return internLF(std::move(r), c);
}
static bool lfIsC(LF a, bool& v) { if (lfs[a].at.empty()) { v = lfs[a].c; return true; } return false; }
static bool zeroByTables(LF d);
// representative of a linear form among the operands seen so far
static std::unordered_map<u64, std::vector<LF>> opBySig; static std::unordered_map<LF, LF> lfRep;
static LF lfCanon(LF f) {
  if (lfs[f].at.size() < 1) return f;
  auto it = lfRep.find(f); if (it != lfRep.end()) return it->second;
  u64 h = 0; for (int i = 0; i < SW; i++) { h ^= lfs[f].sg.w[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  LF r = f; auto v = opBySig[h]; int n = 0;
  for (LF g : v) if (lfs[g].sg == lfs[f].sg && n++ < 2) { if (zeroByTables(lfXor(f, g))) { r = g; break; } }
  if (r == f && v.size() < 4) opBySig[h].push_back(f);
  lfRep[f] = r; return r;
}
static LF lfProd(std::vector<LF> f) { // product of linear forms
  std::vector<LF> g;
  for (LF x : f) { bool v; x = lfCanon(x); if (lfIsC(x, v)) { if (!v) return lfConst(false); continue; }
    if (lfs[x].at.size() == 1 && !lfs[x].c && atoms[lfs[x].at[0]].k == A_PROD) { for (LF y : atoms[lfs[x].at[0]].op) g.push_back(y); continue; }
    g.push_back(x); }
  std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end());
  if (g.empty()) return lfConst(true);
  if (g.size() == 1) return g[0];
  for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++) if (lfs[g[i]].at == lfs[g[j]].at) return lfConst(false); // x & ~x
  auto it = prodAtom.find(g); u32 a;
  if (it != prodAtom.end()) a = it->second; else { Atom A; A.t = nullptr; A.bit = 0; A.op = g; A.k = A_PROD; for (int i = 0; i < SW; i++) { A.sg.w[i] = ~0ull; for (LF x : g) A.sg.w[i] &= lfs[x].sg.w[i]; } atoms.push_back(A); a = atoms.size() - 1; prodAtom[g] = a; }
  return lfAtom(a);
}
static LF lfBit(T t, unsigned b) {
  u64 k = (u64)t->id << 6 | b; auto it = bitAtom.find(k); u32 a;
  if (it != bitAtom.end()) a = it->second; else {
    Atom A; A.t = t; A.bit = b; A.k = g_cutDef.count(t->id) ? A_CUT : A_BIT; auto& v = simTerm(t);
    for (int i = 0; i < SW; i++) { A.sg.w[i] = 0; for (int l = 0; l < 64; l++) A.sg.w[i] |= (v[i * 64 + l] >> b & 1) << l; }
    atoms.push_back(A); a = atoms.size() - 1; bitAtom[k] = a; }
  return lfAtom(a);
}
// boolean functions of the same index bits, over a growing basis
struct LkBasis { std::vector<std::vector<u64>> rows; std::vector<u32> piv; std::vector<int> atom; }; // atom -1: constant one, -2-i: index bit i
static std::map<std::vector<LF>, LkBasis> lkTab;
static LF lfLookup(const std::vector<LF>& iv, std::vector<u64> col, unsigned k) {
  size_t W = k <= 6 ? 1 : 1u << (k - 6);
  LkBasis& B = lkTab[iv];
  auto reduceFind = [&](std::vector<u64>& c) { u32 p = 0; for (size_t i = 0; i < W; i++) if (c[i]) { p = i * 64 + __builtin_ctzll(c[i]); return (int)p; } return -1; };
  if (B.rows.empty()) {
    auto add = [&](std::vector<u64> c, int at) { B.rows.push_back(c); B.atom.push_back(at); B.piv.push_back(0); };
    std::vector<u64> one(W, k >= 6 ? ~0ull : (1ull << (1u << k)) - 1); add(one, -1);
    for (unsigned b = 0; b < k; b++) { std::vector<u64> c(W, 0); for (u32 x = 0; x < (1u << k); x++) if (x >> b & 1) c[x / 64] |= 1ull << (x & 63); add(c, -2 - (int)b); }
    // pivots: one at 0, index bit b at 1<<b
    B.piv[0] = 0; for (unsigned b = 0; b < k; b++) B.piv[b + 1] = 1u << b;
  }
  std::vector<LF> parts; bool c1 = false;
  for (size_t i = 0; i < B.rows.size(); i++) {
    u32 p = B.piv[i]; if (!(col[p / 64] >> (p & 63) & 1)) continue;
    for (size_t w = 0; w < W; w++) col[w] ^= B.rows[i][w];
    if (B.atom[i] == -1) c1 = !c1; else if (B.atom[i] < -1) parts.push_back(iv[-2 - B.atom[i]]); else parts.push_back(lfAtom(B.atom[i]));
  }
  work += B.rows.size() * W;
  int p = reduceFind(col);
  if (p >= 0) { // a new basis function: zero at all earlier pivots
    Atom A; A.t = nullptr; A.bit = k; A.op = iv; A.k = A_LK; A.col = col;
    for (int i = 0; i < SW; i++) { A.sg.w[i] = 0; for (int l = 0; l < 64; l++) { u32 x = 0; for (unsigned b = 0; b < k; b++) x |= (lfs[iv[b]].sg.w[i] >> l & 1) << b; A.sg.w[i] |= (col[x / 64] >> (x & 63) & 1) << l; } }
    atoms.push_back(A); u32 a = atoms.size() - 1; B.rows.push_back(col); B.piv.push_back(p); B.atom.push_back(a); parts.push_back(lfAtom(a));
  }
  return lfXorMany(parts, c1);
}
static const std::vector<LF>& bitsOf(T root) {
  { auto it = bitMemo.find(root->id); if (it != bitMemo.end()) return it->second; }
  std::vector<std::pair<T, u32>> st{{root, 0}};
  while (!st.empty()) {
    T t = st.back().first; if (bitMemo.count(t->id)) { st.pop_back(); continue; }
    bool inner = t->op == O_XOR || t->op == O_AND || t->op == O_CONCAT || t->op == O_EXTRACT || t->op == O_ITE || (t->op == O_LOOKUP && t->tab->k <= 10);
    if (inner && st.back().second < t->n) { T a = t->args[st.back().second++]; if (!bitMemo.count(a->id)) st.push_back({a, 0}); continue; }
    std::vector<LF> r(t->w);
    switch (t->op) {
    case O_CONST: for (unsigned b = 0; b < t->w; b++) r[b] = lfConst(t->val >> b & 1); break;
    case O_XOR: { std::vector<const std::vector<LF>*> as; for (u32 i = 0; i < t->n; i++) as.push_back(&bitMemo[t->args[i]->id]); std::vector<LF> x(t->n); for (unsigned b = 0; b < t->w; b++) { for (u32 i = 0; i < t->n; i++) x[i] = (*as[i])[b]; r[b] = lfXorMany(x, t->val >> b & 1); } break; }
    case O_AND: { std::vector<const std::vector<LF>*> as; for (u32 i = 0; i < t->n; i++) as.push_back(&bitMemo[t->args[i]->id]); for (unsigned b = 0; b < t->w; b++) { std::vector<LF> x(t->n); for (u32 i = 0; i < t->n; i++) x[i] = (*as[i])[b]; r[b] = lfProd(x); } break; }
    case O_CONCAT: { unsigned pos = t->w; for (u32 i = 0; i < t->n; i++) { T a = t->args[i]; pos -= a->w; auto& v = bitMemo[a->id]; for (unsigned b = 0; b < a->w; b++) r[pos + b] = v[b]; } break; }
    case O_EXTRACT: { auto& v = bitMemo[t->args[0]->id]; for (unsigned b = 0; b < t->w; b++) r[b] = v[b + t->attr]; break; }
    case O_ITE: { LF c = bitMemo[t->args[0]->id][0]; auto& x = bitMemo[t->args[1]->id]; auto& y = bitMemo[t->args[2]->id]; for (unsigned b = 0; b < t->w; b++) r[b] = lfXor(y[b], lfProd({c, lfXor(x[b], y[b])})); break; }
    case O_LOOKUP: if (t->tab->k <= 10) {
        std::vector<LF> iv = bitMemo[t->args[0]->id]; for (LF& f : iv) f = lfCanon(f); unsigned k = t->tab->k;
        for (unsigned b = 0; b < t->w; b++) { std::vector<u64> col(k <= 6 ? 1 : 1u << (k - 6), 0); for (u32 x = 0; x < (1u << k); x++) if (t->tab->v[x] >> b & 1) col[x / 64] |= 1ull << (x & 63); r[b] = lfLookup(iv, col, k); }
        break; }
      // fallthrough
    default: for (unsigned b = 0; b < t->w; b++) r[b] = (t->kz >> b & 1) ? lfConst(false) : (t->ko >> b & 1) ? lfConst(true) : lfBit(t, b);
    }
    bitMemo[t->id] = std::move(r); st.pop_back();
  }
  return bitMemo[root->id];
}

// Is the linear form identically zero once the functions it contains are evaluated?
static const int MAXV = 11;
struct TT { u64 w[32]; };
static std::unordered_map<u32, u8> ttMemo; // by lf id: 1 zero, 2 unknown
static LF cutBit(u32 a) { return bitsOf(g_cutDef[atoms[a].t->id])[atoms[a].bit]; }
static bool zeroByTables(LF d) {
  bool v; if (lfIsC(d, v)) return !v;
  if (!lfs[d].sg.zero()) return false;
  auto mm = ttMemo.find(d); if (mm != ttMemo.end()) return mm->second == 1;
  ttMemo[d] = 2;
  // cut variables first: newest ones are replaced by what they stand for, a few times
  std::vector<u32> X; std::set<u32> inX; // expanded atoms
  std::set<u32> cand; auto addC = [&](LF f) { for (u32 a : lfs[f].at) if (atoms[a].k != A_BIT && !inX.count(a)) cand.insert(a); };
  addC(d); std::map<u32, LF> cutLF;
  for (int step = 0; step < 120 && !cand.empty(); step++) {
    u32 a = *cand.rbegin(); cand.erase(a);
    if (atoms[a].k == A_CUT) { LF f = cutBit(a); cutLF[a] = f; X.push_back(a); inX.insert(a); addC(f); }
    else { X.push_back(a); inX.insert(a); auto ops = atoms[a].op; for (LF f : ops) addC(f); }
    if (!cand.empty() && step < 2) continue;
    std::vector<std::vector<u32>> basis; std::vector<u32> piv; // reduced rows
    auto reduce = [&](std::vector<u32> u, u32& comb) { comb = 0; for (size_t i = 0; i < basis.size(); i++) if (std::binary_search(u.begin(), u.end(), piv[i])) { std::vector<u32> r; std::set_symmetric_difference(u.begin(), u.end(), basis[i].begin(), basis[i].end(), std::back_inserter(r)); u.swap(r); comb ^= 1u << i; work += u.size(); } return u; };
    auto upart = [&](LF f) { std::vector<u32> u; for (u32 q : lfs[f].at) if (!inX.count(q)) u.push_back(q); work += u.size(); return u; };
    bool over = false; std::map<LF, u32> combOf;
    auto put = [&](LF f) { if (over || combOf.count(f)) return; u32 c; auto u = reduce(upart(f), c); if (!u.empty()) { if ((int)basis.size() >= MAXV) { over = true; return; } basis.push_back(u); piv.push_back(u.back()); c ^= 1u << (basis.size() - 1); } combOf[f] = c; };
    for (u32 q : X) { if (atoms[q].k == A_CUT) put(cutLF[q]); else for (LF f : atoms[q].op) put(f); }
    if (work > workLimit) throw TooMuch();
    if (over) { if (step > 40) return false; continue; }
    u32 cd; auto rest = reduce(upart(d), cd); if (!rest.empty()) continue;
    // truth tables
    int nv = basis.size(), W = nv <= 6 ? 1 : 1 << (nv - 6); u64 full = nv >= 6 ? ~0ull : ((1ull << (1 << nv)) - 1);
    static const u64 pat[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
    std::map<u32, TT> tab; std::function<void(u32)> evalAtom;
    auto evalLF = [&](LF f, u32 comb, TT& r) { for (u32 q : lfs[f].at) if (inX.count(q) && !tab.count(q)) evalAtom(q);
      for (int i = 0; i < W; i++) r.w[i] = lfs[f].c ? full : 0; for (int b = 0; b < nv; b++) if (comb >> b & 1) for (int i = 0; i < W; i++) r.w[i] ^= b < 6 ? (pat[b] & full) : ((i >> (b - 6) & 1) ? ~0ull : 0); for (u32 q : lfs[f].at) if (inX.count(q)) { TT& z = tab[q]; for (int i = 0; i < W; i++) r.w[i] ^= z.w[i]; } };
    evalAtom = [&](u32 q) {
      TT p; if (atoms[q].k == A_CUT) evalLF(cutLF[q], combOf[cutLF[q]], p);
      else if (atoms[q].k == A_PROD) { for (int i = 0; i < W; i++) p.w[i] = full; for (LF f : atoms[q].op) { TT z; evalLF(f, combOf[f], z); for (int i = 0; i < W; i++) p.w[i] &= z.w[i]; } }
      else { unsigned k = atoms[q].bit; std::vector<TT> z(k); for (unsigned b = 0; b < k; b++) evalLF(atoms[q].op[b], combOf[atoms[q].op[b]], z[b]); for (int i = 0; i < W; i++) { p.w[i] = 0; for (int l = 0; l < 64 && (full >> l & 1); l++) { u32 x = 0; for (unsigned b = 0; b < k; b++) x |= (z[b].w[i] >> l & 1) << b; p.w[i] |= (atoms[q].col[x / 64] >> (x & 63) & 1) << l; } } }
      tab[q] = p; };
    TT r; evalLF(d, cd, r); bool zero = true; for (int i = 0; i < W; i++) if (r.w[i]) zero = false;
    work += 200 + (u64)W * 40 * X.size();
    if (zero) { ttMemo[d] = 1; return true; }
  }
  return false;
}

static u64 nSmtTried = 0, nSmtFail = 0;
bool proveEq(T a, T b, int effort) {
  if (a == b) return true; if (a->w != b->w) return false;
  for (int l = 0; l < NL; l++) if (a->sig[l] != b->sig[l]) return false;
  workLimit = work + (effort > 1 ? 60000000ull : 6000000ull);
  try {
    std::vector<LF> x = bitsOf(a), y = bitsOf(b); bool same = true;
    std::vector<LF> d(a->w); for (unsigned i = 0; i < a->w; i++) { if (x[i] == y[i]) { d[i] = lfConst(false); continue; } same = false; d[i] = lfXor(x[i], y[i]); }
    if (same) { g_prove.linear++; return true; }
    bool ok = true; for (unsigned i = 0; i < a->w && ok; i++) if (!zeroByTables(d[i])) ok = false;
    if (ok) { g_prove.table++; return true; }
  } catch (TooMuch&) {}
  // a bounded solver query, cut at depth
  static const u64 smtBudget = 400; if (effort < 2 && nSmtFail > smtBudget) return false;
  bool arith = false; { std::vector<T> q{a, b}; for (size_t i = 0; i < q.size() && i < 60 && !arith; i++) { Op o = q[i]->op; if (o == O_ADD || o == O_MUL || o == O_ROTL || o == O_ITE || o == O_LOOKUP || o == O_TLOOKUP || o == O_UREM || o == O_UDIV || o == O_SHL || o == O_LSHR || o == O_ULT || o == O_EQ) arith = true; for (u32 k = 0; k < q[i]->n && q.size() < 80; k++) q.push_back(q[i]->args[k]); } }
  if (!arith && effort < 2) return false;
  T e; { e = mkEq(a, b); if (isTrue(e)) return true; if (isFalse(e)) return false; }
  for (int dlim : {3, 6, 10}) {
    std::unordered_map<u32, int> dist; std::vector<T> q{e}; dist[e->id] = 0; bool full = true;
    for (size_t i = 0; i < q.size() && q.size() < 3000; i++) { T t = q[i]; int dd = dist[t->id]; if (dd >= dlim && t->op != O_TUPLE) { if (t->n) full = false; continue; } for (u32 k = 0; k < t->n; k++) if (!dist.count(t->args[k]->id)) { dist[t->args[k]->id] = dd + (t->op == O_CONCAT || t->op == O_EXTRACT || t->op == O_TUPLE ? 0 : 1); q.push_back(t->args[k]); } }
    if (q.size() >= 3000) break;
    std::function<bool(T)> cut = [&](T t) { if (t->op == O_CONST || t->op == O_TUPLE) return false; if (t == b) return dlim >= 6 || true; auto it = dist.find(t->id); return it == dist.end() || it->second >= dlim; };
    std::function<bool(T)> cut2 = [&](T t) { if (t->op == O_CONST || t->op == O_TUPLE) return false; auto it = dist.find(t->id); return it == dist.end() || it->second >= dlim; };
    nSmtTried++;
    SatRes r = smtCheck({mkNot(e)}, effort > 1 ? 3000 : 400, nullptr, b->op == O_CONCAT ? &cut2 : &cut);
    if (r == UNSAT) { g_prove.smt++; return true; }
    if (r == SAT && !full && b->op != O_CONCAT && dlim >= 6) { r = smtCheck({mkNot(e)}, effort > 1 ? 3000 : 400, nullptr, &cut2); if (r == UNSAT) { g_prove.smt++; return true; } }
    if (r == SAT && full) break;
    if (r == UNKNOWN) break;
  }
  nSmtFail++; return false;
}

// ---- candidates
static std::unordered_map<u64, std::vector<T>> bySig; static std::unordered_map<u32, T> repMemo;
static size_t scanned = 0;
static u64 sigKey(T t) { u64 h = t->w * 0x9E3779B97F4A7C15ull; for (int l = 0; l < NL; l++) { h ^= t->sig[l]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h; }
int g_cutN = 0; unsigned long long g_ncuts = 0;
T canon(T t) {
  if (t->w < 8 || t->n == 0 || t->op == O_TUPLE || t->op == O_CONST || __builtin_popcountll(~(t->kz | t->ko) & maskw(t->w)) < 8) return t;
  auto m = repMemo.find(t->id); if (m != repMemo.end()) return m->second;
  // register everything created so far
  for (; scanned < g_terms.size(); scanned++) { T u = g_terms[scanned]; if (u->w >= 8 && u->op != O_CONST && u->op != O_TUPLE) { auto& v = bySig[sigKey(u)]; if (v.size() < 6) v.push_back(u); } }
  T r = t; auto& v = bySig[sigKey(t)];
  for (size_t i = 0; i < v.size(); i++) {
    T c = v[i]; if (c->id >= t->id || c->w != t->w) continue; bool eq = true; for (int l = 0; l < NL; l++) if (c->sig[l] != t->sig[l]) eq = false; if (!eq) continue;
    g_prove.cand++; double t0 = now();
    bool ok = proveEq(t, c, 1); g_prove.secs += now() - t0;
    if (getenv("KSYM_CANON")) fprintf(stderr, "canon %s: #%u %s == #%u %s\n", ok ? "yes" : "NO", t->id, show(t, 2).c_str(), c->id, show(c, 2).c_str());
    if (ok) { r = c; break; }
    g_prove.failed++;
    break;
  }
  if (r != t) { auto q = repMemo.find(r->id); if (q != repMemo.end()) r = q->second; }
  if (r == t && g_cutN && t->op == O_XOR && (int)t->n > g_cutN) {
    u32 fl = 0; if (dependsOn(t, VF_UNDEF)) fl |= VF_UNDEF; if (dependsOn(t, VF_SECRET)) fl |= VF_SECRET;
    T y = mkVar("cut!" + std::to_string(g_ncuts++), t->w, fl); for (int l = 0; l < NL; l++) ((Term*)y)->sig[l] = t->sig[l];
    g_cutDef[y->id] = t; r = y; scanned = std::min<size_t>(scanned, y->id);
    if (scanned <= y->id) { for (; scanned < g_terms.size(); scanned++) { T u = g_terms[scanned]; if (u->w >= 8 && u->op != O_CONST && u->op != O_TUPLE) { auto& v2 = bySig[sigKey(u)]; if (v2.size() < 6) v2.push_back(u); } } }
  }
  repMemo[t->id] = r; return r;
}
