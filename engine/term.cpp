#include "term.hpp"
#include "ksprim.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <unordered_set>
#include <set>

const char* opname[] = {"const","var","uf","perm","add","mul","xor","and","concat","extract","ite","eq","ult",
  "shl","lshr","ashr","rotl","udiv","urem","sdiv","srem","lookup","tlookup","tuple"};
std::vector<VarInfo> g_vars;
std::vector<T> g_terms;
int g_gran = 8;
u64 g_seed = 1;
u64 g_simcheck_fail = 0; int g_xorflat = 1000;

// ---------------------------------------------------------------- arena and hash-consing
static char* arena_p = nullptr; static size_t arena_left = 0;
static void* aalloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > arena_left) {
    size_t c = std::max<size_t>(n, 1 << 22);
    arena_p = (char*)malloc(c); arena_left = c;
    if (!arena_p) { fprintf(stderr, "ksym: out of memory\n"); exit(3); }
  }
  void* r = arena_p; arena_p += n; arena_left -= n; return r;
}
static std::vector<T> htab(1 << 16, nullptr); static std::vector<u64> hkey(1 << 16, 0); static size_t hcount = 0;
static inline u64 hmix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

static void computeBits(Term* t);
static void simNode(Term* t);

static T intern(Op op, unsigned w, unsigned attr, u32 fn, u64 val, const T* args, const u64* coef, u32 n, const Table* tab) {
  u64 h = hmix(op * 131 + w, attr * 7919ull + fn); h = hmix(h, val); h = hmix(h, n);
  for (u32 i = 0; i < n; i++) { h = hmix(h, args[i]->id); if (coef) h = hmix(h, coef[i]); }
  if (tab) h = hmix(h, tab->id + 1);
  if (h == 0) h = 1;
  size_t m = htab.size() - 1, p = h & m;
  while (hkey[p]) {
    if (hkey[p] == h) {
      T t = htab[p];
      if (t->op == op && t->w == w && t->attr == attr && t->fn == fn && t->val == val && t->n == n && t->tab == tab
        && !memcmp(t->args, args, n * sizeof(T)) && (!coef || !memcmp(t->coef, coef, n * sizeof(u64)))) return t;
    }
    p = (p + 1) & m;
  }
  Term* t = (Term*)aalloc(sizeof(Term));
  t->id = g_terms.size(); t->op = op; t->w = w; t->attr = attr; t->fn = fn; t->val = val; t->n = n; t->tab = tab;
  t->args = n ? (const Term**)aalloc(n * sizeof(T)) : nullptr;
  if (n) memcpy((void*)t->args, args, n * sizeof(T));
  u64* c = coef && n ? (u64*)aalloc(n * 8) : nullptr; if (c) memcpy(c, coef, n * 8); t->coef = c;
  t->kz = t->ko = 0;
  g_terms.push_back(t);
  computeBits(t); simNode(t);
  htab[p] = t; hkey[p] = h; hcount++;
  if (hcount * 2 > htab.size()) {
    std::vector<T> nt(htab.size() * 2, nullptr); std::vector<u64> nk(htab.size() * 2, 0); size_t nm = nt.size() - 1;
    for (size_t i = 0; i < htab.size(); i++) if (hkey[i]) { size_t q = hkey[i] & nm; while (nk[q]) q = (q + 1) & nm; nk[q] = hkey[i]; nt[q] = htab[i]; }
    htab.swap(nt); hkey.swap(nk);
  }
  return t;
}
static T intern1(Op op, unsigned w, T a, unsigned attr = 0) { return intern(op, w, attr, 0, 0, &a, nullptr, 1, nullptr); }
static T intern2(Op op, unsigned w, T a, T b) { T x[2] = {a, b}; return intern(op, w, 0, 0, 0, x, nullptr, 2, nullptr); }

// ---------------------------------------------------------------- tables
struct TabHash { size_t operator()(const std::vector<u64>& v) const { u64 h = v.size(); for (u64 x : v) h = hmix(h, x); return h; } };
static std::unordered_map<std::vector<u64>, const Table*, TabHash> tabs[65];
static u32 ntab = 0;
const Table* mkTable(const std::vector<u64>& v, unsigned k, unsigned w) {
  auto it = tabs[w].find(v);
  if (it != tabs[w].end() && it->second->k == k) return it->second;
  Table* t = new Table; t->v = v; t->k = k; t->w = w; t->id = ntab++;
  t->affine = true; t->bitperm = true;
  u64 c = v[0]; std::vector<u64> lin(k);
  for (unsigned i = 0; i < k; i++) lin[i] = v[1u << i] ^ c;
  for (u32 x = 0; x < (1u << k) && t->affine; x++) { u64 y = c; for (unsigned i = 0; i < k; i++) if (x >> i & 1) y ^= lin[i]; if (y != v[x]) t->affine = false; }
  u64 seen = 0; for (unsigned i = 0; i < k; i++) { if (seen & lin[i]) t->bitperm = false; seen |= lin[i]; }
  if (!t->affine) t->bitperm = false;
  tabs[w][v] = t; return t;
}

// ---------------------------------------------------------------- evaluation of one node
static inline u64 sx(u64 v, unsigned w) { return w >= 64 ? v : (u64)((i64)(v << (64 - w)) >> (64 - w)); }
u64 evalNode(T t, const u64* a) {
  u64 m = maskw(t->w);
  switch (t->op) {
  case O_CONST: return t->val;
  case O_ADD: { u64 r = t->val; for (u32 i = 0; i < t->n; i++) r += t->coef[i] * a[i]; return r & m; }
  case O_MUL: { u64 r = 1; for (u32 i = 0; i < t->n; i++) r *= a[i]; return r & m; }
  case O_XOR: { u64 r = t->val; for (u32 i = 0; i < t->n; i++) r ^= a[i]; return r & m; }
  case O_AND: { u64 r = m; for (u32 i = 0; i < t->n; i++) r &= a[i]; return r; }
  case O_CONCAT: { u64 r = 0; for (u32 i = 0; i < t->n; i++) { unsigned w = t->args[i]->w; r = (w >= 64 ? 0 : r << w) | a[i]; } return r & m; }
  case O_EXTRACT: return (a[0] >> t->attr) & m;
  case O_ITE: return a[0] ? a[1] : a[2];
  case O_EQ: return a[0] == a[1];
  case O_ULT: return a[0] < a[1];
  case O_SHL: return a[1] >= t->w ? 0 : (a[0] << a[1]) & m;
  case O_LSHR: return a[1] >= t->w ? 0 : a[0] >> a[1];
  case O_ASHR: { u64 s = a[1] >= t->w ? t->w - 1 : a[1]; return (u64)((i64)sx(a[0], t->w) >> s) & m; }
  case O_ROTL: { unsigned s = a[1] % t->w; return s ? ((a[0] << s) | (a[0] >> (t->w - s))) & m : a[0]; }
  case O_UDIV: return a[1] ? a[0] / a[1] : m;
  case O_UREM: return a[1] ? a[0] % a[1] : a[0];
  case O_SDIV: { i64 x = sx(a[0], t->w), y = sx(a[1], t->w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
  case O_SREM: { i64 x = sx(a[0], t->w), y = sx(a[1], t->w); if (!y) return a[0]; if (y == -1) return 0; return (u64)(x % y) & m; }
  case O_LOOKUP: return t->tab->v[a[0]];
  case O_TLOOKUP: return 0; // handled by the callers
  case O_UF: { std::vector<u8> in(t->n); for (u32 i = 0; i < t->n; i++) in[i] = a[i]; return ksp_uf(t->fn, t->attr, in.data(), t->n); }
  case O_PERM: {
    unsigned nk = t->val & 0xffff, dir = t->val >> 16 & 1, bs = t->n - nk; std::vector<u8> k(nk + 1), x(bs);
    for (u32 i = 0; i < nk; i++) k[i] = a[i];
    for (u32 i = 0; i < bs; i++) x[i] = a[nk + i];
    ksp_perm(t->fn, dir, k.data(), nk, x.data(), bs); return x[t->attr]; }
  default: return 0;
  }
}
static u64 rng(u64& s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void simNode(Term* t) {
  if (t->op == O_VAR) {
    u64 s = g_seed * 1000003 + t->val * 7919 + 17;
    for (int l = 0; l < NL; l++) t->sig[l] = rng(s) & maskw(t->w);
    return;
  }
  if (t->op == O_TUPLE) { for (int l = 0; l < NL; l++) t->sig[l] = 0; return; }
  u64 buf[64]; std::vector<u64> big; u64* a = buf;
  if (t->n > 64) { big.resize(t->n); a = big.data(); }
  for (int l = 0; l < NL; l++) {
    if (t->op == O_TLOOKUP) {
      u64 i = t->args[1]->sig[l]; T tu = t->args[0]; t->sig[l] = i < tu->n ? tu->args[i]->sig[l] : 0; continue;
    }
    for (u32 i = 0; i < t->n; i++) a[i] = t->args[i]->sig[l];
    t->sig[l] = evalNode(t, a);
  }
  if (t->n == 0) return;
}
static void simcheck(T r, Op op, T a, T b, const char* what) {
  for (int l = 0; l < NL; l++) {
    Term t; memset(&t, 0, sizeof t); t.op = op; t.w = a->w; u64 v[2] = {a->sig[l], b ? b->sig[l] : 0}; u64 e = 0;
    switch (op) {
    case O_ADD: e = (v[0] + v[1]) & maskw(a->w); break;
    case O_XOR: e = v[0] ^ v[1]; break;
    case O_AND: e = v[0] & v[1]; break;
    case O_MUL: e = (v[0] * v[1]) & maskw(a->w); break;
    case O_EQ: e = v[0] == v[1]; break;
    case O_ULT: e = v[0] < v[1]; break;
    default: return;
    }
    if (e != r->sig[l]) {
      g_simcheck_fail++;
      fprintf(stderr, "ksym: INTERNAL: rewrite of %s disagrees with simulation: %s | %s -> %s\n", what, show(a).c_str(), b ? show(b).c_str() : "", show(r).c_str());
      exit(4);
    }
  }
}

static void computeBits(Term* t) {
  u64 m = maskw(t->w);
  switch (t->op) {
  case O_CONST: t->kz = ~t->val & m; t->ko = t->val; break;
  case O_XOR: {
    u64 known = m, v = t->val;
    for (u32 i = 0; i < t->n; i++) { known &= t->args[i]->kz | t->args[i]->ko; v ^= t->args[i]->ko; }
    t->ko = v & known; t->kz = ~v & known & m; break; }
  case O_AND: { u64 z = 0, o = m; for (u32 i = 0; i < t->n; i++) { z |= t->args[i]->kz; o &= t->args[i]->ko; } t->kz = z; t->ko = o; break; }
  case O_CONCAT: { u64 z = 0, o = 0; for (u32 i = 0; i < t->n; i++) { T a = t->args[i]; if (a->w >= 64) { z = a->kz; o = a->ko; } else { z = z << a->w | a->kz; o = o << a->w | a->ko; } } t->kz = z; t->ko = o; break; }
  case O_EXTRACT: t->kz = (t->args[0]->kz >> t->attr) & m; t->ko = (t->args[0]->ko >> t->attr) & m; break;
  case O_ITE: t->kz = t->args[1]->kz & t->args[2]->kz; t->ko = t->args[1]->ko & t->args[2]->ko; break;
  case O_LOOKUP: { u64 o = m, z = m; for (u64 x : t->tab->v) { o &= x; z &= ~x; } t->ko = o; t->kz = z & m; break; }
  case O_TLOOKUP: { T tu = t->args[0]; u64 o = m, z = m; for (u32 i = 0; i < tu->n; i++) { o &= tu->args[i]->ko; z &= tu->args[i]->kz; } t->ko = o; t->kz = z; break; }
  case O_ADD: {
    u128 mx = t->val; bool ok = true; unsigned tz = 64;
    if (t->val) tz = __builtin_ctzll(t->val);
    for (u32 i = 0; i < t->n; i++) {
      mx += (u128)t->coef[i] * umax(t->args[i]); if (t->coef[i] > (1ull << 62) || mx >> 70) ok = false;
      unsigned z = __builtin_ctzll(t->coef[i]); u64 nz = ~t->args[i]->kz; z += nz ? __builtin_ctzll(nz) : 64; tz = std::min(tz, z);
    }
    if (ok && mx <= m) { unsigned b = 0; while (b < 64 && (mx >> b)) b++; t->kz = m & ~maskw(b); if (b == 0) t->kz = m; }
    if (tz) t->kz |= maskw(std::min(tz, (unsigned)t->w)); break; }
  case O_MUL: {
    u128 mx = 1; bool ok = true; unsigned tz = 0;
    for (u32 i = 0; i < t->n; i++) { u64 um = umax(t->args[i]); if (mx > (u128)m) { ok = false; break; } mx *= um; }
    for (u32 i = 0; i < t->n; i++) { u64 nz = ~t->args[i]->kz; tz += nz ? __builtin_ctzll(nz) : 64; }
    if (ok && mx <= m) { unsigned b = 0; while (b < 64 && (mx >> b)) b++; t->kz = m & ~maskw(b); }
    if (tz) t->kz |= maskw(std::min(tz, (unsigned)t->w)); break; }
  case O_LSHR: { u64 um = umax(t->args[0]); unsigned b = 0; while (b < 64 && (um >> b)) b++; t->kz = m & ~maskw(b); break; }
  case O_UDIV: { u64 um = umax(t->args[0]); if (umin(t->args[1]) == 0) break; unsigned b = 0; um /= umin(t->args[1]); while (b < 64 && (um >> b)) b++; t->kz = m & ~maskw(b); break; }
  case O_UREM: { u64 um = umax(t->args[0]); if (umin(t->args[1])) um = std::min(um, umax(t->args[1]) - 1); unsigned b = 0; while (b < 64 && (um >> b)) b++; t->kz = m & ~maskw(b); break; }
  default: break;
  }
}


// every rewrite is checked against simulation on the eager lanes: a disagreement is an engine error, never a verdict
[[noreturn]] static void simFail(const char* what, T r) { fprintf(stderr, "ksym: INTERNAL: rewrite of %s disagrees with simulation: -> %s\n", what, show(r).c_str()); exit(4); }
static T mkXorN_(const std::vector<T>&, u64, unsigned); static T mkAndN_(const std::vector<T>&, unsigned); static T mkConcat_(const std::vector<T>&); static T mkExtract_(T, unsigned, unsigned);
static T mkLookup_(const Table*, T); static T mkTupleLookup_(T, T); static T mkAddN_(const std::vector<std::pair<u64, T>>&, u64, unsigned); static T mkIte_(T, T, T);
T mkXorN(const std::vector<T>& in, u64 c, unsigned w) { T r = mkXorN_(in, c, w); for (int l = 0; l < NL; l++) { u64 e = c & maskw(w); for (T t : in) e ^= t->sig[l]; if (e != r->sig[l]) simFail("xor", r); } return r; }
T mkAndN(const std::vector<T>& in, unsigned w) { T r = mkAndN_(in, w); for (int l = 0; l < NL; l++) { u64 e = maskw(w); for (T t : in) e &= t->sig[l]; if (e != r->sig[l]) simFail("and", r); } return r; }
T mkConcat(const std::vector<T>& in) { T r = mkConcat_(in); for (int l = 0; l < NL; l++) { u64 e = 0; for (T t : in) e = (t->w >= 64 ? 0 : e << t->w) | t->sig[l]; if (e != r->sig[l]) simFail("concat", r); } return r; }
T mkExtract(T t, unsigned hi, unsigned lo) { T r = mkExtract_(t, hi, lo); for (int l = 0; l < NL; l++) if (((t->sig[l] >> lo) & maskw(hi - lo + 1)) != r->sig[l]) simFail("extract", r); return r; }
T mkLookup(const Table* t, T idx) { T r = mkLookup_(t, idx); for (int l = 0; l < NL; l++) if (t->v[idx->sig[l]] != r->sig[l]) { fprintf(stderr, "index %s k %d w %d\n", show(idx, 6).c_str(), t->k, t->w); simFail("lookup", r); } return r; }
T mkTupleLookup(T tu, T idx) { T r = mkTupleLookup_(tu, idx); for (int l = 0; l < NL; l++) { u64 i = idx->sig[l]; if ((i < tu->n ? tu->args[i]->sig[l] : 0) != r->sig[l]) simFail("indexed load", r); } return r; }
T mkAddN(const std::vector<std::pair<u64, T>>& in, u64 c, unsigned w) { T r = mkAddN_(in, c, w); for (int l = 0; l < NL; l++) { u64 e = c; for (auto& t : in) e += t.first * t.second->sig[l]; if ((e & maskw(w)) != r->sig[l]) simFail("sum", r); } return r; }
T mkIte(T c, T a, T b) { T r = mkIte_(c, a, b); for (int l = 0; l < NL; l++) if ((c->sig[l] ? a : b)->sig[l] != r->sig[l]) simFail("ite", r); return r; }
// ---------------------------------------------------------------- leaves
T mkConst(u64 v, unsigned w) { return intern(O_CONST, w, 0, 0, v & maskw(w), nullptr, nullptr, 0, nullptr); }
T mkBool(bool b) { return mkConst(b, 1); }
T mkVar(const std::string& name, unsigned w, u32 flags, int) {
  VarInfo vi; vi.name = name; vi.w = w; vi.flags = flags;
  T t = intern(O_VAR, w, 0, flags, g_vars.size(), nullptr, nullptr, 0, nullptr);
  vi.term = t; g_vars.push_back(vi); return t;
}
T mkUF(u32 fn, unsigned idx, const std::vector<T>& args) { return intern(O_UF, 8, idx, fn, 0, args.data(), nullptr, args.size(), nullptr); }
T mkPerm(u32 fn, unsigned dir, unsigned idx, unsigned nkey, unsigned bs, const std::vector<T>& args) {
  // inverse rule: P(dir, k, P(!dir, k, x)) = x
  T f = args[nkey];
  if (f->op == O_PERM && f->fn == fn && (f->val >> 16 & 1) != dir && (f->val & 0xffff) == nkey && f->n == nkey + bs) {
    bool ok = true;
    for (unsigned i = 0; i < nkey && ok; i++) ok = f->args[i] == args[i];
    for (unsigned i = 0; i < bs && ok; i++) {
      T g = args[nkey + i];
      ok = g->op == O_PERM && g->fn == fn && g->val == f->val && g->attr == i && g->n == f->n && !memcmp(g->args, f->args, f->n * sizeof(T));
    }
    if (ok) return f->args[nkey + idx];
  }
  return intern(O_PERM, 8, idx, fn, nkey | (u64)dir << 16, args.data(), nullptr, args.size(), nullptr);
}

// ---------------------------------------------------------------- concat / extract
static T tryMerge(T p, T q);

static T mkConcat_(const std::vector<T>& in) {
  std::vector<T> out; out.reserve(in.size());
  unsigned w = 0;
  auto push = [&](T t) {
    while (true) {
      if (out.empty()) { out.push_back(t); return; }
      T m = tryMerge(out.back(), t);
      if (!m) { out.push_back(t); return; }
      out.pop_back();
      if (m->op == O_CONCAT) { // re-open: push all but let further merging happen with the last part
        for (u32 i = 0; i + 1 < m->n; i++) out.push_back(m->args[i]);
        t = m->args[m->n - 1];
        out.push_back(t); return;
      }
      t = m;
    }
  };
  for (T t : in) { w += t->w; if (t->op == O_CONCAT) for (u32 i = 0; i < t->n; i++) push(t->args[i]); else push(t); }
  if (w > 64) { fprintf(stderr, "ksym: concat wider than 64 bits\n"); exit(3); }
  if (out.size() == 1) return out[0];
  return intern(O_CONCAT, w, 0, 0, 0, out.data(), nullptr, out.size(), nullptr);
}

static bool cheapLow(T t, unsigned w, int depth = 3) { // can the low w bits be had without descending far?
  switch (t->op) {
  case O_CONST: case O_LOOKUP: return true;
  case O_VAR: return true;
  case O_EXTRACT: return true;
  case O_CONCAT: { unsigned b = 0; for (u32 i = t->n; i-- > 0;) { b += t->args[i]->w; if (b == w) return true; if (b > w) return depth > 0 && cheapLow(t->args[i], w - (b - t->args[i]->w), depth - 1) && t->args[i]->op != O_XOR; } return false; }
  case O_ITE: return depth > 0 && cheapLow(t->args[1], w, depth - 1) && cheapLow(t->args[2], w, depth - 1);
  case O_XOR: case O_AND: case O_ADD: if (depth <= 0 || t->n > 64) return false; for (u32 i = 0; i < t->n; i++) if (!cheapLow(t->args[i], w, depth - 1)) return false; return true;
  default: return false;
  }
}

static T mkExtract_(T t, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == t->w) return t;
  switch (t->op) {
  case O_CONST: return mkConst(t->val >> lo, w);
  case O_EXTRACT: return mkExtract(t->args[0], hi + t->attr, lo + t->attr);
  case O_CONCAT: {
    std::vector<T> parts; unsigned b = t->w; // top
    for (u32 i = 0; i < t->n; i++) {
      T a = t->args[i]; unsigned ph = b - 1, pl = b - a->w; b = pl;
      if (pl > hi || ph < lo) continue;
      unsigned h = std::min(hi, ph) - pl, l = (lo > pl ? lo - pl : 0);
      parts.push_back(mkExtract(a, h, l));
    }
    return mkConcat(parts); }
  case O_LOOKUP: {
    std::vector<u64> v(t->tab->v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = (t->tab->v[i] >> lo) & maskw(w);
    return mkLookup(mkTable(v, t->tab->k, w), t->args[0]); }
  case O_XOR: case O_AND: case O_ITE: {
    bool al = (lo % g_gran == 0) && ((hi + 1) % g_gran == 0 || hi + 1 == t->w);
    if (!al && lo == 0) al = cheapLow(t, hi + 1);
    if (!al && hi + 1 == t->w && t->n <= 4) { al = true; for (u32 i = (t->op == O_ITE); i < t->n; i++) { T a = t->args[i]; if (!(a->op == O_CONST || a->op == O_VAR || a->op == O_EXTRACT || a->op == O_LOOKUP)) al = false; } }
    if (!al) break;
    if (t->op == O_ITE) return mkIte(t->args[0], mkExtract(t->args[1], hi, lo), mkExtract(t->args[2], hi, lo));
    std::vector<T> xs(t->n); for (u32 i = 0; i < t->n; i++) xs[i] = mkExtract(t->args[i], hi, lo);
    return t->op == O_XOR ? mkXorN(xs, (t->val >> lo) & maskw(w), w) : mkAndN(xs, w); }
  case O_ADD:
    if (cheapLow(t, hi + 1) && hi + 1 < t->w) {
      std::vector<std::pair<u64, T>> xs; for (u32 i = 0; i < t->n; i++) xs.push_back({t->coef[i], mkExtract(t->args[i], hi, 0)});
      T s = mkAddN(xs, t->val, hi + 1);
      return lo ? mkExtract(s, hi, lo) : s;
    }
    if (lo) { // known-zero high part
      u64 um = umax(t); if (um < 64 && 0) break;
    }
    break;
  case O_MUL:
    if (lo == 0 && t->n == 2 && cheapLow(t->args[0], w) && cheapLow(t->args[1], w)) return mkMul(mkExtract(t->args[0], hi, 0), mkExtract(t->args[1], hi, 0));
    break;
  default: break;
  }
  u64 m = maskw(w), z = (t->kz >> lo) & m, o = (t->ko >> lo) & m;
  if ((z | o) == m) return mkConst(o, w);
  if (z | o) { // known bits at the ends become constants
    unsigned top = 0; while (top < w && ((z | o) >> (w - 1 - top) & 1)) top++;
    if (top) return mkConcat({mkConst(o >> (w - top), top), mkExtract(t, hi - top, lo)});
    unsigned bot = 0; while (bot < w && ((z | o) >> bot & 1)) bot++;
    if (bot) return mkConcat({mkExtract(t, hi, lo + bot), mkConst(o, bot)});
  }
  return intern1(O_EXTRACT, w, t, lo);
}

static T mergeNary(T p, T q) { // XOR/XOR or AND/AND (a missing operator counts as a one-argument one)
  Op op = (p->op == O_XOR || q->op == O_XOR) ? O_XOR : O_AND;
  if (p->op == O_XOR && q->op == O_AND) op = O_XOR;
  const T* pa; const T* qa; u32 pn, qn; u64 pv = 0, qv = 0; T ps = p, qs = q;
  if (p->op == op) { pa = p->args; pn = p->n; if (op == O_XOR) pv = p->val; } else { pa = &ps; pn = 1; }
  if (q->op == op) { qa = q->args; qn = q->n; if (op == O_XOR) qv = q->val; } else { qa = &qs; qn = 1; }
  if (pn != qn || pn > 40) return nullptr;
  std::vector<T> ms; std::vector<bool> used(qn, false);
  for (u32 i = 0; i < pn; i++) {
    T m = nullptr;
    for (u32 j = 0; j < qn && !m; j++) if (!used[j]) {
      if (pa[i]->op == O_XOR || pa[i]->op == O_CONCAT || qa[j]->op == O_CONCAT) continue;
      if (pa[i]->op == O_CONST || qa[j]->op == O_CONST) continue;
      m = tryMerge(pa[i], qa[j]); if (m && m->op == O_CONCAT) m = nullptr; if (m) used[j] = true;
    }
    if (!m) return nullptr;
    ms.push_back(m);
  }
  unsigned w = p->w + q->w;
  if (op == O_XOR) return mkXorN(ms, pv << q->w | qv, w);
  return mkAndN(ms, w);
}

static T tryMerge(T p, T q) {
  if (p->w + q->w > 64) return nullptr;
  if (p->op == O_CONST) { if (q->op == O_CONST) return mkConst(p->val << q->w | q->val, p->w + q->w); return nullptr; }
  if (q->op == O_CONST) return nullptr;
  if (p->op == O_EXTRACT) {
    T b = p->args[0]; unsigned l = p->attr;
    if (q->op == O_EXTRACT && q->args[0] == b) { if (q->attr + q->w == l) return mkExtract(b, l + p->w - 1, q->attr); return nullptr; }
    if (l >= q->w && q->op != O_EXTRACT) { // narrowed low part of the same base?
      if (b->op == O_ADD || b->op == O_MUL || b->op == O_XOR || b->op == O_AND || b->op == O_ITE) {
        bool ok = true; for (int s = 0; s < NL; s++) if (((b->sig[s] >> (l - q->w)) & maskw(q->w)) != q->sig[s]) { ok = false; break; }
        if (ok && mkExtract(b, l - 1, l - q->w) == q) { T r = mkExtract(b, l + p->w - 1, l - q->w); if (r->op != O_CONCAT) return r; }
      }
    }
    if (q->op == O_EXTRACT && (b->op == O_ADD) && q->args[0]->op == O_ADD && q->args[0]->w == l && q->attr + q->w == l) {
      if (mkExtract(b, l - 1, 0) == q->args[0]) { T r = mkExtract(b, l + p->w - 1, q->attr); if (r->op != O_CONCAT) return r; }
    }
    if (q->op != O_XOR && q->op != O_AND) return nullptr;
  }
  if (q->op == O_EXTRACT && p->op != O_XOR && p->op != O_AND && p->op != O_EXTRACT) {
    T b = q->args[0];
    if ((b->op == O_ADD || b->op == O_MUL || b->op == O_XOR || b->op == O_AND || b->op == O_ITE) && q->attr + q->w + p->w <= b->w) {
      unsigned l = q->attr + q->w; bool ok = true;
      for (int s = 0; s < NL; s++) if (((b->sig[s] >> l) & maskw(p->w)) != p->sig[s]) { ok = false; break; }
      if (ok && mkExtract(b, l + p->w - 1, l) == p) { T r = mkExtract(b, l + p->w - 1, q->attr); if (r->op != O_CONCAT) return r; }
    }
    return nullptr;
  }
  if (p->op == O_LOOKUP && q->op == O_LOOKUP) {
    if (p->args[0] != q->args[0]) return nullptr;
    std::vector<u64> v(p->tab->v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p->tab->v[i] << q->w | q->tab->v[i];
    T r = mkLookup(mkTable(v, p->tab->k, p->w + q->w), p->args[0]); return r;
  }
  if (p->op == O_ITE && q->op == O_ITE) {
    if (p->args[0] != q->args[0]) return nullptr;
    return mkIte(p->args[0], mkConcat({p->args[1], q->args[1]}), mkConcat({p->args[2], q->args[2]}));
  }
  if (p->op == O_XOR || q->op == O_XOR || p->op == O_AND || q->op == O_AND) {
    if ((p->op == O_XOR && q->op == O_XOR) || (p->op == O_AND && q->op == O_AND) || (p->op == O_XOR && q->op != O_AND) || (q->op == O_XOR && p->op != O_AND)) return mergeNary(p, q);
    if ((p->op == O_XOR && q->op == O_AND) || (q->op == O_XOR && p->op == O_AND)) return mergeNary(p, q);
  }
  if (p->op == O_TLOOKUP && q->op == O_TLOOKUP && 0) return nullptr;
  if (q->op == O_ADD && p->op == O_ADD && 0) return nullptr;
  return nullptr;
}

T mkZext(T t, unsigned w) { if (w == t->w) return t; return mkConcat({mkConst(0, w - t->w), t}); }
T mkTrunc(T t, unsigned w) { return mkExtract(t, w - 1, 0); }
T mkSext(T t, unsigned w) {
  if (w == t->w) return t;
  T s = mkExtract(t, t->w - 1, t->w - 1);
  if (isConst(s)) return mkConcat({mkConst(s->val ? ~0ull : 0, w - t->w), t});
  if (t->w == 1) { std::vector<T> p(w, t); return mkConcat(p); }
  std::vector<T> p(w - t->w, s); p.push_back(t); return mkConcat(p);
}

// ---------------------------------------------------------------- xor / and
static void boundaries(T t, std::vector<unsigned>& b) {
  if (t->op != O_CONCAT) return;
  unsigned pos = t->w;
  for (u32 i = 0; i + 1 < t->n; i++) {
    pos -= t->args[i]->w;
    if (pos % g_gran == 0 || t->args[i]->op == O_CONST || t->args[i + 1]->op == O_CONST) b.push_back(pos);
  }
}
static bool idless(T a, T b) { return a->id < b->id; }

static T mkXorN_(const std::vector<T>& in, u64 c, unsigned w) {
  std::vector<T> xs; xs.reserve(in.size() + 8);
  for (T t : in) {
    if (t->op == O_CONST) c ^= t->val;
    else if (t->op == O_XOR && (t->n <= (u32)g_xorflat)) { c ^= t->val; for (u32 i = 0; i < t->n; i++) xs.push_back(t->args[i]); }
    else xs.push_back(t);
  }
  c &= maskw(w);
  std::vector<unsigned> b; for (T t : xs) boundaries(t, b);
  if (!b.empty()) {
    std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
    // a single concat operand and a constant: also split there
    std::vector<T> parts; unsigned hi = w;
    std::vector<T> seg(xs.size());
    for (size_t k = b.size() + 1; k-- > 0;) {
      unsigned lo = k ? b[k - 1] : 0;
      for (size_t i = 0; i < xs.size(); i++) seg[i] = mkExtract(xs[i], hi - 1, lo);
      parts.push_back(mkXorN(seg, (c >> lo) & maskw(hi - lo), hi - lo)); hi = lo;
    }
    return mkConcat(parts);
  }
  std::sort(xs.begin(), xs.end(), idless);
  size_t o = 0;
  for (size_t i = 0; i < xs.size();) { size_t j = i; while (j < xs.size() && xs[j] == xs[i]) j++; if ((j - i) & 1) xs[o++] = xs[i]; i = j; }
  xs.resize(o);
  // combine table lookups with the same index
  bool again = false; T add = nullptr;
  for (size_t i = 0; i + 1 < xs.size() && !again; i++) if (xs[i]->op == O_LOOKUP)
    for (size_t j = i + 1; j < xs.size(); j++) if (xs[j]->op == O_LOOKUP && xs[j]->args[0] == xs[i]->args[0]) {
      std::vector<u64> v(xs[i]->tab->v.size()); for (size_t k = 0; k < v.size(); k++) v[k] = xs[i]->tab->v[k] ^ xs[j]->tab->v[k];
      add = mkLookup(mkTable(v, xs[i]->tab->k, w), xs[i]->args[0]);
      xs.erase(xs.begin() + j); xs.erase(xs.begin() + i); again = true; break;
    }
  // a lookup and its own index
  if (!again) for (size_t i = 0; i < xs.size() && !again; i++) if (xs[i]->op == O_LOOKUP && xs[i]->args[0]->w == w && xs[i]->args[0]->op != O_XOR)
    for (size_t j = 0; j < xs.size(); j++) if (xs[j] == xs[i]->args[0]) {
      std::vector<u64> v(xs[i]->tab->v.size()); for (size_t k = 0; k < v.size(); k++) v[k] = xs[i]->tab->v[k] ^ k;
      add = mkLookup(mkTable(v, xs[i]->tab->k, w), xs[i]->args[0]);
      size_t a = std::max(i, j), bb = std::min(i, j); xs.erase(xs.begin() + a); xs.erase(xs.begin() + bb); again = true; break;
    }
  if (again) { xs.push_back(add); return mkXorN(xs, c, w); }
  if (xs.empty()) return mkConst(c, w);
  if (xs.size() == 1) {
    if (c == 0) return xs[0];
    T x = xs[0];
    if (x->op == O_LOOKUP) { std::vector<u64> v = x->tab->v; for (u64& y : v) y ^= c; return mkLookup(mkTable(v, x->tab->k, w), x->args[0]); }
    if (x->op == O_CONCAT) { std::vector<T> p; unsigned pos = w; for (u32 i = 0; i < x->n; i++) { pos -= x->args[i]->w; p.push_back(mkXorN({x->args[i]}, (c >> pos) & maskw(x->args[i]->w), x->args[i]->w)); } return mkConcat(p); }
    if (x->op == O_ITE && isConst(x->args[1]) && isConst(x->args[2])) return mkIte(x->args[0], mkConst(x->args[1]->val ^ c, w), mkConst(x->args[2]->val ^ c, w));
    if (c == maskw(w) && x->op == O_ADD) { // ~x = -x - 1 over a sum
      std::vector<std::pair<u64, T>> ys; for (u32 i = 0; i < x->n; i++) ys.push_back({0 - x->coef[i], x->args[i]});
      return mkAddN(ys, 0 - x->val - 1, w);
    }
  } else if (c) { // fold the constant into a lookup, so that sbox^const has one form
    for (size_t i = 0; i < xs.size(); i++) if (xs[i]->op == O_LOOKUP) {
      std::vector<u64> v = xs[i]->tab->v; u64 z = v[0];
      (void)z; break; }
  }
  // a sum and its complement, and a sum with another top bit, have one form: the constant is carried by the XOR
  if (w > 1) {
    u64 top = 1ull << (w - 1), full = maskw(w); bool ch = false;
    for (T& x : xs) if (x->op == O_ADD) {
      u64 lead = x->coef[0] & full; bool neg = lead > top, tb = xs.size() > 1 ? ((neg ? 0 - x->val - 1 : x->val) & top) != 0 : (c & top) != 0;
      if (!neg && !tb) continue;
      std::vector<std::pair<u64, T>> ys; for (u32 i = 0; i < x->n; i++) ys.push_back({neg ? 0 - x->coef[i] : x->coef[i], x->args[i]});
      u64 k = neg ? 0 - x->val - 1 : x->val; if (neg) c ^= full;
      if (xs.size() > 1) { if (k & top) { k ^= top; c ^= top; } } else if (c & top) { k ^= top; c ^= top; }
      x = mkAddN(ys, k, w); ch = true;
    }
    if (ch) return mkXorN(xs, c, w);
  }
  // normalise lookups inside a sum: entry 0 is zero, the constant is carried by the XOR
  if (xs.size() > 1) {
    bool ch = false;
    for (T& x : xs) if (x->op == O_LOOKUP && x->tab->v[0]) {
      u64 z = x->tab->v[0]; std::vector<u64> v = x->tab->v; for (u64& y : v) y ^= z; c ^= z;
      x = mkLookup(mkTable(v, x->tab->k, w), x->args[0]); ch = true;
    }
    if (ch) return mkXorN(xs, c, w);
  }
  return intern(O_XOR, w, 0, 0, c, xs.data(), nullptr, xs.size(), nullptr);
}
T mkXor(T a, T b) { T r = mkXorN({a, b}, 0, a->w); simcheck(r, O_XOR, a, b, "xor"); return r; }
T mkNot(T a) { return mkXorN({a}, maskw(a->w), a->w); }

static T mkAndN_(const std::vector<T>& in, unsigned w) {
  u64 c = maskw(w); std::vector<T> xs;
  for (T t : in) {
    if (t->op == O_CONST) c &= t->val;
    else if (t->op == O_AND) for (u32 i = 0; i < t->n; i++) xs.push_back(t->args[i]);
    else xs.push_back(t);
  }
  if (c == 0) return mkConst(0, w);
  if (xs.empty()) return mkConst(c, w);
  if (c != maskw(w)) { // mask: becomes a concatenation of slices and zeros
    std::vector<T> parts; int hi = w - 1;
    while (hi >= 0) {
      int lo = hi; bool bit = c >> hi & 1; while (lo > 0 && (bool)(c >> (lo - 1) & 1) == bit) lo--;
      if (!bit) parts.push_back(mkConst(0, hi - lo + 1));
      else { std::vector<T> seg; for (T x : xs) seg.push_back(mkExtract(x, hi, lo)); parts.push_back(mkAndN(seg, hi - lo + 1)); }
      hi = lo - 1;
    }
    return mkConcat(parts);
  }
  std::sort(xs.begin(), xs.end(), idless); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
  if (xs.size() == 1) return xs[0];
  std::vector<unsigned> b; for (T t : xs) boundaries(t, b);
  if (!b.empty()) {
    std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
    std::vector<T> parts; unsigned hi = w; std::vector<T> seg(xs.size());
    for (size_t k = b.size() + 1; k-- > 0;) {
      unsigned lo = k ? b[k - 1] : 0;
      for (size_t i = 0; i < xs.size(); i++) seg[i] = mkExtract(xs[i], hi - 1, lo);
      parts.push_back(mkAndN(seg, hi - lo)); hi = lo;
    }
    return mkConcat(parts);
  }
  // replicated bit & x  -> ite
  if (w > 1) for (size_t i = 0; i < xs.size(); i++) if (xs[i]->op == O_CONCAT && xs[i]->args[0]->w == 1 && xs[i]->n == w) {
    bool rep = true; for (u32 k = 1; k < xs[i]->n; k++) if (xs[i]->args[k] != xs[i]->args[0]) rep = false;
    if (rep) { T bit = xs[i]->args[0]; xs.erase(xs.begin() + i); return mkIte(bit, mkAndN(xs, w), mkConst(0, w)); }
  }
  // x & ~x
  for (T x : xs) if (x->op == O_XOR && x->val == maskw(w)) { T nx = mkNot(x); for (T y : xs) if (y == nx) return mkConst(0, w); }
  return intern(O_AND, w, 0, 0, 0, xs.data(), nullptr, xs.size(), nullptr);
}
T mkAnd(T a, T b) { T r = mkAndN({a, b}, a->w); simcheck(r, O_AND, a, b, "and"); return r; }
T mkOr(T a, T b) {
  u64 m = maskw(a->w);
  if (((a->kz | b->kz) & m) == m) return mkXor(a, b);
  if (a == b) return a;
  // rotation written with two variable shifts
  for (int s = 0; s < 2; s++) {
    T x = s ? b : a, y = s ? a : b;
    if (x->op == O_SHL && y->op == O_LSHR && x->args[0] == y->args[0]) {
      unsigned w = a->w; if (w & (w - 1)) break;
      unsigned lg = __builtin_ctz(w); T r1 = mkExtract(x->args[1], lg - 1, 0), r2 = mkExtract(y->args[1], lg - 1, 0);
      // x << r | x >> (w - r): valid when r < w and w - r < w or r = 0 gives shift by w (then both give x or undefined)
      T sum = mkAdd(x->args[1], y->args[1]);
      bool okr = umax(x->args[1]) < w && umax(y->args[1]) < w && mkAdd(r1, r2) == mkConst(0, lg);
      bool okw = isConst(sum) && sum->val == w && umax(x->args[1]) < w && 0;
      if (okr || okw) return mkRotl(x->args[0], r1);
    }
  }
  return mkNot(mkAnd(mkNot(a), mkNot(b)));
}

// ---------------------------------------------------------------- add / mul
static bool isPow2(u64 x) { return x && !(x & (x - 1)); }
static T mkAddN_(const std::vector<std::pair<u64, T>>& in, u64 c, unsigned w) {
  u64 m = maskw(w);
  std::vector<std::pair<u64, T>> xs;
  std::function<void(u64, T)> put = [&](u64 k, T t) {
    k &= m; if (!k) return;
    if (t->op == O_CONST) { c += k * t->val; return; }
    if (t->op == O_ADD) { c += k * t->val; for (u32 i = 0; i < t->n; i++) put(k * t->coef[i], t->args[i]); return; }
    if (t->op == O_XOR && t->val == m && m > 1) { c -= k; put(0 - k, mkNot(t)); return; }
    if (t->op == O_XOR && w > 1 && (t->val >> (w - 1) & 1)) { u64 top = 1ull << (w - 1); c += k * top; put(k, mkXorN({t}, top, w)); return; }
    if (t->op == O_CONCAT && isConst(t->args[t->n - 1]) && t->args[t->n - 1]->val == 0 && t->n == 2) {
      unsigned z = t->args[1]->w; T p = t->args[0];
      if (p->op == O_EXTRACT && p->attr == 0 && p->args[0]->w == w) { put(k << z, p->args[0]); return; }
    }
    if (t->op == O_CONCAT) { // constant parts leave the atom
      u64 cv = 0; bool any = false; unsigned pos = w; std::vector<T> p;
      for (u32 i = 0; i < t->n; i++) { T a = t->args[i]; pos -= a->w; if (isConst(a)) { cv |= a->val << pos; if (a->val) any = true; p.push_back(mkConst(0, a->w)); } else p.push_back(a); }
      if (any) { c += k * cv; put(k, mkConcat(p)); return; }
    }
    xs.push_back({k, t});
  };
  for (auto& x : in) put(x.first, x.second);
  std::sort(xs.begin(), xs.end(), [](const std::pair<u64, T>& a, const std::pair<u64, T>& b) { return a.second->id < b.second->id; });
  size_t o = 0;
  for (size_t i = 0; i < xs.size();) {
    u64 k = 0; size_t j = i; while (j < xs.size() && xs[j].second == xs[i].second) k += xs[j++].first;
    k &= m; if (k) xs[o++] = {k, xs[i].second}; i = j;
  }
  xs.resize(o); c &= m;
  if (xs.empty()) return mkConst(c, w);
  if (xs.size() == 1 && c == 0) {
    if (xs[0].first == 1) return xs[0].second;
    if (isPow2(xs[0].first)) return mkShlC(xs[0].second, __builtin_ctzll(xs[0].first));
  }
  if (xs.size() == 1 && w > 1) { // -(zero-extended bit): replicate
    T t = xs[0].second; u64 k = xs[0].first;
    if (umax(t) == 1 && t->op == O_CONCAT) { T bit = t->args[t->n - 1]; if (bit->w == 1) return mkIte(bit, mkConst(c + k, w), mkConst(c, w)); }
  }
  // pairwise disjoint bits: a concatenation
  bool dis = true; u64 used = c;
  for (auto& x : xs) { if (!isPow2(x.first)) { dis = false; break; } u64 um = umax(x.second); u64 sh = (um * x.first) & m; if (used & sh) { dis = false; break; } used |= sh; }
  if (dis) { std::vector<T> ys; for (auto& x : xs) ys.push_back(mkShlC(x.second, __builtin_ctzll(x.first))); return mkXorN(ys, c, w); }
  // sum with common low known-zero constant part etc. are left as they are
  std::vector<T> ts(xs.size()); std::vector<u64> ks(xs.size());
  for (size_t i = 0; i < xs.size(); i++) { ts[i] = xs[i].second; ks[i] = xs[i].first; }
  // zero-extended operands that cannot overflow: narrow the sum
  if (w >= 16) {
    u128 mx = c; bool ok = true;
    for (auto& x : xs) { mx += (u128)x.first * umax(x.second); if (x.first >> 32) ok = false; }
    if (ok && c >> 32 == 0) {
      unsigned b = 0; while (b < 128 && (mx >> b)) b++;
      unsigned nw = b <= 8 ? 8 : b <= 16 ? 16 : b <= 32 ? 32 : 64;
      if (nw < w) {
        bool cheap = true; for (auto& x : xs) if (!cheapLow(x.second, nw)) cheap = false;
        if (cheap) { std::vector<std::pair<u64, T>> ys; for (auto& x : xs) ys.push_back({x.first, mkExtract(x.second, nw - 1, 0)}); return mkZext(mkAddN(ys, c, nw), w); }
      }
    }
  }
  return intern(O_ADD, w, 0, 0, c, ts.data(), ks.data(), ts.size(), nullptr);
}
T mkAdd(T a, T b) { T r = mkAddN({{1, a}, {1, b}}, 0, a->w); simcheck(r, O_ADD, a, b, "add"); return r; }
T mkSub(T a, T b) { return mkAddN({{1, a}, {~0ull, b}}, 0, a->w); }
T mkNeg(T a) { return mkAddN({{~0ull, a}}, 0, a->w); }
T mkMul(T a, T b) {
  unsigned w = a->w;
  if (isConst(b)) std::swap(a, b);
  if (isConst(a)) { T r = mkAddN({{a->val, b}}, 0, w); simcheck(r, O_MUL, a, b, "mul"); return r; }
  if (w == 1) return mkAnd(a, b);
  // narrow if both zero-extended and the product fits
  std::vector<T> xs;
  auto put = [&](T t) { if (t->op == O_MUL) for (u32 i = 0; i < t->n; i++) xs.push_back(t->args[i]); else xs.push_back(t); };
  u64 k = 1;
  auto strip = [&](T t) -> T { if (t->op == O_ADD && t->n == 1 && t->val == 0) { k *= t->coef[0]; return t->args[0]; } return t; };
  put(strip(a)); put(strip(b));
  std::sort(xs.begin(), xs.end(), idless);
  T r = intern(O_MUL, w, 0, 0, 0, xs.data(), nullptr, xs.size(), nullptr);
  if (k != 1) r = mkAddN({{k, r}}, 0, w);
  simcheck(r, O_MUL, a, b, "mul"); return r;
}

// ---------------------------------------------------------------- ite, comparisons
static T mkIte_(T c, T a, T b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  unsigned w = a->w;
  if (c->op == O_XOR && c->val == 1) return mkIte(mkNot(c), b, a);
  if (w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isFalse(b)) return mkAnd(c, a);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(a)) return mkOr(c, b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (a == mkNot(b)) return mkXorN({c, b}, 0, 1);
  }
  if (isConst(a) && isConst(b)) { // bits equal to c, ~c or constant
    std::vector<T> p;
    T nc = nullptr;
    for (int i = w - 1; i >= 0; i--) { bool x = a->val >> i & 1, y = b->val >> i & 1; if (x == y) p.push_back(mkConst(x, 1)); else if (x) p.push_back(c); else { if (!nc) nc = mkNot(c); p.push_back(nc); } }
    return mkConcat(p);
  }
  if (a->op == O_ITE && a->args[0] == c) a = a->args[1];
  if (b->op == O_ITE && b->args[0] == c) b = b->args[2];
  if (a == b) return a;
  // ite(idx == k, tuple[k], tuple[idx]) = tuple[idx]
  if (c->op == O_EQ && isConst(c->args[1]) && b->op == O_TLOOKUP && b->args[1] == c->args[0]) {
    u64 k = c->args[1]->val; if (k < b->args[0]->n && b->args[0]->args[k] == a) return b;
  }
  T x[3] = {c, a, b}; return intern(O_ITE, w, 0, 0, 0, x, nullptr, 3, nullptr);
}

T mkEq(T a, T b) {
  if (a == b) return mkBool(true);
  if (isConst(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isConst(a)) return mkBool(a->val == b->val);
  if ((a->kz & b->ko) | (a->ko & b->kz)) return mkBool(false);
  if (w == 1) { T r = mkXorN({a, b}, 1, 1); return r; }
  if (isConst(b)) {
    u64 c = b->val;
    if (a->op == O_XOR && a->val) return mkEq(mkXorN({a}, a->val, w), mkConst(c ^ a->val, w));
    if (a->op == O_ADD && a->val) return mkEq(mkAddN({{1, a}}, 0 - a->val, w), mkConst(c - a->val, w));
    if (a->op == O_ADD && a->n == 1 && (a->coef[0] & 1)) { u64 inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - a->coef[0] * inv; return mkEq(a->args[0], mkConst(c * inv, w)); }
    if (a->op == O_CONCAT) {
      std::vector<T> p; unsigned pos = w;
      for (u32 i = 0; i < a->n; i++) { pos -= a->args[i]->w; p.push_back(mkEq(a->args[i], mkConst(c >> pos, a->args[i]->w))); if (isFalse(p.back())) return p.back(); }
      return mkAndN(p, 1);
    }
    if (a->op == O_LOOKUP) { std::vector<u64> v(a->tab->v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = a->tab->v[i] == c; return mkLookup(mkTable(v, a->tab->k, 1), a->args[0]); }
    if (a->op == O_ITE) {
      if (isConst(a->args[1]) || isConst(a->args[2])) return mkIte(a->args[0], mkEq(a->args[1], b), mkEq(a->args[2], b));
    }
  } else {
    T d = mkXorN({a, b}, 0, w);
    if (isConst(d)) return mkBool(d->val == 0);
    if (a->op == O_ADD || b->op == O_ADD) { T s = mkSub(a, b); if (isConst(s)) return mkBool(s->val == 0); }
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->n == b->n) {
      bool al = true; for (u32 i = 0; i < a->n; i++) if (a->args[i]->w != b->args[i]->w) al = false;
      if (al) { std::vector<T> p; for (u32 i = 0; i < a->n; i++) p.push_back(mkEq(a->args[i], b->args[i])); return mkAndN(p, 1); }
    }
    if (a->id > b->id) std::swap(a, b);
  }
  T r = intern2(O_EQ, 1, a, b); simcheck(r, O_EQ, a, b, "eq"); return r;
}
T mkUlt(T a, T b) {
  if (a == b) return mkBool(false);
  if (isConst(a) && isConst(b)) return mkBool(a->val < b->val);
  if (maxVal(a) < umin(b)) return mkBool(true);
  if (umin(a) >= maxVal(b)) return mkBool(false);
  unsigned w = a->w;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isConst(b) && b->val == 1) return mkEq(a, mkConst(0, w));
  if (isConst(a) && a->val == 0) return mkNot(mkEq(b, mkConst(0, w)));
  // strip common zero extension
  u64 z = a->kz & b->kz; unsigned lead = 0; while (lead < w && (z >> (w - 1 - lead) & 1)) lead++;
  if (lead && lead < w) return mkUlt(mkExtract(a, w - 1 - lead, 0), mkExtract(b, w - 1 - lead, 0));
  if (isConst(b) && a->op == O_LOOKUP) { std::vector<u64> v(a->tab->v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = a->tab->v[i] < b->val; return mkLookup(mkTable(v, a->tab->k, 1), a->args[0]); }
  if (isConst(b) && isPow2(b->val)) { unsigned k = __builtin_ctzll(b->val); return mkEq(mkExtract(a, w - 1, k), mkConst(0, w - k)); }
  T r = intern2(O_ULT, 1, a, b); simcheck(r, O_ULT, a, b, "ult"); return r;
}
T mkSlt(T a, T b) { u64 s = 1ull << (a->w - 1); return mkUlt(mkXorN({a}, s, a->w), mkXorN({b}, s, b->w)); }

// ---------------------------------------------------------------- shifts
T mkShlC(T a, unsigned k) { if (k == 0) return a; if (k >= a->w) return mkConst(0, a->w); return mkConcat({mkExtract(a, a->w - 1 - k, 0), mkConst(0, k)}); }
T mkLshrC(T a, unsigned k) { if (k == 0) return a; if (k >= a->w) return mkConst(0, a->w); return mkConcat({mkConst(0, k), mkExtract(a, a->w - 1, k)}); }
// few possible amounts: a chain of ite over constant shifts keeps things precise
static bool smallAmt(T b, std::vector<u64>& vals) {
  u64 unk = ~(b->kz | b->ko) & maskw(b->w); if (__builtin_popcountll(unk) > 1) return false;
  u64 s = 0; do { vals.push_back(b->ko | s); s = (s - unk) & unk; } while (s); return true;
}
static T viaCases(T a, T b, T (*f)(T, T)) {
  std::vector<u64> v; if (!smallAmt(b, v)) return nullptr;
  T r = f(a, mkConst(v[0], b->w)); for (size_t i = 1; i < v.size(); i++) r = mkIte(mkEq(b, mkConst(v[i], b->w)), f(a, mkConst(v[i], b->w)), r); return r;
}
T mkShl(T a, T b) {
  if (isConst(b)) return mkShlC(a, std::min<u64>(b->val, 64));
  if (isConst(a) && a->val == 0) return a;
  if (T r = viaCases(a, b, mkShl)) return r;
  return intern2(O_SHL, a->w, a, b);
}
T mkLshr(T a, T b) {
  if (isConst(b)) return mkLshrC(a, std::min<u64>(b->val, 64));
  if (isConst(a) && a->val == 0) return a;
  if (T r = viaCases(a, b, mkLshr)) return r;
  return intern2(O_LSHR, a->w, a, b);
}
T mkAshr(T a, T b) {
  if (isConst(b)) { unsigned k = std::min<u64>(b->val, a->w - 1); if (!k) return a; return mkSext(mkExtract(a, a->w - 1, k), a->w); }
  if (a->kz >> (a->w - 1) & 1) return mkLshr(a, b);
  if (T r = viaCases(a, b, mkAshr)) return r;
  return intern2(O_ASHR, a->w, a, b);
}
T mkRotl(T a, T amt) { // any width of amt; taken modulo the width of a (a power of two)
  unsigned lg = __builtin_ctz(a->w);
  if (amt->w > lg) amt = mkExtract(amt, lg - 1, 0); else if (amt->w < lg) amt = mkZext(amt, lg);
  if (isConst(amt)) { unsigned k = amt->val; if (!k) return a; return mkConcat({mkExtract(a, a->w - 1 - k, 0), mkExtract(a, a->w - 1, a->w - k)}); }
  if (a->op == O_ROTL) return mkRotl(a->args[0], mkAdd(a->args[1], amt));
  if (T r = viaCases(a, amt, mkRotl)) return r;
  return intern2(O_ROTL, a->w, a, amt);
}
T mkRotr(T a, T amt) { unsigned lg = __builtin_ctz(a->w); if (amt->w > lg) amt = mkExtract(amt, lg - 1, 0); else if (amt->w < lg) amt = mkZext(amt, lg); return mkRotl(a, mkNeg(amt)); }

static T divOp(Op op, T a, T b) {
  unsigned w = a->w;
  if (isConst(a) && isConst(b)) { Term t; t.op = op; t.w = w; u64 v[2] = {a->val, b->val}; return mkConst(evalNode(&t, v), w); }
  if (isConst(b) && (op == O_UDIV || op == O_UREM)) {
    if (b->val == 1) return op == O_UDIV ? a : mkConst(0, w);
    if (isPow2(b->val)) { unsigned k = __builtin_ctzll(b->val); return op == O_UDIV ? mkLshrC(a, k) : mkZext(mkExtract(a, k - 1, 0), w); }
    if (umax(a) < b->val) return op == O_UDIV ? mkConst(0, w) : a;
    // small dividend: a table
    unsigned lead = 0; while (lead < w && (a->kz >> (w - 1 - lead) & 1)) lead++;
    unsigned k = w - lead;
    if (k <= 10) { std::vector<u64> v(1u << k); for (u32 i = 0; i < v.size(); i++) v[i] = op == O_UDIV ? i / b->val : i % b->val; return mkLookup(mkTable(v, k, w), mkExtract(a, k - 1, 0)); }
  }
  if ((op == O_SDIV || op == O_SREM) && (a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return divOp(op == O_SDIV ? O_UDIV : O_UREM, a, b);
  return intern2(op, w, a, b);
}
T mkUdiv(T a, T b) { return divOp(O_UDIV, a, b); } T mkUrem(T a, T b) { return divOp(O_UREM, a, b); }
T mkSdiv(T a, T b) { return divOp(O_SDIV, a, b); } T mkSrem(T a, T b) { return divOp(O_SREM, a, b); }

// ---------------------------------------------------------------- lookups
static bool g_noWiden; // the index was just narrowed: not to be widened to its base again
static T mkLookup_(const Table* t, T idx) {
  bool noWiden = g_noWiden; g_noWiden = false;
  if (isConst(idx)) return mkConst(t->v[idx->val], t->w);
  unsigned k = t->k, w = t->w; size_t N = t->v.size();
  bool same = true; for (size_t i = 1; i < N && same; i++) same = t->v[i] == t->v[0];
  if (same) return mkConst(t->v[0], w);
  if (idx->op == O_XOR && idx->val) {
    u64 c = idx->val; T bare = idx->n > (u32)g_xorflat ? intern(O_XOR, k, 0, 0, 0, (const T*)idx->args, nullptr, idx->n, nullptr) : mkXorN({idx}, c, k);
    if (!(bare->op == O_XOR && bare->val)) { std::vector<u64> v(N); for (size_t i = 0; i < N; i++) v[i] = t->v[i ^ c]; return mkLookup(mkTable(v, k, w), bare); }
  }
  // index bits the table does not depend on, and known index bits
  {
    u64 drop = 0, fixed = 0;
    for (unsigned b = 0; b < k; b++) {
      if ((idx->kz | idx->ko) >> b & 1) { drop |= 1ull << b; fixed |= idx->ko & (1ull << b); continue; }
      bool dep = false; for (size_t i = 0; i < N && !dep; i++) dep = t->v[i] != t->v[i ^ (1ull << b)];
      if (!dep) drop |= 1ull << b;
    }
    if (drop) {
      std::vector<T> p; std::vector<unsigned> keep; for (unsigned b = 0; b < k; b++) if (!(drop >> b & 1)) keep.push_back(b);
      if (keep.empty()) return mkConst(t->v[fixed], w);
      int hi = k - 1; while (hi >= 0) { if (drop >> hi & 1) { hi--; continue; } int lo = hi; while (lo > 0 && !(drop >> (lo - 1) & 1)) lo--; p.push_back(mkExtract(idx, hi, lo)); hi = lo - 1; }
      std::vector<u64> v(1ull << keep.size());
      for (u64 i = 0; i < v.size(); i++) { u64 x = fixed; for (size_t b = 0; b < keep.size(); b++) if (i >> b & 1) x |= 1ull << keep[b]; v[i] = t->v[x]; }
      { const Table* nt = mkTable(v, keep.size(), w); T ni = mkConcat(p); g_noWiden = true; T r = mkLookup(nt, ni); g_noWiden = false; return r; }
    }
  }
  // constant bits at the ends of the output
  {
    u64 o = maskw(w), z = maskw(w); for (u64 x : t->v) { o &= x; z &= ~x; }
    u64 kn = o | z; unsigned top = 0, bot = 0; while (top < w && (kn >> (w - 1 - top) & 1)) top++;
    while (bot < w - top && (kn >> bot & 1)) bot++;
    if (top || bot) {
      std::vector<T> p; unsigned nw = w - top - bot; std::vector<u64> v(N); for (size_t i = 0; i < N; i++) v[i] = (t->v[i] >> bot) & maskw(nw);
      if (top) p.push_back(mkConst(o >> (w - top), top));
      p.push_back(mkLookup(mkTable(v, k, nw), idx));
      if (bot) p.push_back(mkConst(o, bot));
      return mkConcat(p);
    }
  }
  if (idx->op == O_LOOKUP) {
    const Table* u = idx->tab; std::vector<u64> v(u->v.size()); for (size_t i = 0; i < v.size(); i++) v[i] = t->v[u->v[i]];
    return mkLookup(mkTable(v, u->k, w), idx->args[0]);
  }
  if (idx->op == O_CONCAT) { // all parts are functions of one narrow term
    T base = nullptr; bool ok = true;
    for (u32 i = 0; i < idx->n && ok; i++) {
      T a = idx->args[i]; T bb = a;
      if (a->op == O_CONST) continue;
      if (a->op == O_EXTRACT) bb = a->args[0]; else if (a->op == O_LOOKUP) bb = a->args[0];
      else if (a->op == O_XOR && a->n == 1) { bb = a->args[0]; if (bb->op == O_EXTRACT) bb = bb->args[0]; }
      if (bb->w > 10 || (base && base != bb)) ok = false; base = bb;
    }
    if (ok && base && base->op != O_CONCAT) {
      std::vector<u64> v(1ull << base->w);
      for (u64 x = 0; x < v.size(); x++) {
        u64 ix = 0;
        for (u32 i = 0; i < idx->n; i++) {
          T a = idx->args[i]; u64 y; auto ev = [&](T q) -> u64 { if (q == base) return x; if (q->op == O_EXTRACT) return (x >> q->attr) & maskw(q->w); if (q->op == O_LOOKUP) return q->tab->v[x]; return q->val; };
          if (a->op == O_XOR && a != base) y = ev(a->args[0]) ^ a->val; else y = ev(a);
          ix = ix << a->w | y;
        }
        v[x] = t->v[ix];
      }
      bool back = false; // it would be narrowed to this index again
      if (noWiden) for (unsigned b = 0; b < base->w && !back; b++) { bool dep = !((base->kz | base->ko) >> b & 1); if (dep) { dep = false; for (u64 x = 0; x < v.size() && !dep; x++) dep = v[x] != v[x ^ (1ull << b)]; } back = !dep; }
      if (!back) return mkLookup(mkTable(v, base->w, w), base);
    }
  }
  if (idx->op == O_ITE && isConst(idx->args[1]) && isConst(idx->args[2])) return mkIte(idx->args[0], mkConst(t->v[idx->args[1]->val], w), mkConst(t->v[idx->args[2]->val], w));
  if (t->affine) {
    u64 c = t->v[0];
    if (t->bitperm) { // every output bit is an input bit or a constant
      std::vector<T> p;
      for (int ob = w - 1; ob >= 0; ob--) {
        int src = -1; for (unsigned b = 0; b < k; b++) if ((t->v[1ull << b] ^ c) >> ob & 1) src = b;
        T x = src < 0 ? mkConst(0, 1) : mkExtract(idx, src, src); if (c >> ob & 1) x = mkNot(x); p.push_back(x);
      }
      T r = mkConcat(p); return r;
    }
    if (idx->op == O_XOR) {
      std::vector<u64> v(N); for (size_t i = 0; i < N; i++) v[i] = t->v[i] ^ c; const Table* l = mkTable(v, k, w);
      std::vector<T> xs; for (u32 i = 0; i < idx->n; i++) xs.push_back(mkLookup(l, idx->args[i]));
      return mkXorN(xs, c ^ l->v[idx->val], w);
    }
  }
  return intern(O_LOOKUP, w, 0, 0, 0, &idx, nullptr, 1, t);
}
T mkTuple(const std::vector<T>& xs) { return intern(O_TUPLE, 1, 0, 0, 0, xs.data(), nullptr, xs.size(), nullptr); }
static T mkTupleLookup_(T tu, T idx) {
  unsigned w = tu->args[0]->w;
  if (isConst(idx)) return idx->val < tu->n ? tu->args[idx->val] : mkConst(0, w);
  bool allc = true, same = true;
  for (u32 i = 0; i < tu->n; i++) { if (!isConst(tu->args[i])) allc = false; if (tu->args[i] != tu->args[0]) same = false; }
  if (same) return tu->args[0];
  if (allc && idx->w <= 16) { std::vector<u64> v(1ull << idx->w, 0); for (u32 i = 0; i < tu->n && i < v.size(); i++) v[i] = tu->args[i]->val; return mkLookup(mkTable(v, idx->w, w), idx); }
  u64 kn = (idx->kz | idx->ko) & maskw(idx->w);
  if (kn && idx->w <= 16) { // drop known index bits
    std::vector<unsigned> keep; for (unsigned b = 0; b < idx->w; b++) if (!(kn >> b & 1)) keep.push_back(b);
    std::vector<T> v(1ull << keep.size());
    for (u64 i = 0; i < v.size(); i++) { u64 x = idx->ko; for (size_t b = 0; b < keep.size(); b++) if (i >> b & 1) x |= 1ull << keep[b]; v[i] = x < tu->n ? tu->args[x] : mkConst(0, w); }
    std::vector<T> p; int hi = idx->w - 1; while (hi >= 0) { if (kn >> hi & 1) { hi--; continue; } int lo = hi; while (lo > 0 && !(kn >> (lo - 1) & 1)) lo--; p.push_back(mkExtract(idx, hi, lo)); hi = lo - 1; }
    return mkTupleLookup(mkTuple(v), mkConcat(p));
  }
  if (idx->w == 1) return mkIte(idx, tu->args[1], tu->args[0]);
  return intern2(O_TLOOKUP, w, tu, idx);
}

// ---------------------------------------------------------------- generic traversals
T rebuild(T t, const std::function<T(T)>& f) {
  if (t->n == 0) return t;
  std::vector<T> a(t->n); bool ch = false;
  for (u32 i = 0; i < t->n; i++) { a[i] = f(t->args[i]); if (a[i] != t->args[i]) ch = true; }
  if (!ch) return t;
  switch (t->op) {
  case O_UF: return mkUF(t->fn, t->attr, a);
  case O_PERM: return mkPerm(t->fn, t->val >> 16 & 1, t->attr, t->val & 0xffff, t->n - (t->val & 0xffff), a);
  case O_ADD: { std::vector<std::pair<u64, T>> xs; for (u32 i = 0; i < t->n; i++) xs.push_back({t->coef[i], a[i]}); return mkAddN(xs, t->val, t->w); }
  case O_MUL: { T r = a[0]; for (u32 i = 1; i < t->n; i++) r = mkMul(r, a[i]); return r; }
  case O_XOR: return mkXorN(a, t->val, t->w);
  case O_AND: return mkAndN(a, t->w);
  case O_CONCAT: return mkConcat(a);
  case O_EXTRACT: return mkExtract(a[0], t->attr + t->w - 1, t->attr);
  case O_ITE: return mkIte(a[0], a[1], a[2]);
  case O_EQ: return mkEq(a[0], a[1]);
  case O_ULT: return mkUlt(a[0], a[1]);
  case O_SHL: return mkShl(a[0], a[1]);
  case O_LSHR: return mkLshr(a[0], a[1]);
  case O_ASHR: return mkAshr(a[0], a[1]);
  case O_ROTL: return mkRotl(a[0], a[1]);
  case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: return divOp(t->op, a[0], a[1]);
  case O_LOOKUP: return mkLookup(t->tab, a[0]);
  case O_TUPLE: return mkTuple(a);
  case O_TLOOKUP: return mkTupleLookup(a[0], a[1]);
  default: return t;
  }
}

u64 Eval::operator()(T t0) {
  std::vector<std::pair<T, u32>> st; auto it0 = memo.find(t0->id); if (it0 != memo.end()) return it0->second;
  st.push_back({t0, 0});
  std::vector<u64> a;
  while (!st.empty()) {
    T t = st.back().first;
    if (memo.count(t->id)) { st.pop_back(); continue; }
    if (t->op == O_VAR) { memo[t->id] = var(t) & maskw(t->w); st.pop_back(); continue; }
    if (st.back().second < t->n) { T c = t->args[st.back().second++]; if (!memo.count(c->id)) st.push_back({c, 0}); continue; }
    u64 r = 0;
    if (t->op == O_TLOOKUP) { u64 i = memo[t->args[1]->id]; T tu = t->args[0]; r = i < tu->n ? memo[tu->args[i]->id] : 0; }
    else if (t->op != O_TUPLE) { a.resize(t->n + 1); for (u32 i = 0; i < t->n; i++) a[i] = memo[t->args[i]->id]; r = evalNode(t, a.data()); }
    memo[t->id] = r; st.pop_back();
  }
  return memo[t0->id];
}
void collectVars(const std::vector<T>& roots, std::vector<T>& vars) {
  std::vector<bool> seen(g_terms.size(), false); std::vector<T> st(roots.begin(), roots.end());
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (seen[t->id]) continue; seen[t->id] = true; if (t->op == O_VAR) vars.push_back(t); for (u32 i = 0; i < t->n; i++) if (!seen[t->args[i]->id]) st.push_back(t->args[i]); }
}
static std::unordered_map<u64, bool> depmemo;
bool dependsOn(T t0, u32 flags) {
  std::vector<std::pair<T, u32>> st{{t0, 0}};
  auto key = [&](T t) { return (u64)t->id << 8 | flags; };
  while (!st.empty()) {
    T t = st.back().first; auto it = depmemo.find(key(t));
    if (it != depmemo.end()) { st.pop_back(); continue; }
    if (t->op == O_VAR) { depmemo[key(t)] = (t->fn & flags) != 0; st.pop_back(); continue; }
    if (st.back().second < t->n) { T c = t->args[st.back().second++]; if (!depmemo.count(key(c))) st.push_back({c, 0}); continue; }
    bool r = false; for (u32 i = 0; i < t->n && !r; i++) r = depmemo[key(t->args[i])];
    depmemo[key(t)] = r; st.pop_back();
  }
  return depmemo[key(t0)];
}
std::string show(T t, int d) {
  char b[64];
  if (t->op == O_CONST) { snprintf(b, sizeof b, "%llx:%u", (unsigned long long)t->val, t->w); return b; }
  if (t->op == O_VAR) return g_vars[t->val].name;
  snprintf(b, sizeof b, "(%s#%u:%u", opname[t->op], t->id, t->w); std::string s = b;
  if (t->op == O_EXTRACT) s += "@" + std::to_string(t->attr);
  if (t->op == O_LOOKUP) s += " T" + std::to_string(t->tab->id);
  if (t->op == O_ADD || t->op == O_XOR) if (t->val) { snprintf(b, sizeof b, " c%llx", (unsigned long long)t->val); s += b; }
  if (d <= 0) return s + " ..)";
  for (u32 i = 0; i < t->n && i < 10; i++) { s += " "; if (t->coef && t->coef[i] != 1) { snprintf(b, sizeof b, "%llx*", (unsigned long long)t->coef[i]); s += b; } s += show(t->args[i], d - 1); }
  if (t->n > 10) s += " ...";
  return s + ")";
}
