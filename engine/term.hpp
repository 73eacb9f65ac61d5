// Hash-consed word-level term DAG with normalising constructors.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128;

enum Op : u8 {
  O_CONST, O_VAR, O_UF, O_PERM, O_ADD, O_MUL, O_XOR, O_AND, O_CONCAT, O_EXTRACT, O_ITE,
  O_EQ, O_ULT, O_SHL, O_LSHR, O_ASHR, O_ROTL, O_UDIV, O_UREM, O_SDIV, O_SREM,
  O_LOOKUP, O_TLOOKUP, O_TUPLE, O_NOPS
};
extern const char* opname[];

static const int NL = 4; // eager simulation lanes

struct Table { std::vector<u64> v; u8 k, w; u32 id; bool affine, bitperm; };

struct Term {
  u32 id; Op op; u8 w; u16 attr;   // attr: EXTRACT lo / UF byte index / PERM byte index
  u32 n; u32 fn;                   // fn: UF/PERM function id, VAR flags
  u64 val;                         // CONST value; ADD/XOR constant; VAR index
  u64 kz, ko;                      // known zero / known one bits
  u64 sig[NL];
  const Term** args; const u64* coef; const Table* tab;
};
typedef const Term* T;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

enum { VF_UNDEF = 1, VF_SECRET = 2 };
struct VarInfo { std::string name; u8 w; u32 flags; T term; };
extern std::vector<VarInfo> g_vars;
extern std::vector<T> g_terms;         // by id
extern int g_gran;                     // granularity (in bits) at which bitwise operators distribute over concatenation
extern u64 g_seed;
extern u64 g_simcheck_fail; extern int g_xorflat;

T mkConst(u64 v, unsigned w);
T mkVar(const std::string& name, unsigned w, u32 flags, int kind = 0);
T mkUF(u32 fn, unsigned idx, const std::vector<T>& args);
T mkPerm(u32 fn, unsigned dir, unsigned idx, unsigned nkey, unsigned bs, const std::vector<T>& args);
T mkAdd(T a, T b); T mkSub(T a, T b); T mkNeg(T a); T mkMul(T a, T b);
T mkAddN(const std::vector<std::pair<u64, T>>& xs, u64 c, unsigned w);
T mkXor(T a, T b); T mkXorN(const std::vector<T>& xs, u64 c, unsigned w);
T mkAnd(T a, T b); T mkAndN(const std::vector<T>& xs, unsigned w); T mkOr(T a, T b); T mkNot(T a);
T mkConcat(const std::vector<T>& parts);  // most significant first
T mkExtract(T t, unsigned hi, unsigned lo);
T mkZext(T t, unsigned w); T mkSext(T t, unsigned w); T mkTrunc(T t, unsigned w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b); T mkUlt(T a, T b); T mkSlt(T a, T b);
T mkShlC(T a, unsigned k); T mkLshrC(T a, unsigned k);
T mkShl(T a, T b); T mkLshr(T a, T b); T mkAshr(T a, T b);
T mkRotl(T a, T amt); T mkRotr(T a, T amt);
T mkUdiv(T a, T b); T mkUrem(T a, T b); T mkSdiv(T a, T b); T mkSrem(T a, T b);
const Table* mkTable(const std::vector<u64>& v, unsigned k, unsigned w);
T mkLookup(const Table* t, T idx);
T mkTuple(const std::vector<T>& xs);
T mkTupleLookup(T tuple, T idx);
T mkBool(bool b);

// rebuild a node with new arguments through the normalising constructors
T rebuild(T t, const std::function<T(T)>& f);

// evaluation of terms over arbitrary variable assignment
struct Eval {
  std::unordered_map<u32, u64> memo;
  std::function<u64(T)> var;
  u64 operator()(T t);
};
u64 evalNode(T t, const u64* a);   // value of a node given its arguments' values
void collectVars(const std::vector<T>& roots, std::vector<T>& vars);
bool dependsOn(T t, u32 flags);    // reaches a VAR that carries one of the flags
std::string show(T t, int depth = 4);

inline bool isConst(T t) { return t->op == O_CONST; }
inline bool isTrue(T t) { return t->op == O_CONST && t->val == 1; }
inline bool isFalse(T t) { return t->op == O_CONST && t->val == 0; }
inline u64 umax(T t) { return ~t->kz & maskw(t->w); }
inline u64 umin(T t) { return t->ko; }
inline u64 maxVal(T t) { // tighter for sums
  if (t->op == O_ADD) { u128 m = t->val; for (u32 i = 0; i < t->n; i++) { m += (u128)t->coef[i] * umax(t->args[i]); if (m > umax(t)) return umax(t); } return (u64)m; }
  if (t->op == O_CONCAT && t->n == 2 && t->args[0]->op == O_CONST && !t->args[0]->val) return maxVal(t->args[1]);
  return umax(t);
}
