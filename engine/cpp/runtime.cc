// vpsym runtime: shadow state, expression DAG, z3 encodings and the path coordinator.
#include <execinfo.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>
#include "ops.h"
#include "vp.h"
typedef unsigned __int128 u128; typedef __int128 i128; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
using std::string; using std::vector;

// ---------------------------------------------------------------- expressions
enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_IDIV, K_IREM, K_FDIV, K_NEG, K_ITE, K_WRAP, K_UNS, K_ID, K_B2I, K_SCALE /*int * 2^aux*/, K_FDIV2 /*floor(x/2^aux)*/, K_MOD2 /*x mod 2^aux*/,
  K_FLOOR, K_TRUNCZ, K_SQRT, K_TRUNCREM, K_ABS, K_CONCAT, K_ROUNDED /*fp rounding of an inexact value: identity in the ideal*/,
  K_TRUE_, K_EQ, K_LT, K_LE, K_NOT, K_AND, K_OR, K_BEQ };
struct VarSet { u64 b[8] = {0,0,0,0,0,0,0,0}; void add(const VarSet& o) { for (int i = 0; i < 8; i++) b[i] |= o.b[i]; } bool hits(const VarSet& o) const { for (int i = 0; i < 8; i++) if (b[i] & o.b[i]) return true; return false; } bool any() const { for (int i = 0; i < 8; i++) if (b[i]) return true; return false; } };
struct Expr {
  Kind k; u8 ty; bool inexact, nonlin, raw, ideal; int f; u32 id; i64 aux; Expr *a, *b, *c;
  u64 cv; i128 lo, hi; double dlo, dhi; VarSet vs;
};
static const i128 I128MAX = (i128)1 << 120;
static inline bool isFp(u8 t) { return t == TY_F32 || t == TY_F64; }
static inline int bytesOf(u8 t) { return t == TY_F32 ? 4 : t == TY_F64 ? 8 : (t + 7) / 8; }
static inline i64 sx(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= (1ull << w) - 1; return (i64)((v ^ m) - m); }
static double bitsToD(u64 v, u8 t) { if (t == TY_F32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 dToBits(double d, u8 t) { if (t == TY_F32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }

static vector<Expr*> g_all;
struct Key { int k, ty; i64 aux; Expr *a, *b, *c; u64 cv; int f; bool operator==(const Key& o) const { return k == o.k && ty == o.ty && aux == o.aux && a == o.a && b == o.b && c == o.c && cv == o.cv && f == o.f; } };
struct KeyH { size_t operator()(const Key& x) const { u64 h = x.k * 0x9E3779B97F4A7C15ull; auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }; mix(x.ty); mix(x.aux); mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix(x.cv); return h; } };
static std::unordered_map<Key, Expr*, KeyH> g_cons;
static bool g_in = false;  // inside the runtime (z3 and bookkeeping allocations are not tracked)
struct Guard { bool old; Guard() : old(g_in) { g_in = true; } ~Guard() { g_in = old; } };

static int numbits(i128 v) { if (v < 0) v = -v; int n = 0; while (v) { n++; v >>= 1; } return n; }
static i128 typeLo(int w) { return -((i128)1 << (w - 1)); }
static i128 typeHi(int w) { return ((i128)1 << (w - 1)) - 1; }
static Expr* node(Kind k, u8 ty, Expr* a, Expr* b, Expr* c, i64 aux, u64 cv, bool constNode = false, int f = 0) {
  // non-constant nodes are identified by structure only (the concrete value is a function of it on a path)
  Key key{k, ty, aux, a, b, c, constNode ? cv : 0, constNode ? 0 : f};
  auto it = g_cons.find(key); if (it != g_cons.end()) return it->second;
  Expr* e = new Expr(); e->k = k; e->ty = ty; e->a = a; e->b = b; e->c = c; e->aux = aux; e->cv = cv; e->id = g_all.size(); e->f = f;
  e->inexact = e->nonlin = e->raw = e->ideal = false; e->lo = e->hi = 0; e->dlo = e->dhi = 0;
  for (Expr* x : {a, b, c}) if (x) { e->inexact |= x->inexact; e->nonlin |= x->nonlin; e->ideal |= x->ideal | x->inexact; e->vs.add(x->vs); }
  g_all.push_back(e); g_cons[key] = e; return e;
}
static double dScaled(i128 n, int f) { return ldexp((double)n, -f); }
static void setNum(Expr* e, i128 lo, i128 hi, int f) { e->lo = lo; e->hi = hi; e->f = f; e->dlo = dScaled(lo, f); e->dhi = dScaled(hi, f); }
static void setReal(Expr* e, double lo, double hi) { e->inexact = e->ideal = true; double m = 1e-12 * (fabs(lo) + fabs(hi)); e->dlo = lo - m; e->dhi = hi + m; }
// constants
static bool dyadic(double d, i128* n, int* f) {
  if (!isfinite(d)) return false; if (d == 0) { *n = 0; *f = 0; return true; }
  int ex; double m = frexp(d, &ex); i64 mi = (i64)ldexp(m, 53); ex -= 53;
  while (!(mi & 1)) { mi >>= 1; ex++; }
  if (ex >= 0) { if (ex > 60) return false; *n = (i128)mi << ex; *f = 0; return true; }
  if (-ex > 110) return false; *n = mi; *f = -ex; return true;
}
static bool fpConstOk(u64 cv, u8 ty) { i128 n; int f; double d = bitsToD(cv, ty); return dyadic(d, &n, &f) && fabs(d) < 1e17; }
static Expr* mkConst(u64 cv, u8 ty) {
  if (!isFp(ty) && ty < 64) cv &= (1ull << ty) - 1;
  Expr* e = node(K_CONST, ty, 0, 0, 0, 0, cv, true);
  if (isFp(ty)) { i128 n = 0; int f = 0; if (dyadic(bitsToD(cv, ty), &n, &f)) setNum(e, n, n, f); else { e->inexact = true; e->dlo = e->dhi = bitsToD(cv, ty); } }
  else { i128 v = ty == 1 ? (i128)(cv & 1) : (i128)sx(cv, ty); setNum(e, v, v, 0); }
  return e;
}
static bool isC(Expr* e) { return e->k == K_CONST; }
static bool isTrueC(Expr* e) { return e->k == K_CONST && (e->cv & 1); }
static bool boolVal(Expr* e) { return e->cv & 1; }

// ---------------------------------------------------------------- path state
struct Input { string name; int kind; /*0 int,1 grid,2 real,3 bool,4 choice*/ i128 lo, hi; int f; double dlo, dhi; i128 num; double val; Expr* e; };
static vector<Input> g_inputs; static std::map<string, string> g_assign; static std::map<string, int> g_nameCount;
struct Ev { Expr* c; };  // constraint that holds on this path
static vector<Expr*> g_pc; static std::unordered_map<Expr*, bool> g_known; static string g_dec; static string g_expect; static size_t g_bound;
static u64 g_hash = 1469598103934665603ull; static u64 g_hashEvents = 0;
static bool g_active = false, g_checkOnly = false; static int g_pipe = -1;
static u64 st_queries, st_unknown, st_sat, st_unsat, st_asserts, st_assertq, st_e1, st_e2; static double st_time, st_maxtime;
static std::set<string> g_lost; static std::set<u64> g_sites; static vector<string> g_notes; static string g_obs;
static std::set<string> g_unsup;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void sendLine(const string& s) { string m = s + "\n"; size_t o = 0; while (o < m.size()) { ssize_t n = write(g_pipe, m.data() + o, m.size() - o); if (n < 0) { if (errno == EINTR) continue; _exit(99); } o += n; } }
static string i128s(i128 v) { if (v == 0) return "0"; bool neg = v < 0; u128 u = neg ? -(u128)v : (u128)v; string s; while (u) { s += char('0' + (int)(u % 10)); u /= 10; } if (neg) s += '-'; return string(s.rbegin(), s.rend()); }
static i128 s128(const string& s) { i128 v = 0; bool neg = false; for (char c : s) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') v = v * 10 + (c - '0'); } return neg ? -v : v; }
static string fmtVal(const Input& in) { if (in.kind == 2) { char b[40]; u64 x; memcpy(&x, &in.val, 8); snprintf(b, sizeof b, "x%016lx", x); return b; } return i128s(in.num); }
static string assignStr(const std::map<int, string>& over) { string s; for (size_t i = 0; i < g_inputs.size(); i++) { auto it = over.find(i); s += g_inputs[i].name + "=" + (it != over.end() ? it->second : fmtVal(g_inputs[i])) + ";"; }
  return s; }
static void finishPath(const char* how);
static void lost(const string& what) { if (g_lost.insert(what).second && getenv("VP_DBT")) { void* bt[18]; int n = backtrace(bt, 18); FILE* f = fopen(getenv("VP_DBT"), "a"); fprintf(f, "lost %s:", what.c_str()); for (int i = 1; i < n; i++) fprintf(f, " %lx", (u64)bt[i] - 0x555555554000); fprintf(f, "\n"); fclose(f); } }

// ---------------------------------------------------------------- builders
static Expr* mkNot(Expr* e); static Expr* mkB(Kind k, Expr* a, Expr* b, bool v);
static void branchOn(Expr* cond, bool taken, u32 site);
static i128 alignN(i128 n, int f, int F) { return n << (F - f); }
static bool fits(i128 v, int sh) { return numbits(v) + sh < 119; }
static Expr* concretise(Expr* e);
static int prec(u8 ty) { return ty == TY_F32 ? 24 : 53; }
static Expr* fin(Expr* e, u64 cres) { e->cv = cres; return e; }
static bool fpExactFits(i128 lo, i128 hi, u8 ty) { i128 m = (i128)1 << prec(ty); return lo >= -m && hi <= m; }

static Expr* intRes(Expr* raw, i128 lo, i128 hi, u8 ty, u64 cres) {  // apply wrap-around of the machine type when needed
  if (lo >= typeLo(ty) && hi <= typeHi(ty)) { setNum(raw, lo, hi, 0); return fin(raw, cres); }
  setNum(raw, lo, hi, 0); raw->ty = 65; raw->cv = 0;
  Expr* e = node(K_WRAP, ty, raw, 0, 0, ty, cres); setNum(e, typeLo(ty), typeHi(ty), 0); return fin(e, cres);
}
// polynomial forms (degree 2) over floating-point terms: a sum in which every term cancels does not depend on the inputs,
// and one in which the quadratic terms cancel is linear
struct Mono { Expr *a, *b; double c; };  // a = b = 0: constant; b = 0: linear
typedef vector<Mono> Lin;
static std::unordered_map<u32, Lin>* g_lin;
static void linAdd(Lin& r, Expr* a, Expr* b, double c) { if (b && (!a || b->id < a->id)) std::swap(a, b); for (auto& u : r) if (u.a == a && u.b == b) { u.c += c; return; } r.push_back({a, b, c}); }
static const Lin& linOf(Expr* e, int depth = 0) {
  if (!g_lin) g_lin = new std::unordered_map<u32, Lin>();
  auto it = g_lin->find(e->id); if (it != g_lin->end()) return it->second;
  Lin r; auto merge = [&](const Lin& x, double m) { for (auto& t : x) linAdd(r, t.a, t.b, m * t.c); };
  auto sub = [&](Expr* x) -> Lin { if (isC(x)) { Lin q; double v = bitsToD(x->cv, x->ty); if (v != 0) q.push_back({0, 0, v}); return q; } return linOf(x, depth + 1); };
  bool ok = depth < 40 && isFp(e->ty);
  if (ok) switch (e->k) {
    case K_CONST: r = sub(e); break;
    case K_ADD: merge(sub(e->a), 1); merge(sub(e->b), 1); break;
    case K_SUB: merge(sub(e->a), 1); merge(sub(e->b), -1); break;
    case K_NEG: merge(sub(e->a), -1); break;
    case K_ROUNDED: merge(sub(e->a), 1); break;
    case K_ID: if (isFp(e->a->ty)) merge(sub(e->a), 1); else ok = false; break;
    case K_MUL: { Lin x = sub(e->a), y = sub(e->b); for (auto& s : x) for (auto& t : y) { if ((s.b && t.a) || (t.b && s.a)) ok = false; }
      if (x.size() * y.size() > 36) ok = false; if (ok) for (auto& s : x) for (auto& t : y) { if (!s.a) linAdd(r, t.a, t.b, s.c * t.c); else if (!t.a) linAdd(r, s.a, s.b, s.c * t.c); else linAdd(r, s.a, t.a, s.c * t.c); } break; }
    case K_FDIV: if (isC(e->b)) merge(sub(e->a), 1 / bitsToD(e->b->cv, e->b->ty)); else ok = false; break;
    default: ok = false; }
  if (!ok || r.size() > 24) { r.clear(); r.push_back({e, 0, 1}); }
  Lin q; for (auto& t : r) if (t.c != 0) q.push_back(t);
  return g_lin->insert({e->id, q}).first->second;
}
static Lin linCombine(Kind k, Expr* a, Expr* b) { Lin r; for (auto& t : linOf(a)) linAdd(r, t.a, t.b, t.c); for (auto& t : linOf(b)) linAdd(r, t.a, t.b, k == K_ADD ? t.c : -t.c); Lin q; for (auto& t : r) if (t.c != 0) q.push_back(t); return q; }
static bool cancels(Kind k, Expr* a, Expr* b) { if (isC(a) || isC(b)) return false; for (auto& t : linCombine(k, a, b)) if (t.a) return false; return true; }
static Expr* arith(Kind k, Expr* a, Expr* b, u8 ty, u64 cres);
static Expr* constD(double v, u8 ty);
static Expr* relinear(Kind k, Expr* a, Expr* b, u8 ty, u64 cres) {
  Lin r = linCombine(k, a, b); double K = 0; Expr* e = 0; for (auto& t : r) { if (t.b || (t.a && (t.a->nonlin || t.a->inexact))) return 0; if (!t.a) K = t.c; }
  auto bits = [](double v) { u64 x; memcpy(&x, &v, 8); return x; };
  double sum = 0; for (auto& t : r) if (t.a) { double v = bitsToD(t.a->cv, t.a->ty) * t.c; Expr* m = t.c == 1 ? t.a : arith(K_MUL, constD(t.c, ty), t.a, ty, bits(v)); if (!m) return 0; sum += v; e = e ? arith(K_ADD, e, m, ty, bits(sum)) : m; if (!e || e->inexact || e->nonlin) return 0; }
  if (!e) return 0; if (K != 0) { sum += K; e = arith(K_ADD, e, constD(K, ty), ty, bits(sum)); }
  if (!e || e->inexact || e->nonlin || e->cv != cres) return 0; return e;
}
static bool tinyConst(Expr* e) { return fabs(bitsToD(e->cv, e->ty)) < 1e-10; }
static Expr* dropTiny(Expr* e) { return constD(ldexp(trunc(ldexp(bitsToD(e->cv, e->ty), 100)), -100), e->ty); }
static Expr* arith(Kind k, Expr* a, Expr* b, u8 ty, u64 cres) {
  bool fp = isFp(ty);
  if (fp && (k == K_ADD || k == K_SUB) && cancels(k, a, b)) return 0;
  if (ty == TY_F64 && (k == K_ADD || k == K_SUB) && (a->nonlin || b->nonlin) && !a->inexact && !b->inexact) { Expr* l = relinear(k, a, b, ty, cres); if (l) return l; }
  // identities
  if (k == K_ADD) { if (isC(a) && a->lo == 0 && a->hi == 0 && !a->inexact) return b->ty == ty ? b : 0; if (isC(b) && b->lo == 0 && !b->inexact && a->ty == ty) return a; }
  if (k == K_SUB && isC(b) && b->lo == 0 && !b->inexact && a->ty == ty) return a;
  if (k == K_SUB && a == b) return 0;
  if (k == K_MUL) { for (int s = 0; s < 2; s++) { Expr* x = s ? a : b; Expr* y = s ? b : a; if (isC(x) && !x->inexact) { if (x->lo == 0) return 0; if (x->lo == 1 && x->f == 0 && y->ty == ty) return y; } } }
  bool tiny = false;  // constants below 2^-57 with more bits than are kept: the ideal real value drops what is beyond 2^-100
  if (fp && isC(a) && !fpConstOk(a->cv, a->ty) && !tinyConst(a)) { concretise(b); return 0; }
  if (fp && isC(b) && !fpConstOk(b->cv, b->ty) && !tinyConst(b)) { concretise(a); return 0; }
  if (fp) { if (isC(a) && !fpConstOk(a->cv, a->ty)) { a = dropTiny(a); tiny = true; } if (isC(b) && !fpConstOk(b->cv, b->ty)) { b = dropTiny(b); tiny = true; } }
  Key dummy;
  bool ex = !a->inexact && !b->inexact && !tiny;
  Expr* e = node(k, ty, a, b, 0, 0, cres);
  if (k == K_MUL && !isC(a) && !isC(b)) e->nonlin = true;
  if (!fp || ex) {
    i128 lo, hi; int F = 0; bool ok = true;
    if (k == K_MUL) {
      if (numbits(a->lo) + numbits(b->lo) > 118 || numbits(a->hi) + numbits(b->hi) > 118 || numbits(a->lo) + numbits(b->hi) > 118 || numbits(a->hi) + numbits(b->lo) > 118) ok = false;
      else { i128 v[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi}; lo = hi = v[0]; for (i128 x : v) { if (x < lo) lo = x; if (x > hi) hi = x; }
        if (a == b && lo < 0) lo = 0; }
      F = a->f + b->f;
    } else {
      F = a->f > b->f ? a->f : b->f;
      if (!fits(a->lo, F - a->f) || !fits(a->hi, F - a->f) || !fits(b->lo, F - b->f) || !fits(b->hi, F - b->f)) ok = false;
      else { i128 al = alignN(a->lo, a->f, F), ah = alignN(a->hi, a->f, F), bl = alignN(b->lo, b->f, F), bh = alignN(b->hi, b->f, F);
        if (k == K_ADD) { lo = al + bl; hi = ah + bh; } else { lo = al - bh; hi = ah - bl; } }
    }
    if (!fp) { if (!ok) { g_unsup.insert("wide int"); concretise(a); concretise(b); return 0; } return intRes(e, lo, hi, ty, cres); }
    if (ok && fpExactFits(lo, hi, ty)) { setNum(e, lo, hi, F); return fin(e, cres); }
    // inexact: ideal real value
  }
  double v[4]; int nv = 0; double lo, hi;
  if (k == K_ADD) { lo = a->dlo + b->dlo; hi = a->dhi + b->dhi; }
  else if (k == K_SUB) { lo = a->dlo - b->dhi; hi = a->dhi - b->dlo; }
  else { double w[4] = {a->dlo * b->dlo, a->dlo * b->dhi, a->dhi * b->dlo, a->dhi * b->dhi}; lo = hi = w[0]; for (double x : w) { lo = fmin(lo, x); hi = fmax(hi, x); } if (a == b) lo = fmax(lo, 0); }
  setReal(e, lo, hi); if (k == K_MUL && a == b && lo >= 0) e->dlo = 0; return fin(e, cres);
}
static Expr* mkNeg(Expr* a, u8 ty, u64 cres) { Expr* e = node(K_NEG, ty, a, 0, 0, 0, cres); if (!a->inexact) setNum(e, -a->hi, -a->lo, a->f); else { e->inexact = true; e->dlo = -a->dhi; e->dhi = -a->dlo; } return fin(e, cres); }
static Expr* mkId(Expr* a, u8 ty, u64 cres) { if (a->ty == ty) return a; Expr* e = node(K_ID, ty, a, 0, 0, 0, cres); e->f = a->f; e->lo = a->lo; e->hi = a->hi; e->dlo = a->dlo; e->dhi = a->dhi; return fin(e, cres); }
static Expr* constD(double d, u8 ty);
// comparison: returns a boolean node or null when decided
static Expr* cmp(Kind k, Expr* a, Expr* b, bool val) {
  if (a == b) return 0;
  // roots of exact radicands (few enough bits for the root to separate neighbours): compare the radicands
  { auto root = [](Expr* x) -> Expr* { while (x->k == K_ROUNDED || x->k == K_ID) x = x->a; if (x->k != K_SQRT || x->a->inexact) return 0; return numbits(x->a->hi) <= (x->ty == TY_F64 ? 40 : 18) ? x->a : 0; };
    auto radOf = [](Expr* y) -> Expr* { if (!isC(y) || !isFp(y->ty)) return 0; double d = bitsToD(y->cv, y->ty), q = d * d; i128 n; int f; if (d < 0 || d > 1e6 || !dyadic(q, &n, &f) || numbits(n) > 40) return 0; i128 n2; int f2; if (!dyadic(d, &n2, &f2) || numbits(n2) > 20) return 0; return constD(q, TY_F64); };
    Expr *ra = root(a), *rb = root(b); if (ra && !rb) rb = radOf(b); else if (rb && !ra) ra = radOf(a);
    if (ra && rb) return cmp(k, ra, rb, val); }
  if (!a->inexact && !b->inexact) {
    int F = a->f > b->f ? a->f : b->f;
    if (fits(a->lo, F - a->f) && fits(a->hi, F - a->f) && fits(b->lo, F - b->f) && fits(b->hi, F - b->f)) {
      i128 al = alignN(a->lo, a->f, F), ah = alignN(a->hi, a->f, F), bl = alignN(b->lo, b->f, F), bh = alignN(b->hi, b->f, F);
      if (k == K_EQ) { if (ah < bl || bh < al) return 0; if (al == ah && bl == bh) return 0; }
      if (k == K_LT) { if (ah < bl || al >= bh) return 0; }
      if (k == K_LE) { if (ah <= bl || al > bh) return 0; }
    }
  } else {
    if (k == K_EQ) { if (a->dhi < b->dlo || b->dhi < a->dlo) return 0; }
    else if (a->dhi < b->dlo || a->dlo > b->dhi) return 0;
  }
  // simplify comparisons of ite(b,1,0)-like values with constants
  for (int s = 0; s < 2; s++) { Expr* x = s ? b : a; Expr* y = s ? a : b;
    Expr* xx = x; while (xx->k == K_ID || (xx->k == K_UNS && xx->a->lo >= 0)) xx = xx->a;
    if (xx->k == K_B2I && isC(y)) {
      i128 one = xx->aux, c = y->lo; if (y->f) break;
      bool vt, vf; auto ev = [&](i128 v) { i128 l = s ? c : v, r = s ? v : c; return k == K_EQ ? l == r : k == K_LT ? l < r : l <= r; };
      vt = ev(one); vf = ev(0); if (vt == vf) return 0; return vt ? xx->a : mkNot(xx->a);
    }
    if (xx->k == K_ITE && !xx->inexact && isC(y) && (isC(xx->b) || isC(xx->c)) && y->f == 0) {
      auto dec = [&](Expr* l, Expr* r) -> int { Expr* p = s ? r : l; Expr* q = s ? l : r; (void)p; (void)q; 
        Expr* L = s ? y : l; Expr* R = s ? l : y; (void)r;
        int F = L->f > R->f ? L->f : R->f; i128 ll = alignN(L->lo, L->f, F), lh = alignN(L->hi, L->f, F), rl = alignN(R->lo, R->f, F), rh = alignN(R->hi, R->f, F);
        if (k == K_EQ) { if (lh < rl || rh < ll) return 0; if (ll == lh && rl == rh && ll == rl) return 1; return -1; }
        if (k == K_LT) { if (lh < rl) return 1; if (ll >= rh) return 0; return -1; }
        if (lh <= rl) return 1; if (ll > rh) return 0; return -1; };
      int d1 = dec(xx->b, y), d2 = dec(xx->c, y);
      if (d1 >= 0 && d2 >= 0) { if (d1 == d2) return 0; return d1 ? xx->a : mkNot(xx->a); }
    }
  }
  Expr* e = node(k, 1, a, b, 0, 0, val); e->cv = val; setNum(e, 0, 1, 0); return e;
}
static Expr* mkNot(Expr* e) { if (e->k == K_NOT) return e->a; if (isC(e)) return mkConst(!boolVal(e), 1); Expr* r = node(K_NOT, 1, e, 0, 0, 0, !boolVal(e)); setNum(r, 0, 1, 0); r->cv = !boolVal(e); return r; }
static Expr* mkAnd(Expr* a, Expr* b) { if (isC(a)) return boolVal(a) ? b : a; if (isC(b)) return boolVal(b) ? a : b; if (a == b) return a; if (mkNot(a) == b) return mkConst(0, 1); Expr* r = node(K_AND, 1, a, b, 0, 0, boolVal(a) && boolVal(b)); setNum(r, 0, 1, 0); r->cv = boolVal(a) && boolVal(b); return r; }
static Expr* mkOr(Expr* a, Expr* b) { return mkNot(mkAnd(mkNot(a), mkNot(b))); }
static Expr* mkBeq(Expr* a, Expr* b) { if (isC(a)) return boolVal(a) ? b : mkNot(b); if (isC(b)) return boolVal(b) ? a : mkNot(a); if (a == b) return mkConst(1, 1); Expr* r = node(K_BEQ, 1, a, b, 0, 0, boolVal(a) == boolVal(b)); setNum(r, 0, 1, 0); r->cv = boolVal(a) == boolVal(b); return r; }
static Expr* mkIte(Expr* c, Expr* a, Expr* b, u8 ty, u64 cres) {
  if (isC(c)) return boolVal(c) ? a : b; if (a == b) return a;
  if (c->k == K_NOT) { std::swap(a, b); c = c->a; }
  Expr* e = node(K_ITE, ty, c, a, b, 0, cres);
  if (!a->inexact && !b->inexact) { int F = a->f > b->f ? a->f : b->f; if (fits(a->lo, F - a->f) && fits(a->hi, F - a->f) && fits(b->lo, F - b->f) && fits(b->hi, F - b->f)) {
      i128 al = alignN(a->lo, a->f, F), ah = alignN(a->hi, a->f, F), bl = alignN(b->lo, b->f, F), bh = alignN(b->hi, b->f, F); e->inexact = false; setNum(e, al < bl ? al : bl, ah > bh ? ah : bh, F);
      // the condition being inexact makes the choice inexact, but the node stays a grid number
      return fin(e, cres); } }
  e->inexact = true; e->dlo = fmin(a->dlo, b->dlo); e->dhi = fmax(a->dhi, b->dhi); return fin(e, cres);
}
static Expr* b2i(Expr* b, int one, u8 ty, u64 cres) { if (isC(b)) return 0; Expr* e = node(K_B2I, ty, b, 0, 0, one, cres); e->inexact = false; setNum(e, one < 0 ? one : 0, one > 0 ? one : 0, 0); return fin(e, cres); }
static Expr* uns(Expr* a, int w) { if (a->lo >= 0) return a; if (isC(a)) { Expr* e = node(K_CONST, 66, 0, 0, 0, 0, a->cv, true); i128 v = (i128)(w == 64 ? a->cv : a->cv & ((1ull << w) - 1)); setNum(e, v, v, 0); return e; } Expr* e = node(K_UNS, 66, a, 0, 0, w, a->cv); i128 M = (i128)1 << w; i128 hi = a->hi >= 0 ? a->hi : a->hi + M; i128 lo = a->hi < 0 ? a->lo + M : 0; if (a->lo < 0) hi = M - 1; setNum(e, lo, hi, 0); return e; }
static Expr* wrapTo(Expr* a, u8 ty, u64 cres) { if (a->lo >= typeLo(ty) && a->hi <= typeHi(ty)) return mkId(a, ty, cres); Expr* e = node(K_WRAP, ty, a, 0, 0, ty, cres); setNum(e, typeLo(ty), typeHi(ty), 0); return fin(e, cres); }
static Expr* fabsE(Expr* a, u8 ty, u64 cres) {
  if (!a->inexact ? a->lo >= 0 : a->dlo >= 0) return a;
  Expr* e = node(K_ABS, ty, a, 0, 0, 0, cres);
  if (!a->inexact) { i128 h = -a->lo > a->hi ? -a->lo : a->hi; setNum(e, a->hi < 0 ? -a->hi : 0, h, a->f); } else { e->inexact = true; e->dhi = fmax(-a->dlo, a->dhi); e->dlo = a->dhi < 0 ? -a->dhi : 0; } return fin(e, cres);
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static Expr* floorE(Expr* a, u8 ty, u64 cres) { if (!a->inexact && a->f == 0) return a->ty == ty ? a : mkId(a, ty, cres);
  Expr* e = node(K_FLOOR, ty, a, 0, 0, 0, cres);
  if (!a->inexact) setNum(e, fdiv(a->lo, (i128)1 << a->f), fdiv(a->hi, (i128)1 << a->f), 0); else { if (fabs(a->dlo) > 1e15 || fabs(a->dhi) > 1e15) { lost("floor range"); return 0; } setNum(e, (i128)floor(a->dlo), (i128)floor(a->dhi), 0); e->inexact = false; e->nonlin = true; }
  return fin(e, cres); }
static Expr* truncz(Expr* a, u8 ty, u64 cres) { if (!a->inexact && a->f == 0) return mkId(a, ty, cres);
  Expr* e = node(K_TRUNCZ, ty, a, 0, 0, 0, cres);
  if (!a->inexact) { i128 D = (i128)1 << a->f; setNum(e, a->lo / D, a->hi / D, 0); } else { if (fabs(a->dlo) > 1e17 || fabs(a->dhi) > 1e17) { lost("fptosi range"); return 0; } setNum(e, (i128)trunc(a->dlo), (i128)trunc(a->dhi), 0); e->inexact = false; e->nonlin = true; }
  return fin(e, cres); }
static Expr* constD(double d, u8 ty) { return mkConst(dToBits(d, ty), ty); }
static Expr* sqrtE(Expr* a, u8 ty, u64 cres) {
  if (a->dlo < 0) { Expr* neg = cmp(K_LT, a, constD(0, ty), bitsToD(a->cv, a->ty) < 0); if (neg) branchOn(neg, boolVal(neg), 1); if (bitsToD(a->cv, a->ty) < 0) return 0; }
  Expr* e = node(K_SQRT, ty, a, 0, 0, 0, cres); e->nonlin = true; e->inexact = true; e->dlo = a->dlo > 0 ? sqrt(a->dlo) * (1 - 1e-12) : 0; e->dhi = sqrt(fmax(0, a->dhi)) * (1 + 1e-12); return fin(e, cres); }
static Expr* fdivE(Expr* a, Expr* b, u8 ty, u64 cres) {
  if (isC(b)) { double d = bitsToD(b->cv, b->ty); if (d == 0 || !fpConstOk(b->cv, b->ty)) { concretise(a); return 0; }
    double r = 1 / d; i128 n; int f; if (dyadic(r, &n, &f) && 1 / r == d && numbits(n) <= 1) return arith(K_MUL, a, mkConst(dToBits(r, ty), ty), ty, cres); }
  else {
    double d = bitsToD(b->cv, b->ty);
    if (b->dlo <= 0 && b->dhi >= 0) {
      Expr* z = cmp(K_EQ, b, constD(0, ty), d == 0); if (z) branchOn(z, boolVal(z), 2);
      if (d == 0) { // x/0: the result depends on the sign of x only
        if (!isC(a)) { double x = bitsToD(a->cv, a->ty); Expr* p = cmp(K_LT, constD(0, ty), a, x > 0); if (p) branchOn(p, boolVal(p), 3); Expr* q = cmp(K_LT, a, constD(0, ty), x < 0); if (q) branchOn(q, boolVal(q), 4); }
        return 0; }
      if (b->dlo < 0 && b->dhi > 0) { Expr* p = cmp(K_LT, constD(0, ty), b, d > 0); if (p) branchOn(p, boolVal(p), 5); }
    }
    if (isC(a) && !fpConstOk(a->cv, a->ty)) { if (!tinyConst(a)) { concretise(b); return 0; } a = dropTiny(a); }
  }
  if (a == b) return 0;  // x/x = 1 for x != 0
  if (isC(a) && bitsToD(a->cv, a->ty) == 0) return 0;
  Expr* e = node(K_FDIV, ty, a, b, 0, 0, cres); if (!isC(b)) e->nonlin = true;
  double bl = b->dlo, bh = b->dhi; bool pos = bitsToD(b->cv, b->ty) > 0; double mn = 1e-9;
  if (pos) { if (bl <= 0) bl = !b->inexact ? dScaled(1, b->f) : mn; } else { if (bh >= 0) bh = !b->inexact ? -dScaled(1, b->f) : -mn; }
  double w[4] = {a->dlo / bl, a->dlo / bh, a->dhi / bl, a->dhi / bh}; double lo = w[0], hi = w[0]; for (double x : w) { lo = fmin(lo, x); hi = fmax(hi, x); }
  if (b->inexact && ((pos && b->dlo <= 0) || (!pos && b->dhi >= 0))) { // unbounded quotient unless the numerator keeps its sign
    lo = a->dlo >= 0 == pos && (a->dlo >= 0 || a->dhi <= 0) ? 0 : -1e30; hi = (a->dlo >= 0 || a->dhi <= 0) && (a->dhi <= 0) == pos ? 0 : 1e30; if (!(a->dlo >= 0 || a->dhi <= 0)) { lo = -1e30; hi = 1e30; } }
  setReal(e, lo, hi); return fin(e, cres);
}
// ---------------------------------------------------------------- coercions of raw shadows
static Expr* asNum(Expr* e, u8 ty) {  // view shadow e as a number of type ty; null if it had to be concretised
  if (!e) return 0;
  if (e->ty == ty) { if (e->k == K_CONCAT && e->raw) { Expr* x = e; std::function<void(Expr*)> go = [&](Expr* y) { if (y->k == K_CONCAT) { go(y->a); go(y->b); } else if (!isC(y)) concretise(y); }; go(x); return 0; } return e; }
  if (isFp(ty) != isFp(e->ty) && !(e->ty == 1)) { if (e->k == K_CONST) return 0; if (e->k == K_CONCAT && e->raw) { std::function<void(Expr*)> go = [&](Expr* y) { if (y->k == K_CONCAT) { go(y->a); go(y->b); } else if (!isC(y)) concretise(y); }; go(e); return 0; } concretise(e); return 0; }
  if (isFp(ty)) { if (e->ty != ty) { lost("fp width"); return 0; } return e; }
  if (e->ty == 1 && ty > 1) return b2i(e, 1, ty, e->cv & 1);
  if (ty == 1) { // parity
    if (e->lo >= 0 && e->hi <= 1) { Expr* r = cmp(K_EQ, e, mkConst(1, e->ty), e->cv & 1); return r; }
    Expr* m = node(K_MOD2, e->ty, e, 0, 0, 1, e->cv & 1); setNum(m, 0, 1, 0); return cmp(K_EQ, m, mkConst(1, e->ty), e->cv & 1); }
  if (e->ty < ty) return e->lo >= 0 ? mkId(e, ty, e->cv) : mkId(uns(e, e->ty), ty, e->cv);
  return wrapTo(e, ty, ty >= 64 ? e->cv : e->cv & ((1ull << ty) - 1));
}
static Expr* operand(Expr* e, u64 c, u8 ty) { Expr* r = e ? asNum(e, ty) : 0; return r ? r : mkConst(c, ty); }

// enumerate the value of e completely (binary search over its interval; every split is a branch)
static Expr* concretise(Expr* e) {
  if (!e || isC(e)) return 0;
  if (e->ty == 1) { branchOn(e, boolVal(e), 10); return 0; }
  if (e->k == K_CONCAT && e->raw) { concretise(e->a); concretise(e->b); return 0; }
  if (e->k == K_B2I) { branchOn(e->a, boolVal(e->a), 10); return 0; }
  if (e->inexact) { lost("concretisation of an idealised real"); return 0; }
  i128 cur;
  if (isFp(e->ty)) { double d = bitsToD(e->cv, e->ty); cur = (i128)ldexp(d, e->f); } else cur = e->ty >= 65 ? (i128)e->cv : (i128)sx(e->cv, e->ty);
  i128 lo = e->lo, hi = e->hi; if (cur < lo || cur > hi) { lost("interval"); return 0; }
  while (lo < hi) {
    i128 mid = fdiv(lo + hi, 2);
    Expr* m = node(K_CONST, e->ty, 0, 0, 0, 7, (u64)mid ^ ((u64)(mid >> 64) * 31), true, 0);
    // dedicated numerator constant
    setNum(m, mid, mid, e->f); 
    Expr* c = cmp(K_LE, e, m, cur <= mid);
    if (c) branchOn(c, cur <= mid, 11);
    if (cur <= mid) hi = mid; else lo = mid + 1;
  }
  return 0;
}

// ---------------------------------------------------------------- z3
static z3::context* Z; static vector<z3::expr*> m1, m2n, m2d; static int g_pref = 0; static unsigned g_timeout = 20000; static vector<z3::expr>* aux1; static std::unordered_map<u32, vector<u32>> auxOf;
static double g_margin = 1.0 / (1 << 24);
static std::unordered_map<u32, z3::expr>* auxC;
struct E2Fail {}; static bool g_relax = false;  // relaxed encoding: grid inputs range over the reals (an unsatisfiable relaxation settles a query)
static z3::expr zi(i128 v) { return g_relax ? Z->real_val(i128s(v).c_str()) : Z->int_val(i128s(v).c_str()); }
static string pow2s(int k) { vector<int> d{1}; while (k-- > 0) { int c = 0; for (int& x : d) { x = 2 * x + c; c = x / 10; x %= 10; } if (c) d.push_back(c); } string r; for (auto it = d.rbegin(); it != d.rend(); ++it) r += char('0' + *it); return r; }
static z3::expr zr(i128 n, int f) { return Z->real_val((i128s(n) + "/" + (f <= 100 ? i128s((i128)1 << f) : pow2s(f))).c_str()); }
static z3::expr constReal(double v) {  // exact value of a finite floating point constant
  if (!isfinite(v)) { lost("non-finite constant"); return Z->real_val(0); }
  int ex; double m = frexp(v, &ex); i64 n = (i64)ldexp(m, 53); ex -= 53;
  if (ex <= 0) return zr(n, -ex); return Z->real_val(i128s(n).c_str()) * Z->real_val(pow2s(ex).c_str()); }
static z3::expr enc1(Expr* e);
static z3::expr real1(Expr* e) {  // real value of a numeric node
  if (isC(e)) { if (e->inexact) return constReal(bitsToD(e->cv, e->ty)); return zr(e->lo, e->f); }
  z3::expr x = enc1(e); if (e->inexact) return x; if (!g_relax) x = z3::to_real(x); if (e->f) x = x * zr(1, e->f); return x; }
static z3::expr num1(Expr* e, int F) { if (isC(e)) return zi(alignN(e->lo, e->f, F)); z3::expr x = enc1(e); if (F > e->f) x = x * zi((i128)1 << (F - e->f)); return x; }
static void memo1(Expr* e, const z3::expr& x) { if (m1.size() <= e->id) m1.resize(g_all.size() + 64, nullptr); m1[e->id] = new z3::expr(x); }
static z3::expr pow2i(int k) { return zi((i128)1 << k); }
static z3::expr floorReal(const z3::expr& r) { return z3::expr(*Z, Z3_mk_real2int(*Z, r)); }
static z3::expr enc1(Expr* e) {
  if (e->id < m1.size() && m1[e->id]) return *m1[e->id];
  auto ret = [&](const z3::expr& x) { memo1(e, x); return x; };
  if (g_relax) switch (e->k) { case K_IDIV: case K_IREM: case K_WRAP: case K_UNS: case K_FDIV2: case K_MOD2: case K_FLOOR: case K_TRUNCZ: case K_TRUNCREM: case K_CONCAT: throw E2Fail(); default: break; }
  switch (e->k) {
    case K_CONST: if (e->ty == 1) return ret(Z->bool_val(boolVal(e))); return ret(e->inexact ? real1(e) : zi(e->lo));
    case K_VAR: { string n = "v" + std::to_string(e->aux); if (e->ty == 1) return ret(Z->bool_const(n.c_str())); return ret(e->inexact || g_relax ? Z->real_const(n.c_str()) : Z->int_const(n.c_str())); }
    case K_ADD: case K_SUB: if (!e->inexact) { int F = e->f; z3::expr a = num1(e->a, F), b = num1(e->b, F); return ret(e->k == K_ADD ? a + b : a - b); } else { z3::expr a = real1(e->a), b = real1(e->b); return ret(e->k == K_ADD ? a + b : a - b); }
    case K_MUL: if (!e->inexact) { z3::expr a = num1(e->a, e->a->f), b = num1(e->b, e->b->f); return ret(a * b); } return ret(real1(e->a) * real1(e->b));
    case K_FDIV: return ret(real1(e->a) / real1(e->b));
    case K_IDIV: { z3::expr a = enc1(e->a), b = enc1(e->b); if (isC(e->a)) a = zi(e->a->lo); if (isC(e->b)) b = zi(e->b->lo);
      if (e->aux == 0) return ret(a / b);
      z3::expr aa = z3::ite(a >= 0, a, -a), bb = z3::ite(b >= 0, b, -b); z3::expr q = aa / bb; return ret(z3::ite((a >= 0) == (b >= 0), q, -q)); }
    case K_IREM: { z3::expr a = enc1(e->a), b = enc1(e->b); if (e->aux == 0) return ret(z3::mod(a, b)); z3::expr aa = z3::ite(a >= 0, a, -a), bb = z3::ite(b >= 0, b, -b); z3::expr r = z3::mod(aa, bb); return ret(z3::ite(a >= 0, r, -r)); }
    case K_NEG: return ret(-(e->inexact ? real1(e->a) : num1(e->a, e->f)));
    case K_ABS: { z3::expr a = e->inexact ? real1(e->a) : num1(e->a, e->f); return ret(z3::ite(a >= (e->inexact ? Z->real_val(0) : zi(0)), a, -a)); }
    case K_ITE: { if (!e->inexact) return ret(z3::ite(enc1(e->a), num1(e->b, e->f), num1(e->c, e->f))); return ret(z3::ite(enc1(e->a), real1(e->b), real1(e->c))); }
    case K_WRAP: { z3::expr a = enc1(e->a); z3::expr h = pow2i(e->aux - 1), M = pow2i(e->aux); return ret(z3::mod(a + h, M) - h); }
    case K_UNS: { z3::expr a = enc1(e->a); return ret(z3::ite(a < 0, a + pow2i(e->aux), a)); }
    case K_ID: case K_ROUNDED: return ret(e->inexact ? real1(e->a) : num1(e->a, e->f));
    case K_B2I: return ret(z3::ite(enc1(e->a), zi(e->aux), zi(0)));
    case K_SCALE: return ret(enc1(e->a) * pow2i(e->aux));
    case K_FDIV2: return ret(enc1(e->a) / pow2i(e->aux));
    case K_MOD2: return ret(z3::mod(enc1(e->a), pow2i(e->aux)));
    case K_FLOOR: if (!e->a->inexact) return ret(enc1(e->a) / pow2i(e->a->f)); return ret(floorReal(real1(e->a)));
    case K_TRUNCZ: if (!e->a->inexact) { z3::expr a = enc1(e->a), D = pow2i(e->a->f); return ret(z3::ite(a >= 0, a / D, -((-a) / D))); } else { z3::expr a = real1(e->a); return ret(z3::ite(a >= 0, floorReal(a), -floorReal(-a))); }
    case K_TRUNCREM: { z3::expr a = num1(e->a, e->f), b = num1(e->b, e->f); z3::expr aa = z3::ite(a >= 0, a, -a), bb = z3::ite(b >= 0, b, -b); z3::expr r = z3::mod(aa, bb); return ret(z3::ite(a >= 0, r, -r)); }
    case K_SQRT: { z3::expr s = Z->real_const(("q" + std::to_string(e->id)).c_str()); memo1(e, s); auxC->insert({e->id, s >= 0 && s * s == real1(e->a)}); return s; }
    case K_CONCAT: { z3::expr a = isC(e->a) ? zi(e->a->lo) : enc1(e->a), b = isC(e->b) ? zi(e->b->lo) : enc1(e->b); int lb = e->aux * 8; a = z3::ite(a < 0, a + pow2i(lb), a); return ret(a + b * pow2i(lb)); }
    case K_EQ: case K_LT: case K_LE: {
      if (!e->a->inexact && !e->b->inexact) { int F = std::max(e->a->f, e->b->f); z3::expr a = num1(e->a, F), b = num1(e->b, F); return ret(e->k == K_EQ ? a == b : e->k == K_LT ? a < b : a <= b); }
      z3::expr a = real1(e->a), b = real1(e->b); return ret(e->k == K_EQ ? a == b : e->k == K_LT ? a < b : a <= b); }
    case K_NOT: return ret(!enc1(e->a));
    case K_AND: return ret(enc1(e->a) && enc1(e->b));
    case K_BEQ: return ret(enc1(e->a) == enc1(e->b));
    default: lost("enc1"); return ret(Z->int_val(0));
  }
}
// auxiliary constraints (square roots) reachable from e
static void collectAux(Expr* e, std::set<u32>& seen, z3::expr_vector& out) {
  if (!e || !seen.insert(e->id).second) return; if (e->k == K_SQRT) { enc1(e); out.push_back(auxC->at(e->id)); }
  collectAux(e->a, seen, out); collectAux(e->b, seen, out); collectAux(e->c, seen, out);
}
// strict encoding with a margin on idealised comparisons
static bool cmpInexact(Expr* e) { return e->a->inexact || e->b->inexact; }
static z3::expr strict1(Expr* e, bool pol) {
  switch (e->k) {
    case K_NOT: return strict1(e->a, !pol);
    case K_AND: { z3::expr a = strict1(e->a, pol), b = strict1(e->b, pol); return pol ? a && b : a || b; }
    case K_LT: case K_LE: if (cmpInexact(e)) { z3::expr a = real1(e->a), b = real1(e->b); z3::expr m = Z->real_val("1/16777216"); return pol ? a + m <= b : b + m <= a; } break;
    case K_EQ: if (cmpInexact(e) && !pol) { z3::expr a = real1(e->a), b = real1(e->b); z3::expr m = Z->real_val("1/16777216"); return a + m <= b || b + m <= a; } break;
    default: break;
  }
  z3::expr x = enc1(e); return pol ? x : !x;
}
// --- bit-vector encoding of dyadic rationals: value = n / (d * 2^f), d > 0
struct B2 { z3::expr n; i128 lo, hi; int f; bool hasD; z3::expr d; i128 dlo, dhi; };
static std::unordered_map<u32, B2>* mm2;
static int widthFor(i128 lo, i128 hi) { int w = 1; while (lo < -((i128)1 << (w - 1)) || hi > ((i128)1 << (w - 1)) - 1) { w++; if (w > 118) throw E2Fail(); } return w; }
static z3::expr fitw(const z3::expr& x, int w) { int c = x.get_sort().bv_size(); if (c == w) return x; if (c < w) return z3::sext(x, w - c); return x.extract(w - 1, 0); }
static z3::expr bvc(i128 v, int w) { i128 m = v; if (m < 0) m += (i128)1 << w; return Z->bv_val(i128s(m).c_str(), w); }
static B2 B2mk(const z3::expr& n, i128 lo, i128 hi, int f) { int w = widthFor(lo, hi); return B2{fitw(n, w), lo, hi, f, false, *new z3::expr(Z->bv_val(1, 2)), 1, 1}; }
static void chk(i128 a, i128 b) { if (numbits(a) + numbits(b) > 116) throw E2Fail(); }
static B2 bmul(const B2& a, const B2& b) { chk(std::max(-a.lo, a.hi), std::max(-b.lo, b.hi)); i128 v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; i128 lo = v[0], hi = v[0]; for (i128 x : v) { lo = std::min(lo, x); hi = std::max(hi, x); } int w = widthFor(lo, hi); 
  return B2mk(fitw(a.n, w) * fitw(b.n, w), lo, hi, a.f + b.f); }
static B2 bshl(const B2& a, int k) { if (k == 0) return a; if (!fits(a.lo, k) || !fits(a.hi, k)) throw E2Fail(); i128 lo = a.lo << k, hi = a.hi << k; int w = widthFor(lo, hi); B2 r = B2mk(z3::shl(fitw(a.n, w), Z->bv_val(k, w)), lo, hi, a.f + k); r.hasD = a.hasD; r.d = a.d; r.dlo = a.dlo; r.dhi = a.dhi; return r; }
static B2 badd(const B2& a0, const B2& b0, bool sub) { int F = std::max(a0.f, b0.f); B2 a = bshl(a0, F - a0.f), b = bshl(b0, F - b0.f); i128 lo = sub ? a.lo - b.hi : a.lo + b.lo, hi = sub ? a.hi - b.lo : a.hi + b.hi; int w = widthFor(lo, hi); int w2 = std::max(w, std::max((int)a.n.get_sort().bv_size(), (int)b.n.get_sort().bv_size())); z3::expr x = sub ? fitw(a.n, w2) - fitw(b.n, w2) : fitw(a.n, w2) + fitw(b.n, w2); return B2mk(x, lo, hi, F); }
static B2 den(const B2& a) { return B2mk(a.d, a.dlo, a.dhi, 0); }
static B2 numOf(B2 a) { a.hasD = false; return a; }
static B2 withD(B2 n, const B2& d) { n.hasD = true; n.d = d.n; n.dlo = d.lo; n.dhi = d.hi; n.f -= d.f; if (n.f < 0) { int k = -n.f; n.f = 0; bool h = n.hasD; B2 s = bshl(numOf(n), k); s.f = 0; s.hasD = h; s.d = n.d; s.dlo = n.dlo; s.dhi = n.dhi; return s; } return n; }
static z3::expr benc(Expr* e);
static B2 enc2(Expr* e) {
  auto it = mm2->find(e->id); if (it != mm2->end()) return it->second;
  auto ret = [&](const B2& r) { mm2->insert({e->id, r}); return r; };
  switch (e->k) {
    case K_CONST: { if (e->inexact) throw E2Fail(); return ret(B2mk(bvc(e->lo, widthFor(e->lo, e->lo)), e->lo, e->lo, e->f)); }
    case K_VAR: { if (e->inexact || e->ty == 1) throw E2Fail(); int w = widthFor(e->lo, e->hi); return ret(B2mk(Z->bv_const(("v" + std::to_string(e->aux)).c_str(), w), e->lo, e->hi, e->f)); }
    case K_ADD: case K_SUB: { B2 a = enc2(e->a), b = enc2(e->b); bool s = e->k == K_SUB;
      if (!a.hasD && !b.hasD) { B2 r = badd(a, b, s); if (!e->inexact) { r.lo = std::max(r.lo, alignN(e->lo, e->f, std::max(r.f, e->f))); r.hi = std::min(r.hi, alignN(e->hi, e->f, std::max(r.f, e->f))); r.n = fitw(r.n, widthFor(r.lo, r.hi)); } return ret(r); }
      if (a.hasD && b.hasD) return ret(withD(badd(bmul(numOf(a), den(b)), bmul(numOf(b), den(a)), s), bmul(den(a), den(b))));
      if (a.hasD) return ret(withD(badd(numOf(a), bmul(b, den(a)), s), den(a)));
      return ret(withD(badd(bmul(a, den(b)), numOf(b), s), den(b))); }
    case K_MUL: { B2 a = enc2(e->a), b = enc2(e->b); B2 r = bmul(numOf(a), numOf(b)); if (a.hasD && b.hasD) return ret(withD(r, bmul(den(a), den(b)))); if (a.hasD) return ret(withD(r, den(a))); if (b.hasD) return ret(withD(r, den(b))); return ret(r); }
    case K_FDIV: { B2 a = enc2(e->a), b = enc2(e->b); B2 n = numOf(a), d = numOf(b); 
      bool pos = bitsToD(e->b->cv, e->b->ty) > 0;
      if (b.hasD) n = bmul(n, den(b)); if (a.hasD) d = bmul(d, den(a));
      if (!pos) { n = badd(B2mk(bvc(0, 1), 0, 0, 0), n, true); d = badd(B2mk(bvc(0, 1), 0, 0, 0), d, true); }
      if (d.lo <= 0) d.lo = 1;  // sign fixed by the path condition
      if (d.hi < d.lo) throw E2Fail();
      return ret(withD(n, d)); }
    case K_NEG: { B2 a = enc2(e->a); B2 r = badd(B2mk(bvc(0, 1), 0, 0, 0), numOf(a), true); return ret(a.hasD ? withD(r, den(a)) : r); }
    case K_ABS: { B2 a = enc2(e->a); B2 n = badd(B2mk(bvc(0, 1), 0, 0, 0), numOf(a), true); i128 hi = std::max(-a.lo, a.hi); int w = widthFor(-hi, hi); B2 r = B2mk(z3::ite(fitw(a.n, w) < 0, fitw(n.n, w), fitw(a.n, w)), 0, hi, a.f); return ret(a.hasD ? withD(r, den(a)) : r); }
    case K_ITE: { z3::expr c = benc(e->a); B2 a = enc2(e->b), b = enc2(e->c); 
      int F = std::max(a.f, b.f); a = bshl(a, F - a.f); b = bshl(b, F - b.f); i128 lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi); int w = widthFor(lo, hi); B2 r = B2mk(z3::ite(c, fitw(a.n, w), fitw(b.n, w)), lo, hi, F);
      if (a.hasD || b.hasD) { i128 l = std::min(a.dlo, b.dlo), h = std::max(a.dhi, b.dhi); int dw = widthFor(l, h); r.hasD = true; r.d = z3::ite(c, fitw(a.d, dw), fitw(b.d, dw)); r.dlo = l; r.dhi = h; }
      return ret(r); }
    case K_WRAP: { B2 a = enc2(e->a); int w = e->aux; z3::expr x = a.n; int c = x.get_sort().bv_size(); x = c < w ? z3::sext(x, w - c) : c > w ? x.extract(w - 1, 0) : x; return ret(B2mk(x, e->lo, e->hi, 0)); }
    case K_UNS: { B2 a = enc2(e->a); int w = e->aux; z3::expr x = z3::zext(fitw(a.n, w), 2); return ret(B2mk(x, e->lo, e->hi, 0)); }
    case K_ID: case K_ROUNDED: { return ret(enc2(e->a)); }
    case K_B2I: { z3::expr c = benc(e->a); int w = 2; return ret(B2mk(z3::ite(c, bvc(e->aux, w), bvc(0, w)), e->lo, e->hi, 0)); }
    case K_SCALE: { B2 a = bshl(enc2(e->a), e->aux); a.f = 0; return ret(a); }
    case K_FDIV2: { B2 a = enc2(e->a); int w = a.n.get_sort().bv_size(); if (e->aux >= w) return ret(B2mk(z3::ite(a.n < 0, bvc(-1, 2), bvc(0, 2)), -1, 0, 0)); return ret(B2mk(z3::ashr(a.n, Z->bv_val((int)e->aux, w)), e->lo, e->hi, 0)); }
    case K_MOD2: { B2 a = enc2(e->a); int k = e->aux; int w = a.n.get_sort().bv_size(); z3::expr x = w < k ? z3::sext(a.n, k - w) : a.n; return ret(B2mk(z3::zext(x.extract(k - 1, 0), 1), 0, ((i128)1 << k) - 1, 0)); }
    case K_FLOOR: { B2 a = enc2(e->a); if (a.hasD) throw E2Fail(); if (a.f == 0) return ret(a); int w = a.n.get_sort().bv_size(); if (a.f >= w) return ret(B2mk(z3::ite(a.n < 0, bvc(-1, 2), bvc(0, 2)), -1, 0, 0)); return ret(B2mk(z3::ashr(a.n, Z->bv_val(a.f, w)), fdiv(a.lo, (i128)1 << a.f), fdiv(a.hi, (i128)1 << a.f), 0)); }
    case K_TRUNCZ: { B2 a = enc2(e->a); if (a.hasD) throw E2Fail(); if (a.f == 0) return ret(a); i128 D = (i128)1 << a.f; i128 lo = std::min(a.lo, (i128)0) - D, hi = std::max(a.hi, (i128)0) + D; int w = widthFor(lo, hi); z3::expr x = fitw(a.n, w); z3::expr s = Z->bv_val(a.f, w); return ret(B2mk(z3::ite(x < 0, -z3::ashr(-x, s), z3::ashr(x, s)), a.lo / D, a.hi / D, 0)); }
    case K_IDIV: case K_IREM: { B2 a = enc2(e->a), b = enc2(e->b); i128 m = std::max(std::max(-a.lo, a.hi), std::max(-b.lo, b.hi)); int w = widthFor(-m - 1, m + 1); z3::expr x = fitw(a.n, w), y = fitw(b.n, w); z3::expr q = e->k == K_IDIV ? x / y : z3::srem(x, y); return ret(B2mk(q, -m, m, 0)); }
    case K_TRUNCREM: { int F = e->f; B2 a = bshl(enc2(e->a), F - e->a->f), b = bshl(enc2(e->b), F - e->b->f); i128 m = std::max(std::max(-a.lo, a.hi), std::max(-b.lo, b.hi)); int w = widthFor(-m - 1, m + 1); return ret(B2mk(z3::srem(fitw(a.n, w), fitw(b.n, w)), -m, m, F)); }
    default: throw E2Fail();
  }
}
static std::unordered_map<u32, z3::expr>* mb2;
static z3::expr bcmp(Kind k, const B2& a0, const B2& b0, int marginPol /*0 none, +1: a<b strictly by margin, -1: b<a by margin*/) {
  B2 a = a0, b = b0; if (a.hasD || b.hasD) { B2 na = numOf(a), nb = numOf(b); B2 l = b.hasD ? bmul(na, den(b)) : na, r = a.hasD ? bmul(nb, den(a)) : nb;
    if (marginPol) { B2 dd = a.hasD && b.hasD ? bmul(den(a), den(b)) : a.hasD ? den(a) : den(b); B2 m = dd; m.f += 24; if (marginPol > 0) l = badd(l, m, false); else r = badd(r, m, false); }
    a = l; b = r; }
  else if (marginPol) { B2 m = B2mk(bvc(1, 2), 1, 1, 24); if (marginPol > 0) a = badd(a, m, false); else b = badd(b, m, false); }
  int F = std::max(a.f, b.f); a = bshl(numOf(a), F - a.f); b = bshl(numOf(b), F - b.f); int w = std::max(a.n.get_sort().bv_size(), b.n.get_sort().bv_size()); z3::expr x = fitw(a.n, w), y = fitw(b.n, w);
  if (marginPol > 0) return x <= y; if (marginPol < 0) return y <= x;
  return k == K_EQ ? x == y : k == K_LT ? x < y : x <= y;
}
// comparison of a bit-vector term with a constant off the grid, exact by scaling the constant or, with a denominator,
// because the constant is closer to zero than any non-zero value of the term
static z3::expr bcmpConst(Kind k, const B2& x, double c, bool constLeft) {
  auto cst = [&](i128 v) { return B2mk(bvc(v, widthFor(v, v)), v, v, x.f); };
  auto lt = [&](i128 v) { return bcmp(K_LT, numOf(x), cst(v), 0); }; auto le = [&](i128 v) { return bcmp(K_LE, numOf(x), cst(v), 0); };
  double fl, ce;
  if (!x.hasD) { double sc = ldexp(c, x.f); if (!(fabs(sc) < 1e30)) throw E2Fail(); fl = floor(sc); ce = ceil(sc); }
  else { if (c == 0 || !(fabs(c) < ldexp(1.0 / (double)x.dhi, -x.f) * 0.999)) throw E2Fail(); fl = c > 0 ? 0 : -1; ce = c > 0 ? 1 : 0; }
  if (k == K_EQ) return fl == ce ? bcmp(K_EQ, numOf(x), cst((i128)fl), 0) : Z->bool_val(false);
  if (!constLeft) return k == K_LT ? lt((i128)ce) : le((i128)fl);
  return k == K_LT ? !le((i128)fl) : !lt((i128)ce);
}
static z3::expr benc(Expr* e) {
  auto it = mb2->find(e->id); if (it != mb2->end()) return it->second;
  z3::expr r(*Z);
  switch (e->k) {
    case K_CONST: r = Z->bool_val(boolVal(e)); break;
    case K_VAR: r = Z->bool_const(("v" + std::to_string(e->aux)).c_str()); break;
    case K_EQ: case K_LT: case K_LE:
      if (isC(e->b) && e->b->inexact) r = bcmpConst(e->k, enc2(e->a), bitsToD(e->b->cv, e->b->ty), false);
      else if (isC(e->a) && e->a->inexact) r = bcmpConst(e->k, enc2(e->b), bitsToD(e->a->cv, e->a->ty), true);
      else r = bcmp(e->k, enc2(e->a), enc2(e->b), 0);
      break;
    case K_NOT: r = !benc(e->a); break;
    case K_AND: r = benc(e->a) && benc(e->b); break;
    case K_BEQ: r = benc(e->a) == benc(e->b); break;
    default: throw E2Fail();
  }
  mb2->insert({e->id, r}); return r;
}
static z3::expr strict2(Expr* e, bool pol) {
  switch (e->k) {
    case K_NOT: return strict2(e->a, !pol);
    case K_AND: { z3::expr a = strict2(e->a, pol), b = strict2(e->b, pol); return pol ? a && b : a || b; }
    case K_LT: case K_LE: if (cmpInexact(e)) return bcmp(e->k, enc2(e->a), enc2(e->b), pol ? 1 : -1); break;
    case K_EQ: if (cmpInexact(e) && !pol) return bcmp(e->k, enc2(e->a), enc2(e->b), 1) || bcmp(e->k, enc2(e->a), enc2(e->b), -1); break;
    default: break;
  }
  z3::expr x = benc(e); return pol ? x : !x;
}
// does a solver query: path slice && extra (holding = extra must be `pol`); model goes to `out`
enum Res { UNSAT, SAT, UNKNOWN };
static string g_dumpDir; static int g_dumpN = 0;
static vector<Expr*> sliceFor(Expr* extra) {
  vector<Expr*> out; if (!extra) return g_pc; VarSet vs = extra->vs; vector<char> used(g_pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < g_pc.size(); i++) if (!used[i] && g_pc[i]->vs.hits(vs)) { used[i] = 1; vs.add(g_pc[i]->vs); ch = true; } }
  for (size_t i = 0; i < g_pc.size(); i++) if (used[i]) out.push_back(g_pc[i]); return out;
}
static void varsOf(const VarSet& vs, vector<int>& out) { for (int i = 0; i < 512; i++) if (vs.b[i >> 6] >> (i & 63) & 1) out.push_back(i); }
static bool modelVal(z3::model& m, Input& in, int idx, bool bv, string* out) {
  try {
    Expr* e = in.e;
    if (in.kind == 3) { z3::expr v = m.eval(Z->bool_const(("v" + std::to_string(idx)).c_str()), true); *out = v.is_true() ? "1" : "0"; return true; }
    if (bv) { z3::expr v = m.eval(Z->bv_const(("v" + std::to_string(idx)).c_str(), widthFor(e->lo, e->hi)), true); string d; if (!v.is_numeral()) return false; d = Z3_get_numeral_string(*Z, v); i128 n = s128(d); int w = widthFor(e->lo, e->hi); if (n >= ((i128)1 << (w - 1))) n -= (i128)1 << w; *out = i128s(n); return true; }
    if (in.kind != 2) { z3::expr v = m.eval(Z->int_const(("v" + std::to_string(idx)).c_str()), true); if (!v.is_numeral()) return false; *out = i128s(s128(Z3_get_numeral_string(*Z, v))); return true; }
    z3::expr v = m.eval(Z->real_const(("v" + std::to_string(idx)).c_str()), true); string s; double d;
    if (v.is_numeral()) s = Z3_get_numeral_decimal_string(*Z, v, 20); else if (v.is_algebraic()) s = Z3_get_numeral_decimal_string(*Z, v, 20); else return false;
    if (!s.empty() && s.back() == '?') s.pop_back(); d = strtod(s.c_str(), 0); if (d < in.dlo) d = in.dlo; if (d > in.dhi) d = in.dhi; char b[40]; u64 x; memcpy(&x, &d, 8); snprintf(b, sizeof b, "x%016lx", x); *out = b; return true;
  } catch (z3::exception&) { return false; }
}
// incremental solver for the linear case
static z3::solver* g_inc; static size_t g_incN = 0, g_incV = 0; static bool g_incBad = false;
static Res queryInc(Expr* extra, bool pol, std::map<int, string>* model, bool strict, string& why) {
  if (!g_inc) { g_inc = new z3::solver(*Z, z3::solver::simple()); z3::params p(*Z); p.set("timeout", g_timeout); g_inc->set(p); }
  for (; g_incV < g_inputs.size(); g_incV++) { Input& in = g_inputs[g_incV]; if (in.kind >= 3) continue; z3::expr x = enc1(in.e); g_inc->add(x >= zi(in.lo) && x <= zi(in.hi)); }
  for (; g_incN < g_pc.size(); g_incN++) g_inc->add(enc1(g_pc[g_incN]));
  g_inc->push(); g_inc->add(strict ? strict1(extra, pol) : (pol ? enc1(extra) : !enc1(extra))); st_e1++;
  z3::check_result r = g_inc->check(); Res res = UNKNOWN;
  if (r == z3::sat) { res = SAT; if (model) { z3::model m = g_inc->get_model(); vector<int> vars; VarSet vs = extra->vs; for (Expr* c : sliceFor(extra)) vs.add(c->vs); varsOf(vs, vars); for (int v : vars) { string x; if (modelVal(m, g_inputs[v], v, false, &x)) (*model)[v] = x; else lost("model value"); } } }
  else if (r == z3::unsat) res = UNSAT; else why += " inc:" + g_inc->reason_unknown();
  g_inc->pop(); return res;
}
static Res query(Expr* extra, bool pol, std::map<int, string>* model, bool strict) {
  Guard g; st_queries++; double t0 = now();
  if (extra && !g_incBad && g_pref != 2) {
    bool ok = !extra->nonlin; for (size_t i = g_incN; i < g_pc.size() && ok; i++) ok = !g_pc[i]->nonlin; for (auto& in : g_inputs) ok &= in.kind != 2; if (!ok && g_pref == 0) { for (size_t i = g_incN; i < g_pc.size(); i++) if (g_pc[i]->nonlin) g_incBad = true; for (auto& in : g_inputs) if (in.kind == 2) g_incBad = true; }
    if (ok) { string why; try { Res r = queryInc(extra, pol, model, strict, why); if (r != UNKNOWN) { double dt = now() - t0; st_time += dt; if (dt > st_maxtime) st_maxtime = dt; if (r == SAT) st_sat++; else st_unsat++; return r; } } catch (z3::exception& ex) { g_incBad = true; } }
  }
  vector<Expr*> cs = sliceFor(extra); VarSet vs; bool nonlin = false, inex = false; for (Expr* c : cs) { vs.add(c->vs); nonlin |= c->nonlin; inex |= c->inexact; } if (extra) { vs.add(extra->vs); nonlin |= extra->nonlin; inex |= extra->inexact; }
  vector<int> vars; varsOf(vs, vars);
  bool hasReal = false; for (int v : vars) hasReal |= g_inputs[v].kind == 2;
  int order[2]; if (g_pref == 2 || (g_pref == 0 && nonlin && !hasReal)) { order[0] = 2; order[1] = 1; } else { order[0] = 1; order[1] = 2; }
  Res res = UNKNOWN; string why;
  auto relaxed = [&](unsigned ms, bool split) {  // NRA/LRA over the reals; only an unsat answer is used
    static vector<z3::expr*> mr; static std::unordered_map<u32, z3::expr>* auxR = new std::unordered_map<u32, z3::expr>(); std::swap(m1, mr); std::swap(auxC, auxR); g_relax = true;
    try {
      z3::expr_vector as(*Z); std::set<u32> seen; for (Expr* c : cs) as.push_back(enc1(c)); if (extra) as.push_back(strict ? strict1(extra, pol) : (pol ? enc1(extra) : !enc1(extra)));
      for (Expr* c : cs) collectAux(c, seen, as); if (extra) collectAux(extra, seen, as);
      for (int v : vars) { Input& in = g_inputs[v]; if (in.kind == 3) continue; z3::expr x = enc1(in.e); as.push_back(x >= zi(in.lo) && x <= zi(in.hi)); }
      z3::solver s(*Z, "QF_NRA"); z3::params p(*Z); p.set("timeout", ms); s.set(p); for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
      st_e1++; z3::check_result r0 = s.check(); if (r0 == z3::unsat) res = UNSAT;
      else if (r0 == z3::sat && vars.size() <= 4) {  // try the grid points around the real solution
        z3::model m = s.get_model(); vector<i64> fl; bool ok = true;
        for (int v : vars) { if (g_inputs[v].kind == 3) { ok = false; break; } z3::expr x = m.eval(enc1(g_inputs[v].e), true); if (!x.is_numeral() && !x.is_algebraic()) { ok = false; break; } fl.push_back((i64)floor(atof(x.get_decimal_string(9).c_str()))); }
        if (ok) for (int k = 0; k < (1 << (vars.size())) && res == UNKNOWN; k++) {
          s.push(); for (size_t i = 0; i < vars.size(); i++) s.add(enc1(g_inputs[vars[i]].e) == zi(fl[i] + ((k >> i) & 1)));
          if (s.check() == z3::sat) { res = SAT; if (model) for (size_t i = 0; i < vars.size(); i++) (*model)[vars[i]] = std::to_string(fl[i] + ((k >> i) & 1)); }
          s.pop(); }
        // last resort for one or two integers: case split on the first, exact integer arithmetic on the other
        if (ok && split && res == UNKNOWN && vars.size() <= 2) {
          Input& i0 = g_inputs[vars[0]]; bool allUnsat = i0.hi - i0.lo <= 1000;
          for (i128 x = i0.lo; allUnsat && x <= i0.hi && res == UNKNOWN; x++) {
            s.push(); s.add(enc1(i0.e) == zi(x)); z3::check_result q = s.check();
            if (q == z3::sat) { if (vars.size() == 1) { res = SAT; if (model) (*model)[vars[0]] = i128s(x); }
              else { z3::expr y = enc1(g_inputs[vars[1]].e); bool done = false; i128 at = g_inputs[vars[1]].lo;
                for (int g = 0; g < 200 && !done; g++) {  // walk over the real intervals of the other one
                  s.push(); s.add(y >= zi(at)); z3::check_result q1 = s.check(); if (q1 == z3::unsat) { done = true; s.pop(); break; } if (q1 != z3::sat) { s.pop(); break; }
                  z3::expr yv = s.get_model().eval(y, true); i128 fy = (i128)floor(atof(yv.get_decimal_string(9).c_str()));
                  bool hit = false; for (int d = 0; d < 2 && !hit; d++) { s.push(); s.add(y == zi(fy + d)); if (s.check() == z3::sat) { hit = true; res = SAT; if (model) { (*model)[vars[0]] = i128s(x); (*model)[vars[1]] = i128s(fy + d); } } s.pop(); }
                  if (hit) { done = true; s.pop(); break; }
                  // no integer at the found place: everything in [at, fy] has to be excluded before moving on
                  s.add(y <= zi(fy)); bool gap = true; for (i128 k = at; k <= fy && gap; k++) { if (fy - at > 4) { s.push(); s.add(y <= zi(fy - 1)); z3::check_result q2 = s.check(); s.pop(); if (q2 == z3::unsat) break; gap = false; break; } s.push(); s.add(y == zi(k)); if (s.check() != z3::unsat) gap = false; s.pop(); }
                  s.pop(); if (!gap) break; at = fy + 1; }
                if (!done) allUnsat = false; } }
            else if (q != z3::unsat) allUnsat = false;
            s.pop(); }
          if (allUnsat && res == UNKNOWN) res = UNSAT;
        }
      }
    } catch (E2Fail&) {} catch (z3::exception& ex) { why += string(" rel:") + ex.msg(); }
    g_relax = false; std::swap(m1, mr); std::swap(auxC, auxR);
  };
  if (nonlin && inex && !hasReal) relaxed(g_timeout / 4, false);
  if (nonlin && inex && res == UNKNOWN && !hasReal && vars.size() <= 2) relaxed(g_timeout / 4, true);
  if (res == UNKNOWN) for (int eng : order) {
    try {
      if (eng == 2) {
        if (hasReal) continue;
        z3::expr_vector as(*Z); for (Expr* c : cs) as.push_back(benc(c)); if (extra) as.push_back(strict ? strict2(extra, pol) : (pol ? benc(extra) : !benc(extra)));
        for (int v : vars) { Input& in = g_inputs[v]; if (in.kind == 3) continue; B2 b = enc2(in.e); int w = b.n.get_sort().bv_size(); as.push_back(b.n >= bvc(in.lo, w) && b.n <= bvc(in.hi, w)); }
        z3::solver s(*Z, "QF_BV"); z3::params p(*Z); p.set("timeout", g_timeout); s.set(p); for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
        st_e2++; z3::check_result r = s.check();
        if (r == z3::sat) { res = SAT; if (model) { z3::model m = s.get_model(); for (int v : vars) { string x; if (modelVal(m, g_inputs[v], v, true, &x)) (*model)[v] = x; } } }
        else if (r == z3::unsat) res = UNSAT; else why += " bv:" + s.reason_unknown();
      } else {
        z3::expr_vector as(*Z); std::set<u32> seen; for (Expr* c : cs) { as.push_back(enc1(c)); } if (extra) as.push_back(strict ? strict1(extra, pol) : (pol ? enc1(extra) : !enc1(extra)));
        for (Expr* c : cs) collectAux(c, seen, as); if (extra) collectAux(extra, seen, as);
        for (int v : vars) { Input& in = g_inputs[v]; if (in.kind == 3) continue; z3::expr x = enc1(in.e); if (in.kind == 2) { char lo[64], hi[64]; i128 n; int f; dyadic(in.dlo, &n, &f); z3::expr l = zr(n, f); dyadic(in.dhi, &n, &f); as.push_back(x >= l && x <= zr(n, f)); (void)lo; (void)hi; } else as.push_back(x >= zi(in.lo) && x <= zi(in.hi)); }
        z3::solver s = nonlin ? (hasReal ? z3::solver(*Z, "QF_NRA") : z3::solver(*Z)) : z3::solver(*Z, z3::solver::simple());
        z3::params p(*Z); p.set("timeout", g_timeout); s.set(p); for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
        st_e1++; z3::check_result r = s.check();
        if (r == z3::sat) { res = SAT; if (model) { z3::model m = s.get_model(); bool ok = true; for (int v : vars) { string x; if (modelVal(m, g_inputs[v], v, false, &x)) (*model)[v] = x; else ok = false; } if (!ok) lost("model value"); } }
        else if (r == z3::unsat) res = UNSAT; else why += " lia:" + s.reason_unknown();
      }
    } catch (E2Fail&) { why += " bv:n/a"; } catch (z3::exception& ex) { why += string(" z3:") + ex.msg(); }
    if (res != UNKNOWN) break;
  }
  if (res == UNKNOWN && !hasReal) relaxed(g_timeout / 4, true);
  double dt = now() - t0; st_time += dt; if (dt > st_maxtime) st_maxtime = dt;
  if (res == UNKNOWN) { st_unknown++; sendLine("U" + why); } else if (res == SAT) st_sat++; else st_unsat++;
  if (dt > 1.0 && getenv("VP_SLOW")) { fprintf(stderr, "slow query %.2fs res=%d nonlin=%d inexact=%d vars=%zu cs=%zu\n", dt, res, nonlin, inex, vars.size(), cs.size()); }
  return res;
}
// ---------------------------------------------------------------- events
static void divergence(bool inexact) { if (!inexact && getenv("VP_DBT")) { void* bt[14]; int n = backtrace(bt, 14); FILE* f = fopen(getenv("VP_DBT"), "a"); for (int i = 1; i < n; i++) fprintf(f, " %lx", (u64)bt[i] - 0x555555554000); fprintf(f, "\n"); fclose(f); } finishPath(inexact ? "boundary" : "diverged"); }
static void branchOn(Expr* cond, bool taken, u32 site) {
  if (!g_active) return;
  if (isC(cond)) return;
  Expr* base = cond; bool t = taken; if (base->k == K_NOT) { base = base->a; t = !t; }
  if (g_checkOnly) return;
  auto it = g_known.find(base); if (it != g_known.end()) { if (it->second != t) { bool inex = base->inexact || base->ideal; for (Expr* p : g_pc) inex |= p->inexact || p->ideal; divergence(inex); } return; }
  if (getenv("VP_BT")) { void* bt[12]; int n = backtrace(bt, 12); fprintf(stderr, "BRANCH site %u k=%d:", site, base->k); for (int i = 1; i < n; i++) fprintf(stderr, " %lx", (u64)bt[i] - 0x555555554000); fprintf(stderr, "\n"); }
  size_t idx = g_dec.size(); g_dec.push_back(t ? '1' : '0');
  if (idx < g_bound) { if (g_expect[idx] != g_dec[idx]) { bool inex = base->inexact || base->ideal; for (Expr* p : g_pc) inex |= p->inexact || p->ideal; divergence(inex); } }
  else {
    std::map<int, string> m;
    if (query(base, !t, &m, true) == SAT) { string d = g_dec; d.back() = t ? '0' : '1'; sendLine("T" + d + " " + assignStr(m)); }
  }
  g_known[base] = t; g_pc.push_back(t ? base : mkNot(base));
}
// ---------------------------------------------------------------- shadow memory
struct Page { Expr* e[4096]; u8 i[4096]; };
static std::unordered_map<u64, Page*>* g_pages; static u8 g_pf[1 << 16]; static u64 g_lastP = ~0ull; static Page* g_lastPg;
static inline u32 pfh(u64 p) { return (u32)((p * 0x9E3779B97F4A7C15ull) >> 48); }
static inline Page* pageOf(u64 p, bool create) {
  if (p == g_lastP) return g_lastPg;
  if (!g_pf[pfh(p)] && !create) return 0;
  Guard g; auto it = g_pages->find(p); if (it != g_pages->end()) { g_lastP = p; g_lastPg = it->second; return it->second; }
  if (!create) return 0; Page* pg = (Page*)calloc(1, sizeof(Page)); (*g_pages)[p] = pg; g_pf[pfh(p)] = 1; g_lastP = p; g_lastPg = pg; return pg;
}
static inline void setByte(u64 a, Expr* e, u8 i) { Page* p = pageOf(a >> 12, e != 0); if (p) { p->e[a & 4095] = e; p->i[a & 4095] = i; } }
static inline Expr* getByte(u64 a, u8* i) { Page* p = pageOf(a >> 12, false); if (!p) return 0; *i = p->i[a & 4095]; return p->e[a & 4095]; }
static Expr* mkConcat(Expr* a, int ab, Expr* b, int bb, u64 cv);
static Expr* mkExtract(Expr* e, int off, int n, u64 cv) {
  int bs = bytesOf(e->ty); if (off == 0 && n == bs) return e;
  if (e->k == K_CONST) return mkConst(e->cv >> (8 * off), n * 8);
  if (e->k == K_CONCAT) { int lb = e->aux; if (off + n <= lb) return mkExtract(e->a, off, n, cv); if (off >= lb) return mkExtract(e->b, off - lb, n, cv);
    const int ln = lb - off; return mkConcat(mkExtract(e->a, off, ln, cv & ((1ull << (8 * ln)) - 1)), ln, mkExtract(e->b, 0, n - ln, cv >> (8 * ln)), n - ln, cv); }
  if (isFp(e->ty)) { concretise(e); return mkConst(cv, n * 8); }
  if (e->ty == 1) return b2i(e, 1, n * 8, cv);
  Expr* x = e; u64 c = e->cv; 
  if (off) { x = uns(x, e->ty); Expr* y = node(K_FDIV2, 66, x, 0, 0, 8 * off, c >> (8 * off)); setNum(y, x->lo >> (8 * off), x->hi >> (8 * off), 0); x = y; }
  return wrapTo(x, n * 8, n >= 8 ? (c >> (8 * off)) : (c >> (8 * off)) & ((1ull << (8 * n)) - 1));
}
static Expr* mkConcat(Expr* a, int ab, Expr* b, int bb, u64 cv) {
  if (isC(a) && isC(b)) return mkConst(cv, (ab + bb) * 8);
  if (a->k == K_CONCAT && false) {}
  Expr* e = node(K_CONCAT, (ab + bb) * 8, a, b, 0, ab, cv); e->raw = isFp(a->ty) || isFp(b->ty) || a->raw || b->raw;
  if (!e->raw) { i128 M = (i128)1 << (8 * ab); i128 lo = b->lo * M, hi = b->hi * M + (M - 1); setNum(e, lo, hi, 0); e->inexact = false; } else { e->inexact = true; }
  return fin(e, cv);
}
extern "C" {
unsigned long vp_hash_salt = 0;
Expr* __vp_args[64]; void* __vp_arg_tag; Expr* __vp_ret[64]; void* __vp_ret_tag;
Expr* __vp_load(void* p, u32 size, u32 ty) {
  if (!g_active || g_in) return 0;
  u64 a = (u64)p; Page* pg = pageOf(a >> 12, false); Page* pg2 = ((a + size - 1) >> 12) != (a >> 12) ? pageOf((a + size - 1) >> 12, false) : pg;
  if (!pg && !pg2) return 0;
  u8 i0; Expr* e0 = getByte(a, &i0); bool any = e0 != 0, same = e0 && i0 == 0;
  for (u32 j = 1; j < size; j++) { u8 i; Expr* e = getByte(a + j, &i); if (e) any = true; if (e != e0 || i != j) same = false; }
  if (!any) return 0;
  Guard g; u64 mem = 0; memcpy(&mem, p, size);
  auto okVal = [&](Expr* e, u64 v, int off, int n) { u64 m = n >= 8 ? ~0ull : ((1ull << (8 * n)) - 1); return ((e->cv >> (8 * off)) & m) == (v & m); };
  if (same && bytesOf(e0->ty) == (int)size) {
    if (!okVal(e0, mem, 0, size)) { for (u32 j = 0; j < size; j++) setByte(a + j, 0, 0); return 0; }
    if (e0->ty == 1 && ty == 8) return b2i(e0, 1, 8, mem); return e0; }
  // assemble from runs
  Expr* acc = 0; int accb = 0; u64 accv = 0;
  for (u32 j = 0; j < size;) {
    u8 i; Expr* e = getByte(a + j, &i); u32 n = 1;
    if (e) { while (j + n < size) { u8 i2; Expr* e2 = getByte(a + j + n, &i2); if (e2 != e || i2 != i + n) break; n++; } }
    else { while (j + n < size) { u8 i2; if (getByte(a + j + n, &i2)) break; n++; } }
    u64 v = (mem >> (8 * j)) & (n >= 8 ? ~0ull : ((1ull << (8 * n)) - 1)); Expr* part;
    if (e && okVal(e, v, i, n)) part = mkExtract(e, i, n, v); else part = 0;
    if (part && part->ty == 1) part = b2i(part, 1, 8, v);
    if (!part) part = mkConst(v, n * 8);
    if (!acc) { acc = part; accb = n; accv = v; } else { accv |= v << (8 * accb); acc = mkConcat(acc, accb, part, n, accv); accb += n; }
    j += n;
  }
  return isC(acc) ? 0 : acc;
}
void __vp_store(void* p, u32 size, Expr* e) {
  if (!g_active || g_in) return;
  u64 a = (u64)p;
  if (!e) { Page* q = pageOf(a >> 12, false); if (!q && ((a + size - 1) >> 12) == (a >> 12)) return; for (u32 j = 0; j < size; j++) setByte(a + j, 0, 0); return; }
  int bs = bytesOf(e->ty); for (u32 j = 0; j < size; j++) if ((int)j < bs) setByte(a + j, e, j); else setByte(a + j, 0, 0);
}
void __vp_clear(void* p, u64 n) { if (!g_active || g_in || !n) return; u64 a = (u64)p, end = a + n; while (a < end) { u64 pg = a >> 12, stop = std::min(end, (pg + 1) << 12); Page* q = pageOf(pg, false); if (q) for (; a < stop; a++) q->e[a & 4095] = 0; a = stop; } }
void __vp_copy(void* d, void* s, u64 n) {
  if (!g_active || g_in || !n || d == s) return; u64 a = (u64)d, b = (u64)s;
  bool any = false; for (u64 x = a >> 12; x <= (a + n - 1) >> 12 && !any; x++) any = pageOf(x, false); for (u64 x = b >> 12; x <= (b + n - 1) >> 12 && !any; x++) any = pageOf(x, false); if (!any) return;
  if (a < b) for (u64 j = 0; j < n; j++) { u8 i = 0; Expr* e = getByte(b + j, &i); setByte(a + j, e, i); } else for (u64 j = n; j-- > 0;) { u8 i = 0; Expr* e = getByte(b + j, &i); setByte(a + j, e, i); }
}
void __vp_reads(void* p, u64 n) { if (!g_active || g_in) return; Guard g; Expr* last = 0; for (u64 j = 0; j < n; j++) { u8 i; Expr* e = getByte((u64)p + j, &i); if (e && e != last) { last = e; if (((u8*)p)[j] == (u8)(e->cv >> (8 * i))) concretise(e); } } }
Expr* __vp_concat(Expr* a, u64 ca, u32 ab, Expr* b, u64 cb, u32 bb) { if (!g_active || (!a && !b)) return 0; Guard g; return mkConcat(a ? a : mkConst(ca, ab * 8), ab, b ? b : mkConst(cb, bb * 8), bb, ca | (cb << (8 * ab))); }
Expr* __vp_extract(Expr* e, u64 c, u32 off, u32 n) { if (!g_active || !e) return 0; Guard g; Expr* r = mkExtract(e, off, n, (c >> (8 * off)) & (n >= 8 ? ~0ull : ((1ull << (8 * n)) - 1))); return isC(r) ? 0 : r; }
void __vp_branch(Expr* c, u32 taken, u32 site) {
  if (!g_active || g_in) return;
  g_hash = (g_hash ^ (site * 2 + taken)) * 1099511628211ull; g_hashEvents++;
  if (!c) return; Guard g; g_sites.insert((u64)__builtin_return_address(0)); Expr* b = asNum(c, 1); if (!b) return; branchOn(b, taken, site);
}
void __vp_conc(Expr* e, u64 c, u32 ty) { if (!g_active || !e || g_in) return; Guard g; g_sites.insert((u64)__builtin_return_address(0)); concretise(e); }
void __vp_lost(Expr* e, void* what) { if (!g_active || !e) return; Guard g; lost((const char*)what); }
static bool benignCallee(const string& s) {
  static const char* ok[] = {"ostream", "LogMessage", "logging", "StrCat", "AlphaNum", "SixDigits", "FastIntToBuffer", "CatPieces", "to_string", "printf", "FormatPack", "substitute", "Substitute", "__cxa", "MakeCheckOpString", "Status", "CopyBack", "Snprintf", "WriteDouble", "_Unwind", "StringifySink", "FormatArgImpl", "str_format"};
  for (auto* o : ok) if (s.find(o) != string::npos) return true; return false;
}
void __vp_postcall(void* callee, u32 n, void* name) {
  if (!g_active || g_in || __vp_arg_tag != callee) return; __vp_arg_tag = 0;
  bool any = false; for (u32 i = 0; i < n && i < 64; i++) any |= __vp_args[i] != 0; if (!any) return;
  Guard g; string nm = name ? (const char*)name : ""; if (nm.empty()) { Dl_info di; if (dladdr(callee, &di) && di.dli_sname) nm = di.dli_sname; else nm = "indirect"; }
  if (nm.compare(0, 3, "vp_") == 0 || benignCallee(nm)) return; lost("call " + nm);
}
// x & mask and x | mask on a composite, field by field
static Expr* maskBytes(bool isAnd, Expr* e, u64 mask) {
  const int nb = bytesOf(e->ty); const u64 full = nb >= 8 ? ~0ull : (1ull << (8 * nb)) - 1; mask &= full; const u64 v = e->cv & full;
  if (isAnd ? mask == full : mask == 0) return e; if (isAnd ? mask == 0 : mask == full) return mkConst(isAnd ? 0 : full, nb * 8); if (isC(e)) return mkConst(isAnd ? v & mask : v | mask, nb * 8);
  if (e->k == K_CONCAT) { const int lb = e->aux, hb = nb - lb; Expr* l = maskBytes(isAnd, e->a, mask & ((1ull << (8 * lb)) - 1)); Expr* h = l ? maskBytes(isAnd, e->b, mask >> (8 * lb)) : 0; if (!h) return 0; return mkConcat(l, lb, h, hb, isAnd ? v & mask : v | mask); }
  if (e->ty == 1 && isAnd && (mask & 1)) return b2i(e, 1, 8, v & 1);
  return 0;
}
static Expr* opImpl(u32 code, u8 rt, u8 ot, Expr* a, Expr* b, Expr* c, u64 ca, u64 cb, u64 cc, u64 cres) {
  auto pad = [&](Expr*& e, u64 v) { if (e && !isFp(ot) && ot <= 64 && e->k == K_CONCAT && e->raw && e->ty < ot && ot % 8 == 0) e = mkConcat(e, bytesOf(e->ty), mkConst(0, ot - e->ty), (ot - e->ty) / 8, v); };
  if (code != OP_SELECT) { pad(a, ca); pad(b, cb); }
  if (code == OP_SELECT) {
    Expr* cnd = operand(a, ca, 1);
    if (isC(cnd)) return boolVal(cnd) ? b : c;
    if (rt == TY_BAD || rt == TY_PTR) { branchOn(cnd, boolVal(cnd), 20); return boolVal(cnd) ? b : c; }
    bool rawFork = (b && isFp(b->ty) != isFp(rt)) || (c && isFp(c->ty) != isFp(rt)) || (b && b->raw) || (c && c->raw);
    if (isFp(rt) && ((!b && !fpConstOk(cb, rt)) || (!c && !fpConstOk(cc, rt)))) rawFork = true;
    if (rawFork) { branchOn(cnd, boolVal(cnd), 21); return boolVal(cnd) ? b : c; }
    Expr* x = operand(b, cb, rt); Expr* y = operand(c, cc, rt);
    if (rt == 1) { Expr* r = mkOr(mkAnd(cnd, x), mkAnd(mkNot(cnd), y)); return isC(r) ? 0 : r; }
    if (isFp(rt) || rt > 1) { if (isC(x) && isC(y) && x->cv == y->cv) return 0; }
    return mkIte(cnd, x, y, rt, cres);
  }
  if (code >= OP_FCMP) {
    u32 pr = code - OP_FCMP; if (pr == 0 || pr == 15 || pr == 7 || pr == 8) { bool nanA = !a && isnan(bitsToD(ca, ot)), nanB = !b && isnan(bitsToD(cb, ot)); (void)nanA; (void)nanB; return 0; }
    Expr *x = a ? asNum(a, ot) : 0, *y = b ? asNum(b, ot) : 0; if (!x && !y) return 0;
    double da = bitsToD(ca, ot), db = bitsToD(cb, ot);
    if (isnan(da) || isnan(db)) return 0;
    if (!x) x = mkConst(ca, ot); if (!y) y = mkConst(cb, ot);
    u32 p = pr & 7; bool v = cres & 1;
    switch (p) { case 1: return cmp(K_EQ, x, y, v); case 2: return cmp(K_LT, y, x, v); case 3: return cmp(K_LE, y, x, v); case 4: return cmp(K_LT, x, y, v); case 5: return cmp(K_LE, x, y, v); case 6: { Expr* e = cmp(K_EQ, x, y, !v); return e ? mkNot(e) : 0; } }
    return 0;
  }
  if (code >= OP_ICMP) {
    u32 pr = code - OP_ICMP;
    // sign tests on floating-point bits
    if (a && isFp(a->ty) && !b) { i64 k = sx(cb, ot); if ((pr == L_ICMP_SLT && k == 0) || (pr == L_ICMP_SGT && k == -1)) { Expr* z = mkConst(0, a->ty); Expr* r = cmp(K_LT, a, z, bitsToD(a->cv, a->ty) < 0); if (!r) return 0; return pr == L_ICMP_SLT ? r : mkNot(r); } }
    Expr *x = a ? asNum(a, ot) : 0, *y = b ? asNum(b, ot) : 0; if (!x && !y) return 0; if (!x) x = mkConst(ca, ot); if (!y) y = mkConst(cb, ot);
    bool v = cres & 1;
    if (ot == 1) { Expr* r; if (pr == L_ICMP_EQ) r = mkBeq(x, y); else if (pr == L_ICMP_NE) r = mkNot(mkBeq(x, y)); else if (pr == L_ICMP_ULT || pr == L_ICMP_SGT) r = mkAnd(mkNot(x), y); else if (pr == L_ICMP_UGT || pr == L_ICMP_SLT) r = mkAnd(x, mkNot(y)); else if (pr == L_ICMP_ULE || pr == L_ICMP_SGE) r = mkNot(mkAnd(x, mkNot(y))); else r = mkNot(mkAnd(mkNot(x), y)); return isC(r) ? 0 : r; }
    if (pr == L_ICMP_EQ) return cmp(K_EQ, x, y, v);
    if (pr == L_ICMP_NE) { Expr* e = cmp(K_EQ, x, y, !v); return e ? mkNot(e) : 0; }
    if (pr >= L_ICMP_UGT && pr <= L_ICMP_ULE) { x = uns(x, ot); y = uns(y, ot); }
    switch (pr) { case L_ICMP_UGT: case L_ICMP_SGT: return cmp(K_LT, y, x, v); case L_ICMP_UGE: case L_ICMP_SGE: return cmp(K_LE, y, x, v); case L_ICMP_ULT: case L_ICMP_SLT: return cmp(K_LT, x, y, v); default: return cmp(K_LE, x, y, v); }
  }
  if (code >= OP_CAST) {
    u32 op = code - OP_CAST;
    if (op == L_Trunc && a->k == K_CONCAT && rt % 8 == 0) { Expr* r = mkExtract(a, 0, rt / 8, cres); return isC(r) ? 0 : r; }
    if (op == L_ZExt && a->k == K_CONCAT && a->raw && a->ty % 8 == 0 && a->ty < rt) return mkConcat(a, bytesOf(a->ty), mkConst(0, rt - a->ty), (rt - a->ty) / 8, cres);
    if (op == L_ZExt && isFp(a->ty)) return mkConcat(a, bytesOf(a->ty), mkConst(0, rt - 8 * bytesOf(a->ty)), rt / 8 - bytesOf(a->ty), cres);
    Expr* x = asNum(a, ot); if (!x) return 0;
    switch (op) {
      case L_Trunc: if (rt == 1) return asNum(x, 1); if (x->k == K_ID && x->a->ty == rt) return x->a; return wrapTo(x, rt, cres);
      case L_ZExt: if (ot == 1) return b2i(x, 1, rt, cres); return mkId(uns(x, ot), rt, cres);
      case L_SExt: if (ot == 1) return b2i(x, -1, rt, cres); return mkId(x, rt, cres);
      case L_SIToFP: case L_UIToFP: { if (ot == 1) x = b2i(x, op == L_UIToFP ? 1 : -1, 8, 0); else if (op == L_UIToFP) x = uns(x, ot); if (fpExactFits(x->lo, x->hi, rt)) return mkId(x, rt, cres); Expr* e = node(K_ROUNDED, rt, x, 0, 0, 0, cres); setReal(e, x->dlo, x->dhi); return fin(e, cres); }
      case L_FPToSI: case L_FPToUI: { Expr* t = truncz(x, rt, cres); return t; }
      case L_FPTrunc: if (!x->inexact && fpExactFits(x->lo, x->hi, rt)) return mkId(x, rt, cres); { if (x->k == K_ID && x->a->ty == rt) return x->a; Expr* e = node(K_ROUNDED, rt, x, 0, 0, 0, cres); e->inexact = true; e->dlo = x->dlo; e->dhi = x->dhi; return fin(e, cres); }
      case L_FPExt: { Expr* e = mkId(x, rt, cres); e->inexact = x->inexact; return e; }
    }
    return 0;
  }
  if (code >= OP_BIN) {
    u32 op = code - OP_BIN;
    if (op == L_Or || op == L_Add) if (a && b && a->k == K_CONCAT && b->k == K_CONCAT && a->aux == b->aux && (a->raw || b->raw)) {
      if (isC(a->b) && a->b->cv == 0 && isC(b->a) && b->a->cv == 0) return mkConcat(a->a, a->aux, b->b, bytesOf(b->ty) - b->aux, cres);
      if (isC(b->b) && b->b->cv == 0 && isC(a->a) && a->a->cv == 0) return mkConcat(b->a, b->aux, a->b, bytesOf(a->ty) - a->aux, cres); }
    if (a && !b && a->k == K_CONCAT && a->raw) {  // byte-wise operations on a composite of fields
      const int nb = bytesOf(a->ty);
      if (op == L_LShr && cb && cb % 8 == 0 && cb < (u64)nb * 8) { int o = cb / 8; Expr* h = mkExtract(a, o, nb - o, ca >> cb); return isC(h) ? 0 : mkConcat(h, nb - o, mkConst(0, o * 8), o, cres); }
      if (op == L_Shl && cb && cb % 8 == 0 && cb < (u64)nb * 8) { int o = cb / 8; Expr* l = mkExtract(a, 0, nb - o, ca & ((1ull << (8 * (nb - o))) - 1)); return isC(l) ? 0 : mkConcat(mkConst(0, o * 8), o, l, nb - o, cres); }
      if (op == L_And || op == L_Or) { Expr* r = maskBytes(op == L_And, a, cb); if (r) return isC(r) ? 0 : r; }
    }
    if (op == L_LShr && a && !b && a->k == K_CONCAT && cb == (u64)a->aux * 8) { Expr* h = a->b; if (isFp(h->ty) || h->raw) return mkConcat(h, bytesOf(h->ty), mkConst(0, a->aux * 8), a->aux, cres); }
    if (op == L_Shl && a && !b && a->k == K_CONCAT && a->raw && isC(a->b) && a->b->cv == 0 && cb == 8 * (u64)(bytesOf(a->ty) - a->aux)) return mkConcat(mkConst(0, cb), cb / 8, a->a, a->aux, cres);
    if (a && isFp(a->ty) && !isFp(ot) && !b) { u64 sgn = a->ty == TY_F64 ? 1ull << 63 : 1ull << 31; u64 full = a->ty == TY_F64 ? ~0ull : 0xffffffffull;
      if (op == L_And && (cb & full) == (full & ~sgn)) return fabsE(a, a->ty, cres); if (op == L_Xor && (cb & full) == sgn) return mkNeg(a, a->ty, cres);
      if (op == L_LShr && cb == (a->ty == TY_F64 ? 63 : 31)) { Expr* r = cmp(K_LT, a, mkConst(0, a->ty), bitsToD(a->cv, a->ty) < 0); return r ? b2i(r, 1, ot, cres) : 0; } }
    Expr *x = a ? asNum(a, ot) : 0, *y = b ? asNum(b, ot) : 0; if (!x && !y) return 0;
    if (!x) x = mkConst(ca, ot); if (!y) y = mkConst(cb, ot);
    if (isFp(ot)) {
      switch (op) { case L_FAdd: return arith(K_ADD, x, y, ot, cres); case L_FSub: return arith(K_SUB, x, y, ot, cres); case L_FMul: return arith(K_MUL, x, y, ot, cres); case L_FDiv: return fdivE(x, y, ot, cres); case L_FRem: code = OP_FMOD; goto math; }
      return 0; }
    if (ot == 1) { Expr* r = 0; switch (op) { case L_And: case L_Mul: r = mkAnd(x, y); break; case L_Or: r = mkOr(x, y); break; case L_Xor: case L_Add: case L_Sub: r = mkNot(mkBeq(x, y)); break; default: concretise(x); concretise(y); return 0; } return isC(r) ? 0 : r; }
    switch (op) {
      case L_Add: return arith(K_ADD, x, y, ot, cres); case L_Sub: return arith(K_SUB, x, y, ot, cres); case L_Mul: return arith(K_MUL, x, y, ot, cres);
      case L_UDiv: case L_SDiv: case L_URem: case L_SRem: {
        if (!isC(y)) { Expr* z = cmp(K_EQ, y, mkConst(0, ot), cb == 0); if (z) branchOn(z, boolVal(z), 30); if (cb == 0) return 0; }
        if (op == L_UDiv || op == L_URem) { x = uns(x, ot); y = uns(y, ot); }
        bool pos = x->lo >= 0 && y->lo >= 0; bool dv = op == L_UDiv || op == L_SDiv; if (isC(x) && isC(y)) return 0;
        Expr* e = node(dv ? K_IDIV : K_IREM, ot, x, y, 0, pos ? 0 : 1, cres); if (!isC(y)) e->nonlin = true;
        i128 m = -x->lo > x->hi ? -x->lo : x->hi; i128 my = -y->lo > y->hi ? -y->lo : y->hi; if (my < 1) my = 1;
        if (dv) setNum(e, pos ? x->lo / (y->hi > 0 ? y->hi : 1) : -m, pos ? x->hi / (y->lo > 0 ? y->lo : 1) : m, 0); else { i128 r = my - 1 < m ? my - 1 : m; setNum(e, x->lo >= 0 ? 0 : -r, r, 0); }
        return fin(e, cres); }
      case L_Shl: { if (!isC(y)) { concretise(y); } int k = (int)cb; if (isC(x)) return 0; if (numbits(x->lo) + k > 118 || numbits(x->hi) + k > 118) { concretise(x); return 0; } Expr* e = node(K_SCALE, ot, x, 0, 0, k, cres); return intRes(e, x->lo << k, x->hi << k, ot, cres); }
      case L_LShr: case L_AShr: { if (!isC(y)) concretise(y); if (isC(x)) return 0; if (op == L_LShr) x = uns(x, ot); int k = (int)cb; if (k == 0) return asNum(a, ot); Expr* e = node(K_FDIV2, ot, x, 0, 0, k, cres); setNum(e, x->lo >> k, x->hi >> k, 0); return fin(e, cres); }
      case L_And: { if (isC(x)) std::swap(x, y); if (isC(y)) { u64 m = y->cv; if (m == 0) return 0; u64 full = ot == 64 ? ~0ull : (1ull << ot) - 1; if (m == full) return x; if (((m + 1) & m) == 0) { int k = __builtin_popcountll(m); if (x->lo >= 0 && x->hi <= (i128)m) return x; Expr* e = node(K_MOD2, ot, x, 0, 0, k, cres); setNum(e, 0, (i128)m, 0); return fin(e, cres); }
            u64 nm = ~m & full; if (((nm + 1) & nm) == 0) { int k = __builtin_popcountll(nm); Expr* e = node(K_MOD2, ot, x, 0, 0, k, x->cv & nm); setNum(e, 0, (i128)nm, 0); e->cv = x->cv & nm; return arith(K_SUB, x, e, ot, cres); } }
        g_unsup.insert("and"); concretise(x); concretise(y); return 0; }
      case L_Or: { auto tz = [](Expr* e) { if (e->k == K_SCALE) return (int)e->aux; if (isC(e)) return e->cv ? __builtin_ctzll(e->cv) : 63; return 0; };
        if (isC(y) && y->cv == 0) return x; if (isC(x) && x->cv == 0) return y;
        if (x->lo >= 0 && numbits(x->hi) <= tz(y)) return arith(K_ADD, x, y, ot, cres); if (y->lo >= 0 && numbits(y->hi) <= tz(x)) return arith(K_ADD, x, y, ot, cres);
        if (x->lo >= 0 && x->hi <= 1 && y->lo >= 0 && y->hi <= 1) { Expr *p = asNum(x, 1), *q = asNum(y, 1); if (!p) p = mkConst(x->cv & 1, 1); if (!q) q = mkConst(y->cv & 1, 1); Expr* r = mkOr(p, q); return isC(r) ? 0 : b2i(r, 1, ot, cres); }
        g_unsup.insert("or"); concretise(x); concretise(y); return 0; }
      case L_Xor: { if (isC(x)) std::swap(x, y); if (isC(y)) { u64 full = ot == 64 ? ~0ull : (1ull << ot) - 1; if ((y->cv & full) == full) { Expr* n = mkNeg(x, 65, 0); n->cv = 0; return arith(K_SUB, n, mkConst(1, ot), ot, cres); }
            if (y->cv == 1 && x->lo >= 0 && x->hi <= 1) return arith(K_SUB, mkConst(1, ot), x, ot, cres); }
        g_unsup.insert("xor"); concretise(x); concretise(y); return 0; }
    }
    return 0;
  }
  // unary / math
math: {
    Expr *x = a ? asNum(a, ot) : 0, *y = b ? asNum(b, ot) : 0, *z = c ? asNum(c, ot) : 0;
    if (!x && !y && !z) return 0;
    auto X = [&] { return x ? x : mkConst(ca, ot); }; auto Y = [&] { return y ? y : mkConst(cb, ot); };
    double da = isFp(ot) ? bitsToD(ca, ot) : 0, db = isFp(ot) ? bitsToD(cb, ot) : 0;
    switch (code) {
      case OP_FNEG: return mkNeg(x, ot, cres);
      case OP_FABS: return fabsE(x, ot, cres);
      case OP_SQRT: return sqrtE(x, ot, cres);
      case OP_FLOOR: return floorE(x, ot, cres);
      case OP_CEIL: { Expr* n = mkNeg(x, ot, dToBits(-da, ot)); Expr* f = floorE(n, ot, dToBits(floor(-da), ot)); return f ? mkNeg(f, ot, cres) : 0; }
      case OP_FTRUNC: { if (!x->inexact && x->f == 0) return x; Expr* t = truncz(x, ot, cres); return t; }
      case OP_ROUND: case OP_LROUND: { if (!x->inexact && x->f == 0) return code == OP_ROUND ? x : mkId(x, rt, cres);
        // half away from zero: sign(x) * floor(|x| + 1/2)
        Expr* ab = fabsE(x, ot, dToBits(fabs(da), ot)); Expr* h = constD(0.5, ot); Expr* s = node(K_ADD, TY_F64, ab, h, 0, 99, dToBits(fabs(da) + 0.5, TY_F64)); s->cv = dToBits(fabs(da) + 0.5, TY_F64);
        if (!ab->inexact) { int F = std::max(ab->f, 1); setNum(s, alignN(ab->lo, ab->f, F) + ((i128)1 << (F - 1)), alignN(ab->hi, ab->f, F) + ((i128)1 << (F - 1)), F); } else setReal(s, ab->dlo + .5, ab->dhi + .5);
        Expr* f = floorE(s, rt, isFp(rt) ? dToBits(floor(fabs(da) + .5), rt) : (u64)(i64)floor(fabs(da) + .5)); if (!f) return 0;
        if (x->dlo >= 0) { return fin(f, cres); }
        Expr* neg = cmp(K_LT, x, constD(0, ot), da < 0); if (!neg) return da < 0 ? mkNeg(f, rt, cres) : f;
        Expr* nf = mkNeg(f, rt, isFp(rt) ? dToBits(-floor(fabs(da) + .5), rt) : (u64) - (i64)floor(fabs(da) + .5)); return mkIte(neg, nf, f, rt, cres); }
      case OP_RINT: { lost("rint"); return 0; }
      case OP_HYPOT: { Expr *p = X(), *q = Y(); double sa = da * da, sb = db * db; Expr* pp = arith(K_MUL, p, p, TY_F64, dToBits(sa, TY_F64)); Expr* qq = arith(K_MUL, q, q, TY_F64, dToBits(sb, TY_F64)); if (!pp) pp = constD(sa, TY_F64); if (!qq) qq = constD(sb, TY_F64); Expr* s = arith(K_ADD, pp, qq, TY_F64, dToBits(sa + sb, TY_F64)); if (!s || isC(s)) return 0; return sqrtE(s, rt, cres); }
      case OP_FMAX: case OP_FMIN: { Expr *p = X(), *q = Y(); if (isnan(da) || isnan(db)) return isnan(da) ? y : x; bool c2 = da < db; Expr* l = cmp(K_LT, p, q, c2);
        bool wantB = code == OP_FMAX; if (!l) { bool tb = wantB ? c2 : !c2; return tb ? y : x; }
        if (!fpConstOk(ca, ot) && !x) { branchOn(l, c2, 22); return (wantB == c2) ? y : x; } if (!fpConstOk(cb, ot) && !y) { branchOn(l, c2, 22); return (wantB == c2) ? y : x; }
        return wantB ? mkIte(l, q, p, ot, cres) : mkIte(l, p, q, ot, cres); }
      case OP_SMAX: case OP_SMIN: case OP_UMAX: case OP_UMIN: { Expr *p = X(), *q = Y(); Expr *pu = p, *qu = q; bool v; if (code == OP_UMAX || code == OP_UMIN) { pu = uns(p, ot); qu = uns(q, ot); v = ca < cb; } else v = sx(ca, ot) < sx(cb, ot); Expr* l = cmp(K_LT, pu, qu, v); bool wantB = code == OP_SMAX || code == OP_UMAX; if (!l) return (wantB == v) ? y : x; return wantB ? mkIte(l, q, p, ot, cres) : mkIte(l, p, q, ot, cres); }
      case OP_IABS: { if (x->lo >= 0) return x; Expr* e = node(K_ABS, ot, x, 0, 0, 0, cres); i128 h = -x->lo > x->hi ? -x->lo : x->hi; setNum(e, 0, h, 0); return fin(e, cres); }
      case OP_COPYSIGN: { if (!y) { Expr* ab = fabsE(x, ot, dToBits(fabs(da), ot)); return signbit(db) ? mkNeg(ab, ot, cres) : ab; } Expr* neg = cmp(K_LT, y, constD(0, ot), db < 0); Expr* ab = x ? fabsE(x, ot, dToBits(fabs(da), ot)) : constD(fabs(da), ot); if (!neg) return db < 0 ? mkNeg(ab, ot, cres) : ab; Expr* n = mkNeg(ab, ot, dToBits(-fabs(da), ot)); return mkIte(neg, n, ab, ot, cres); }
      case OP_FMA: { double pd = da * db; Expr *p = X(), *q = Y(); Expr* m = arith(K_MUL, p, q, ot, dToBits(pd, ot)); if (!m) m = constD(pd, ot); Expr* zz = z ? z : mkConst(cc, ot); if (isC(m) && isC(zz)) return 0; return arith(K_ADD, m, zz, ot, cres); }
      case OP_FMOD: { Expr *p = X(), *q = Y(); if (isC(q) && (db == 0 || !isfinite(db))) { concretise(p); return 0; }
        if (!isC(q)) { concretise(q); q = mkConst(cb, ot); }
        if (!p->inexact && !q->inexact) { int F = std::max(p->f, q->f); if (fits(p->lo, F - p->f) && fits(p->hi, F - p->f) && fits(q->lo, F - q->f)) { i128 m = alignN(q->lo, q->f, F); if (m < 0) m = -m; i128 pl = alignN(p->lo, p->f, F), ph = alignN(p->hi, p->f, F); if (pl > -m && ph < m) return p; Expr* e = node(K_TRUNCREM, ot, p, q, 0, 0, cres); setNum(e, pl >= 0 ? 0 : std::max(-(m - 1), pl), ph <= 0 ? 0 : std::min(m - 1, ph), F); return fin(e, cres); } }
        // ideal: x - c*trunc(x/c)
        Expr* qd = fdivE(p, q, ot, dToBits(da / db, ot)); if (!qd) { lost("fmod"); return 0; } double tv = trunc(da / db); Expr* t = truncz(qd, ot, dToBits(tv, ot)); if (!t) return 0; Expr* tm = arith(K_MUL, t, q, ot, dToBits(tv * db, ot)); if (!tm) return p; return arith(K_SUB, p, tm, ot, cres); }
      case OP_LOG2: {  // enumerates the power-of-two interval 2^(k-1) < x <= 2^k and keeps the concrete value: ceil(log2(x)) is then exact
        Expr* q = X(); if (isC(q)) return 0; if (!(da > 0 && isfinite(da))) { lost("log2 domain"); return 0; }
        int k = (int)ceil(log2(da)), top = (int)ceil(log2(fmax(q->dhi, da))); if (top - k > 200) { lost("log2 range"); return 0; }
        for (int i = top; i >= k; i--) { Expr* c = cmp(K_LE, q, constD(ldexp(1, i - 1), ot), da <= ldexp(1, i - 1)); if (c) branchOn(c, da <= ldexp(1, i - 1), 25); }
        return 0; }
      default: {
        auto pick = [](Expr* e) -> Expr* { while (e) { while (e->k == K_ROUNDED || e->k == K_ID) e = e->a; if (e->k != K_ITE) break; bool c = boolVal(e->a); branchOn(e->a, c, 24); e = c ? e->b : e->c; if (isC(e)) return 0; } return e; };
        if (x) x = pick(x); if (y) y = pick(y); if (!x && !y && !z) return 0;
        auto big = [](Expr* e) { return e && (e->inexact || e->hi - e->lo > 4096); };
        if (big(x) || big(y)) { lost("math function " + std::to_string(code)); return 0; } if (x) concretise(x); if (y) concretise(y); if (z) concretise(z); return 0; }
    }
  }
}
Expr* __vp_op(u32 code, u32 rt, u32 ot, Expr* a, Expr* b, Expr* c, u64 ca, u64 cb, u64 cc, u64 cres) {
  if (!a && !b && !c) return 0; if (!g_active || g_in) return 0;
  Guard g; g_sites.insert((u64)__builtin_return_address(0));
  if (rt == TY_BAD || ot == TY_BAD || rt == TY_PTR) { if (code == OP_SELECT) { if (a) branchOn(a, ca & 1, 23); return 0; } concretise(a); concretise(b); concretise(c); return 0; }
  Expr* e = opImpl(code, rt, ot, a, b, c, ca, cb, cc, cres);
  if (!e || isC(e)) return 0;
  // the concrete value always comes from the real execution
  u64 m = isFp(rt) ? (rt == TY_F32 ? 0xffffffffull : ~0ull) : rt >= 64 ? ~0ull : ((1ull << rt) - 1);
  if ((e->cv & m) != (cres & m)) {
    if (isFp(rt)) { double p = bitsToD(e->cv, rt), q = bitsToD(cres, rt); if (p == q || fabs(p - q) <= 1e-9 * fmax(1.0, fabs(q))) { e->cv = cres; return e; } }
    if (g_checkOnly) return 0;
    char bf[200]; snprintf(bf, sizeof bf, "value mismatch op %u rt %u ot %u: %lx vs %lx (ca %lx cb %lx)", code, rt, ot, e->cv, cres, ca, cb); lost(bf); return 0;
  }
  return e;
}
}  // extern C

// ---------------------------------------------------------------- memory interposition
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void free(void* p) { if (p && g_active && !g_in) { __vp_clear(p, malloc_usable_size(p)); } __libc_free(p); }
extern "C" void* realloc(void* p, size_t n) {
  if (!p || !g_active || g_in) return __libc_realloc(p, n);
  size_t o = malloc_usable_size(p); void* q = __libc_malloc(n); if (!q) return 0; size_t m = o < n ? o : n; memcpy(q, p, m); __vp_copy(q, p, m); free(p); return q; }

// ---------------------------------------------------------------- harness API
static string uniq(const char* name0) { string nn(name0); for (char& ch : nn) if (ch == ' ') ch = '_'; const char* name = nn.c_str(); int k = g_nameCount[name]++; return k ? string(name) + "#" + std::to_string(k) : string(name); }
static u64 seedHash(const string& n) { u64 h = 1469598103934665603ull ^ (getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1) * 0x9E3779B97F4A7C15ull; for (char c : n) h = (h ^ (u8)c) * 1099511628211ull; return h ^ (h >> 29); }
static void setRet(Expr* e, void* fn) { __vp_ret[0] = e; __vp_ret_tag = fn; }
static Expr* newVar(Input& in, u8 ty, u64 cv) {
  int idx = g_inputs.size(); if (idx >= 512) { fprintf(stderr, "too many inputs\n"); _exit(98); }
  Expr* e = node(K_VAR, ty, 0, 0, 0, idx, cv); e->cv = cv; e->vs.b[idx >> 6] |= 1ull << (idx & 63);
  if (in.kind == 2) { e->inexact = e->ideal = true; e->dlo = in.dlo; e->dhi = in.dhi; } else setNum(e, in.lo, in.hi, in.f);
  in.e = e; g_inputs.push_back(in); return e;
}
static i128 inputNum(const string& n, i128 lo, i128 hi) { auto it = g_assign.find(n); if (it != g_assign.end()) { i128 v = s128(it->second); if (v < lo) v = lo; if (v > hi) v = hi; return v; } if (lo <= 0 && hi >= 0 && !getenv("VP_RANDOM_INIT")) { } return lo + (i128)(seedHash(n) % (u64)(hi - lo + 1)); }
extern "C" {
long vp_long(const char* name, long lo, long hi) { Guard g; Input in; in.name = uniq(name); in.kind = 0; in.lo = lo; in.hi = hi; in.f = 0; in.num = inputNum(in.name, lo, hi); Expr* e = newVar(in, 64, (u64)(i64)in.num); if (lo == hi) e = 0; setRet(e, (void*)vp_long); return (long)in.num; }
int vp_int(const char* name, int lo, int hi) { Guard g; Input in; in.name = uniq(name); in.kind = 0; in.lo = lo; in.hi = hi; in.f = 0; in.num = inputNum(in.name, lo, hi); Expr* e = newVar(in, 32, (u64)(u32)(i64)in.num); if (lo == hi) e = 0; setRet(e, (void*)vp_int); return (int)in.num; }
bool vp_bool(const char* name) { Guard g; Input in; in.name = uniq(name); in.kind = 3; in.lo = 0; in.hi = 1; in.f = 0; in.num = inputNum(in.name, 0, 1); Expr* e = newVar(in, 1, (u64)in.num); setRet(e, (void*)vp_bool); return in.num != 0; }
double vp_grid(const char* name, int lo, int hi, int fb) { Guard g; Input in; in.name = uniq(name); in.kind = 1; in.lo = lo; in.hi = hi; in.f = fb; in.num = inputNum(in.name, lo, hi); double v = ldexp((double)in.num, -fb); Expr* e = newVar(in, TY_F64, dToBits(v, TY_F64)); if (lo == hi) e = 0; setRet(e, (void*)vp_grid); return v; }
float vp_gridf(const char* name, int lo, int hi, int fb) { Guard g; Input in; in.name = uniq(name); in.kind = 1; in.lo = lo; in.hi = hi; in.f = fb; in.num = inputNum(in.name, lo, hi); double v = ldexp((double)in.num, -fb); Expr* e = newVar(in, TY_F32, dToBits(v, TY_F32)); if (lo == hi) e = 0; setRet(e, (void*)vp_gridf); return (float)v; }
double vp_real(const char* name, double lo, double hi) { Guard g; Input in; in.name = uniq(name); in.kind = 2; in.dlo = lo; in.dhi = hi; in.lo = in.hi = 0; in.f = 0; auto it = g_assign.find(in.name); double v; if (it != g_assign.end()) { u64 x = strtoull(it->second.c_str() + 1, 0, 16); memcpy(&v, &x, 8); } else v = lo + (hi - lo) * ((seedHash(in.name) % 1000) / 1000.0); in.val = v; Expr* e = newVar(in, TY_F64, dToBits(v, TY_F64)); setRet(e, (void*)vp_real); return v; }
int vp_choice(const char* name, int n) {
  Guard g; Input in; in.name = uniq(name); in.kind = 4; in.lo = 0; in.hi = n - 1; in.f = 0; auto it = g_assign.find(in.name); in.num = it != g_assign.end() ? s128(it->second) : 0; Expr* e = newVar(in, 32, (u64)in.num);
  (void)e; size_t idx = g_dec.size(); g_dec.push_back((char)('A' + (int)in.num % 60));
  if (!g_checkOnly) { if (idx < g_bound) { if (g_expect[idx] != g_dec[idx]) divergence(false); } else for (int v = 0; v < n; v++) if (v != (int)in.num) { std::map<int, string> m; m[g_inputs.size() - 1] = std::to_string(v); string d = g_dec; d.back() = (char)('A' + v % 60); sendLine("T" + d + " " + assignStr(m)); } }
  setRet(0, (void*)vp_choice); return (int)in.num; }
int vp_conc(int v) { Guard g; Expr* e = __vp_arg_tag == (void*)vp_conc ? __vp_args[0] : 0; __vp_arg_tag = 0; if (e) { Expr* x = asNum(e, 32); concretise(x); } setRet(0, (void*)vp_conc); return v; }
static Expr* argE(int i, void* fn) { return __vp_arg_tag == fn ? __vp_args[i] : 0; }
#define FN(f) ((void*)(f))
bool vp_and(bool a, bool b) { Guard g; Expr *x = argE(0, FN(vp_and)), *y = argE(1, FN(vp_and)); __vp_arg_tag = 0; bool r = a & b; Expr* e = 0; if (x || y) { e = mkAnd(operand(x, a, 1), operand(y, b, 1)); if (isC(e)) e = 0; } setRet(e, FN(vp_and)); return r; }
bool vp_or(bool a, bool b) { Guard g; Expr *x = argE(0, FN(vp_or)), *y = argE(1, FN(vp_or)); __vp_arg_tag = 0; bool r = a | b; Expr* e = 0; if (x || y) { e = mkOr(operand(x, a, 1), operand(y, b, 1)); if (isC(e)) e = 0; } setRet(e, FN(vp_or)); return r; }
double vp_ite(bool c, double a, double b) { Guard g; Expr *k = argE(0, FN(vp_ite)), *x = argE(1, FN(vp_ite)), *y = argE(2, FN(vp_ite)); __vp_arg_tag = 0; double r = c ? a : b; Expr* e = 0; if (k) k = asNum(k, 1);
  if (k && !isC(k)) e = mkIte(k, operand(x, dToBits(a, TY_F64), TY_F64), operand(y, dToBits(b, TY_F64), TY_F64), TY_F64, dToBits(r, TY_F64)); else e = c ? x : y; if (e && isC(e)) e = 0; setRet(e, FN(vp_ite)); return r; }
int vp_itei(bool c, int a, int b) { Guard g; Expr *k = argE(0, FN(vp_itei)), *x = argE(1, FN(vp_itei)), *y = argE(2, FN(vp_itei)); __vp_arg_tag = 0; int r = c ? a : b; Expr* e = 0; if (k) k = asNum(k, 1);
  if (k && !isC(k)) e = mkIte(k, operand(x, (u64)(i64)a, 32), operand(y, (u64)(i64)b, 32), 32, (u64)(u32)r); else e = c ? x : y; if (e && isC(e)) e = 0; setRet(e, FN(vp_itei)); return r; }
void vp_assume(bool c) {
  Guard g; Expr* e = __vp_arg_tag == (void*)vp_assume ? __vp_args[0] : 0; __vp_arg_tag = 0; if (e) e = asNum(e, 1);
  if (!e || isC(e)) { if (!c) finishPath("assume"); return; }
  if (g_checkOnly) { if (!c) finishPath("assume"); return; }
  Expr* base = e; bool want = true; if (base->k == K_NOT) { base = base->a; want = false; }
  auto it = g_known.find(base); if (it != g_known.end()) { if (!c) finishPath("assume"); return; }
  size_t idx = g_dec.size(); g_dec.push_back('a');
  if (!c) { if (idx >= g_bound) { std::map<int, string> m; if (query(base, want, &m, true) == SAT) sendLine("T" + g_dec + " " + assignStr(m)); finishPath("assume"); } finishPath("boundary"); }
  if (idx < g_bound && g_expect[idx] != 'a') divergence(false);
  g_known[base] = want; g_pc.push_back(want ? base : mkNot(base));
}
void vp_assert_(bool c, const char* id) {
  Guard g; Expr* e = __vp_arg_tag == (void*)vp_assert_ ? __vp_args[0] : 0; __vp_arg_tag = 0; if (e) e = asNum(e, 1); st_asserts++;
  string notes; for (auto& n : g_notes) notes += (notes.empty() ? "" : "|") + n;
  if (!c) { sendLine(string("V") + id + "\x1f" + notes + "\x1f" + assignStr({})); finishPath("violation"); }
  if (!e || isC(e) || g_checkOnly) return;
  Expr* base = e; bool want = true; if (base->k == K_NOT) { base = base->a; want = false; }
  auto it = g_known.find(base); if (it != g_known.end()) return;
  if (g_dec.size() < g_bound) return;  // already discharged by the parent path? (the prefix is shared, but only up to the flipped branch)
  st_assertq++; std::map<int, string> m; Res r = query(base, !want, &m, true);
  if (r == SAT) { sendLine(string("V") + id + "\x1f" + notes + "\x1f" + assignStr(m)); }
}
void vp_reach(const char* l) { Guard g; sendLine(string("R") + l); }
void vp_note(const char* t) { Guard g; g_notes.push_back(t); }
void vp_observe(const char* n, double v) { Guard g; char b[100]; snprintf(b, sizeof b, "%s:%.9g,", n, v == 0 ? 0.0 : v); g_obs += b; __vp_arg_tag = 0; }
}
static void finishPath(const char* how) {
  Guard g; g_active = false; string alt;
  // alternate model of the same path: validates that no data flow escaped the shadow tracking
  if (!strcmp(how, "end") && !g_checkOnly && !g_pc.empty() && getenv("VP_ALT") && (seedHash(g_dec) % strtoull(getenv("VP_ALT"), 0, 10)) == 0) {
    for (size_t i = 0; i < g_inputs.size() && alt.empty(); i++) { Input& in = g_inputs[(i * 7 + g_dec.size()) % g_inputs.size()]; if (in.kind == 2 || in.kind == 3 || in.kind == 4 || in.lo == in.hi) continue;
      // ask for a different value of this input
      Expr* m = node(K_CONST, in.e->ty, 0, 0, 0, 8, (u64)in.num, true); setNum(m, in.num, in.num, in.f); Expr* q = cmp(K_EQ, in.e, m, true); if (!q) continue; std::map<int, string> mod; if (query(q, false, &mod, false) == SAT) alt = assignStr(mod); }
  }
  char b[600]; snprintf(b, sizeof b, "D%s %lu %lu %lu %lu %lu %lu %.4f %.4f %lu %lu %lu %lu %016lx", how, g_dec.size(), st_queries, st_sat, st_unsat, st_asserts, st_assertq, st_time, st_maxtime, st_e1, st_e2, g_hashEvents, (u64)g_all.size(), g_hash); sendLine(b);
  if (!alt.empty()) sendLine("A" + alt);
  sendLine("I" + assignStr({}) + " " + g_obs);
  for (auto& l : g_lost) sendLine("L" + l); for (auto& l : g_unsup) sendLine("N" + l);
  string s = "S"; for (u64 x : g_sites) { char q[24]; snprintf(q, sizeof q, "%lx,", x); s += q; } sendLine(s);
  _exit(0);
}
// ---------------------------------------------------------------- coordinator
struct Task { string dec, assign; bool check = false; u64 hash = 0; };
static void parseAssign(const string& s) { size_t p = 0; while (p < s.size()) { size_t e = s.find('=', p), q = s.find(';', p); if (e == string::npos || q == string::npos) break; g_assign[s.substr(p, e - p)] = s.substr(e + 1, q - e - 1); p = q + 1; } }
static string jesc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
extern "C" __attribute__((weak)) void vp_setup() {}
int main(int argc, char** argv) {
  if (!getenv("VP_NOASLR")) { setenv("VP_NOASLR", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
  double T0 = now(), firstV = 0, graceV = getenv("VP_GRACE") ? atof(getenv("VP_GRACE")) : 0; double budget = getenv("VP_TIME") ? atof(getenv("VP_TIME")) : 60; int J = getenv("VP_JOBS") ? atoi(getenv("VP_JOBS")) : 8; size_t maxV = getenv("VP_MAXV") ? atoi(getenv("VP_MAXV")) : 12; double childLimit = getenv("VP_CHILD") ? atof(getenv("VP_CHILD")) : 120;
  if (getenv("VP_ENGINE")) g_pref = !strcmp(getenv("VP_ENGINE"), "bv") ? 2 : 1; if (getenv("VP_QT")) g_timeout = atoi(getenv("VP_QT"));
  g_in = true; g_pages = new std::unordered_map<u64, Page*>(); Z = new z3::context(); auxC = new std::unordered_map<u32, z3::expr>(); mm2 = new std::unordered_map<u32, B2>(); mb2 = new std::unordered_map<u32, z3::expr>();
  { z3::solver s(*Z, z3::solver::simple()); z3::expr x = Z->int_const("warm"); s.add(x > 3); s.check(); z3::solver t(*Z, "QF_BV"); z3::expr y = Z->bv_const("warmb", 8); t.add(y > 3); t.check(); }
  g_in = false; vp_setup(); g_in = true;
  struct Child { pid_t pid; int fd; string buf; Task t; bool done; double t0; string how; };
  std::deque<Task> q; q.push_back(Task{}); vector<Child*> run; 
  u64 paths = 0, crashes = 0, assumeEnd = 0, boundary = 0, diverged = 0, events = 0, queries = 0, sat = 0, unsat = 0, asserts = 0, assertq = 0, unk = 0, e1 = 0, e2 = 0, altOk = 0, altBad = 0, maxEv = 0, hashEv = 0; double stime = 0, smax = 0;
  std::map<string, u64> reach, lostM, unsup, unkWhy; std::set<u64> sites; struct V { string id, notes, assign; bool crash; }; vector<V> viol; std::set<string> vseen; vector<string> samples; bool timeout = false; vector<string> altBadS, divS;
  u64 sampleEvery = 1;
  while (!q.empty() || !run.empty()) {
    double el = now() - T0; if (!viol.empty() && !firstV) firstV = el; if (el > budget || (firstV && graceV > 0 && el > firstV + graceV)) { timeout = !firstV && !(q.empty() && run.empty()); break; }
    if (viol.size() >= maxV) break;
    while ((int)run.size() < J && !q.empty()) {
      Task t = q.back(); q.pop_back(); int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); for (auto* c : run) close(c->fd); g_pipe = fd[1]; struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); int dn = open("/dev/null", O_WRONLY); if (!getenv("VP_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
        signal(SIGABRT, SIG_DFL); alarm((unsigned)childLimit); parseAssign(t.assign); g_expect = t.dec; g_bound = t.dec.size(); g_checkOnly = t.check; if (t.check) g_bound = 0;
        g_in = false; g_active = true; vp_property(); finishPath("end");
      }
      close(fd[1]); run.push_back(new Child{p, fd[0], "", t, false, now(), ""});
    }
    vector<pollfd> pf; for (auto* c : run) pf.push_back({c->fd, POLLIN, 0}); poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < run.size();) {
      Child* c = run[i]; bool closed = false; bool ready = false; for (auto& x : pf) if (x.fd == c->fd && x.revents) ready = true;
      if (ready) { char b[65536]; ssize_t n = read(c->fd, b, sizeof b); if (n <= 0) closed = true; else c->buf.append(b, n); }
      size_t nl; size_t pos = 0;
      while ((nl = c->buf.find('\n', pos)) != string::npos) {
        string L = c->buf.substr(pos, nl - pos); pos = nl + 1; if (L.empty()) continue;
        switch (L[0]) {
          case 'T': { size_t sp = L.find(' '); Task t; t.dec = L.substr(1, sp - 1); t.assign = L.substr(sp + 1); q.push_back(t); break; }
          case 'V': { size_t a = L.find('\x1f'), b = L.find('\x1f', a + 1); V v{L.substr(1, a - 1), L.substr(a + 1, b - a - 1), L.substr(b + 1), false}; if (vseen.insert(v.id + v.notes).second || viol.size() < 3) viol.push_back(v); break; }
          case 'R': reach[L.substr(1)]++; break;
          case 'L': lostM[L.substr(1)]++; break; case 'N': unsup[L.substr(1)]++; break;
          case 'U': unk++; unkWhy[L.substr(1)]++; break;
          case 'A': { Task t; t.assign = L.substr(1); t.check = true; t.hash = c->t.hash; q.push_back(t); break; }
          case 'I': if (samples.size() < 400 && c->how == "end" && !c->t.check) samples.push_back(L.substr(1)); break;
          case 'S': { size_t p = 1; while (p < L.size()) { size_t e = L.find(',', p); if (e == string::npos) break; sites.insert(strtoull(L.substr(p, e - p).c_str(), 0, 16)); p = e + 1; } break; }
          case 'D': { char how[40]; unsigned long ev, qn, s1, u1, as, aq, x1, x2, he, nn, hh; double tt, tm; if (sscanf(L.c_str() + 1, "%39s %lu %lu %lu %lu %lu %lu %lf %lf %lu %lu %lu %lu %lx", how, &ev, &qn, &s1, &u1, &as, &aq, &tt, &tm, &x1, &x2, &he, &nn, &hh) == 14) {
              c->done = true; c->how = how; queries += qn; sat += s1; unsat += u1; stime += tt; if (tm > smax) smax = tm; e1 += x1; e2 += x2;
              if (c->t.check) { if (hh == c->t.hash) altOk++; else { altBad++; if (altBadS.size() < 5) altBadS.push_back(c->t.assign); } }
              else { c->t.hash = hh; string h = how; if (h == "end" || h == "violation") { paths++; events += ev; asserts += as; assertq += aq; hashEv += he; if (ev > maxEv) maxEv = ev; } else if (h == "assume") assumeEnd++; else if (h == "boundary") boundary++; else { diverged++; if (divS.size() < 5) divS.push_back(c->t.dec + " " + c->t.assign); } } }
            break; }
        }
      }
      c->buf.erase(0, pos);
      if (closed) {
        int st; waitpid(c->pid, &st, 0); close(c->fd);
        if (!c->done) { crashes++; string id; if (WIFSIGNALED(st)) id = string("crash-signal-") + std::to_string(WTERMSIG(st)); else id = "exit-" + std::to_string(WEXITSTATUS(st)); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { unk++; unkWhy["child time limit"]++; } else if (!(WIFEXITED(st) && WEXITSTATUS(st) >= 98)) { if (vseen.insert(id + c->t.dec.substr(0, 6)).second) viol.push_back({id, "", c->t.assign, true}); } else { unk++; unkWhy["runtime error exit"]++; } }
        delete c; run.erase(run.begin() + i); pf.clear(); for (auto* d : run) pf.push_back({d->fd, 0, 0}); continue; }
      i++;
    }
  }
  size_t pending = q.size() + run.size(); for (auto* c : run) kill(c->pid, SIGKILL);
  FILE* o = argc > 1 ? fopen(argv[1], "w") : stdout;
  Dl_info di; u64 base = 0; if (dladdr((void*)&vp_property, &di)) base = (u64)di.dli_fbase;
  fprintf(o, "{\"paths\":%lu,\"crashes\":%lu,\"assume_pruned\":%lu,\"boundary\":%lu,\"diverged\":%lu,\"events\":%lu,\"max_events\":%lu,\"branches_executed\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"e1\":%lu,\"e2\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"timeout\":%s,\"pending\":%zu,\"alt_ok\":%lu,\"alt_bad\":%lu,\"base\":%lu,\n", paths, crashes, assumeEnd, boundary, diverged, events, maxEv, hashEv, queries, sat, unsat, unk, asserts, assertq, e1, e2, stime, smax, now() - T0, timeout ? "true" : "false", pending, altOk, altBad, base);
  auto pm = [&](const char* n, std::map<string, u64>& m) { fprintf(o, "\"%s\":{", n); bool f = true; for (auto& kv : m) { fprintf(o, "%s\"%s\":%lu", f ? "" : ",", jesc(kv.first).c_str(), kv.second); f = false; } fprintf(o, "},\n"); };
  pm("reach", reach); pm("lost", lostM); pm("unsupported", unsup); pm("unknown_why", unkWhy);
  auto pv = [&](const char* n, vector<string>& v) { fprintf(o, "\"%s\":[", n); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(v[i]).c_str()); fprintf(o, "],\n"); };
  pv("samples", samples); pv("alt_bad_samples", altBadS); pv("diverged_samples", divS);
  fprintf(o, "\"sites\":["); bool f = true; for (u64 s : sites) { fprintf(o, "%s%lu", f ? "" : ",", s - base); f = false; } fprintf(o, "],\n\"violations\":[");
  for (size_t i = 0; i < viol.size(); i++) fprintf(o, "%s{\"id\":\"%s\",\"notes\":\"%s\",\"assign\":\"%s\",\"crash\":%s}", i ? "," : "", jesc(viol[i].id).c_str(), jesc(viol[i].notes).c_str(), jesc(viol[i].assign).c_str(), viol[i].crash ? "true" : "false");
  fprintf(o, "]}\n"); fclose(o); fflush(0); _exit(0);
}
