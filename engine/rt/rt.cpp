// vfsym runtime: symbolic doubles (NaN-boxed), path exploration by fork, z3 decision queries.
#include "poly.hpp"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <functional>
#include <new>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include "../vf.h"

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<int> tokens, lock, live, stop;
  std::atomic<long> paths, pruned, branches, forks, q, qsat, qunsat, qunk, qus, asserts, proved_nf, proved_z3, undecided,
      cands, errors, aborts, ext, maxnodes, maxvars, concrete_asserts, choices;
  std::atomic<int> nreach, nfn, nerr, nund, nlab, ncandlab;
  char reach[512][96];
  char fn[6000][160];
  char err[128][240];
  char und[128][120];
  char lab[1024][96];
  std::atomic<long> labn[1024];
  char candlab[128][120];
  int candn[128];
  int sampn[64];
};
static Shared *S;
static void lk() { while (S->lock.exchange(1)) usleep(50); }
static void ulk() { S->lock = 0; }
static int tabadd(char *tab, int w, int max, std::atomic<int> &n, const char *s, bool *fresh = nullptr) {
  if (fresh) *fresh = false;
  lk();
  int k = n;
  for (int i = 0; i < k; i++)
    if (!strncmp(tab + (size_t)i * w, s, w - 1)) { ulk(); return i; }
  if (k < max) {
    strncpy(tab + (size_t)k * w, s, w - 1);
    n = k + 1;
    if (fresh) *fresh = true;
  } else k = max - 1;
  ulk();
  return k;
}
// ---------------------------------------------------------------- path state
struct Val {
  Poly num;
  std::vector<std::pair<int, int>> den; // (prim poly id, exponent), sorted
  bool isConst() const { return den.empty() && num.isConst(); }
};
static std::string g_harness = "?", g_out = ".";
static int g_hidx = 0;
static double g_t0, g_deadline = 1e18, g_qto = 5, g_ato = 20;
static int g_thorough = 0, g_forkmode = 0, g_expect_abort = 0, g_haveext = 1;
static bool g_inpath = false, g_pathunk = false;
static long g_npathq = 0;
static const uint64_t TAGHI = 0x7FF45A5Aull, QTAGHI = 0x7FFC5A5Aull, NTAGHI = 0xFFF45A5Aull, NQTAGHI = 0xFFFC5A5Aull;
static const uint64_t GARB = (TAGHI << 32) | 1;
static std::vector<Val> nodes;          // id -> value; id 0 unused, id 1 garbage
static std::vector<Poly> polys;         // interned primitive polynomials
static std::vector<uint8_t> allowed;    // sign mask per poly: 1 neg, 2 zero, 4 pos
static std::vector<uint8_t> signtried;
static std::unordered_map<std::string, int> polyidx;
struct Atom { int p; uint8_t m; };
static std::vector<Atom> pc;
enum DK { D_INPUT, D_POS, D_ITE, D_SQRT, D_ALIAS, D_UF };
struct Var {
  std::string name; int kind; // DK
  Val a, b; int mask; std::string fn; // ITE: (a in mask)? b : 0 ; UF: fn(a) or fn(a,b)
};
static std::vector<Var> vars;
static std::vector<double> model; // NaN unknown
static std::unordered_map<std::string, int> auxidx;
static std::map<uint32_t, Val> sigma;
struct Input { int var; }; // order of creation
static std::vector<int> inputs;
static std::vector<int> choices;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
[[noreturn]] static void endpath(int kind);
[[noreturn]] static void engine_error(const char *fmt, ...) {
  char b[240];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  std::string s = g_harness + ": " + b;
  tabadd(&S->err[0][0], 240, 128, S->nerr, s.c_str());
  S->errors++;
  if (getenv("VF_ABORT_ON_ERROR")) { signal(SIGABRT, SIG_DFL); abort(); }
  endpath(3);
}
// ---------------------------------------------------------------- interning
static int internPrim(const Poly &p, mpq_class &content) { // p nonconstant or constant
  content = p.t[0].second;
  Poly q = content == 1 ? p : pscale(p, 1 / content);
  std::string k = pkey(q);
  auto it = polyidx.find(k);
  if (it != polyidx.end()) return it->second;
  int id = polys.size();
  polys.push_back(q);
  uint8_t al = 7;
  // syntactic sign: all monomials even with same-sign coefficients
  bool even = true, hasc = false;
  for (auto &x : q.t) {
    if (x.second < 0) even = false;
    if (x.first.empty()) hasc = true;
    for (auto e : x.first) if (mexp(e) & 1) {
      // odd power of a nonnegative auxiliary (sqrt, pos) is still nonnegative
      int kd = vars[mvar(e)].kind;
      if (kd != D_SQRT && kd != D_POS) even = false;
    }
  }
  if (even) al = hasc ? 4 : 6;
  allowed.push_back(al);
  signtried.push_back(0);
  polyidx.emplace(k, id);
  return id;
}
static uint8_t flip(uint8_t m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static int newvar(const std::string &name, int kind, double mv) {
  int v = vars.size();
  Var x; x.name = name; x.kind = kind; x.mask = 0;
  vars.push_back(x);
  model.push_back(mv);
  return v;
}
// ---------------------------------------------------------------- values
static Val vconst(const mpq_class &c) { Val v; v.num = pconst(c); return v; }
static Val vvar(int v) { Val r; r.num = pvar(v); return r; }
static mpq_class toq(double d) { return mpq_class(d); }
static void reduce(Val &v) {
  if (v.num.isZero()) { v.den.clear(); return; }
  for (size_t i = 0; i < v.den.size();) {
    Poly q;
    while (v.den[i].second > 0 && v.num.t.size() >= polys[v.den[i].first].t.size() && pdivexact(v.num, polys[v.den[i].first], q)) {
      v.num = q;
      v.den[i].second--;
    }
    if (v.den[i].second == 0) v.den.erase(v.den.begin() + i);
    else i++;
  }
}
static const size_t MAXTERMS = 1500;
static Val aliasOf(const Val &v);
static Val capped(Val v) {
  if (v.num.t.size() > MAXTERMS) return aliasOf(v);
  return v;
}
static Poly ppow(const Poly &p, int e) { Poly r = pconst(1); while (e-- > 0) r = pmul(r, p); return r; }
static Val vadd(const Val &a, const Val &b, int sgn = 1) {
  if (a.den.empty() && b.den.empty()) { Val r; r.num = padd(a.num, b.num, mpq_class(sgn)); return capped(r); }
  Val r;
  Poly fa = pconst(1), fb = pconst(1);
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    int pa = i < a.den.size() ? a.den[i].first : INT32_MAX, pb = j < b.den.size() ? b.den[j].first : INT32_MAX;
    int p = std::min(pa, pb), ea = pa == p ? a.den[i].second : 0, eb = pb == p ? b.den[j].second : 0;
    if (pa == p) i++;
    if (pb == p) j++;
    int e = std::max(ea, eb);
    if (e > ea) fa = pmul(fa, ppow(polys[p], e - ea));
    if (e > eb) fb = pmul(fb, ppow(polys[p], e - eb));
    r.den.push_back({p, e});
  }
  if (a.num.t.size() * fa.t.size() > 40000 || b.num.t.size() * fb.t.size() > 40000) return vadd(aliasOf(a), aliasOf(b), sgn);
  r.num = padd(pmul(a.num, fa), pmul(b.num, fb), mpq_class(sgn));
  reduce(r);
  return capped(r);
}
static Val vmul(const Val &a0, const Val &b0) {
  if (a0.den.empty() && b0.den.empty()) {
    if (a0.num.t.size() * b0.num.t.size() > 40000) return vmul(aliasOf(a0), aliasOf(b0));
    Val r; r.num = pmul(a0.num, b0.num); return capped(r);
  }
  Val a = a0, b = b0;
  // cross cancel
  Val x; x.num = a.num; x.den = b.den; reduce(x);
  Val y; y.num = b.num; y.den = a.den; reduce(y);
  if (x.num.isZero() || y.num.isZero()) return vconst(0);
  if (x.num.t.size() * y.num.t.size() > 40000) return vmul(aliasOf(a0), aliasOf(b0));
  Val r;
  r.num = pmul(x.num, y.num);
  std::map<int, int> d;
  for (auto &e : x.den) d[e.first] += e.second;
  for (auto &e : y.den) d[e.first] += e.second;
  for (auto &e : d) r.den.push_back(e);
  return capped(r);
}
static Val vneg(const Val &a) { Val r = a; for (auto &x : r.num.t) x.second = -x.second; return r; }
static Val vscale(const Val &a, const mpq_class &c) { Val r = a; r.num = pscale(a.num, c); if (c == 0) r.den.clear(); return r; }
static Val vinv(const Val &b) { // b nonzero
  Val r;
  r.num = pconst(1);
  for (auto &e : b.den) r.num = pmul(r.num, ppow(polys[e.first], e.second));
  // monomial content of b.num
  Poly n = b.num;
  Mono mc = n.t[0].first;
  for (auto &x : n.t) {
    Mono k;
    size_t i = 0, j = 0;
    while (i < mc.size() && j < x.first.size()) {
      if (mvar(mc[i]) == mvar(x.first[j])) { k.push_back(mvar(mc[i]) * 64 + std::min(mexp(mc[i]), mexp(x.first[j]))); i++; j++; }
      else if (mvar(mc[i]) < mvar(x.first[j])) i++;
      else j++;
    }
    mc = k;
  }
  std::map<int, int> d;
  if (!mc.empty()) {
    for (auto &x : n.t) { Mono q; mdiv(x.first, mc, q); x.first = q; }
    for (auto e : mc) { mpq_class c; d[internPrim(pvar(mvar(e)), c)] += mexp(e); }
  }
  if (n.isConst()) r.num = pscale(r.num, 1 / n.cst());
  else {
    mpq_class c;
    int id = internPrim(n, c);
    r.num = pscale(r.num, 1 / c);
    d[id] += 1;
  }
  for (auto &e : d) r.den.push_back(e);
  reduce(r);
  return r;
}
static double valdouble(const Val &v) {
  double n = peval(v.num, model);
  for (auto &e : v.den) n /= std::pow(peval(polys[e.first], model), e.second);
  return n;
}
static std::string vkey(const Val &v) {
  std::string s = pkey(v.num) + "/";
  for (auto &e : v.den) s += std::to_string(e.first) + "^" + std::to_string(e.second) + " ";
  return s;
}
static Val norm(const Val &v);
static Val aliasOf(const Val &v0) {
  if (v0.num.t.size() <= 3) return v0;
  Val v = norm(v0);
  if (v.num.t.size() <= 3) return v;
  std::string k = "A" + vkey(v);
  auto it = auxidx.find(k);
  if (it != auxidx.end()) return vvar(it->second);
  int x = newvar("alias", D_ALIAS, valdouble(v));
  vars[x].a = v;
  auxidx[k] = x;
  return vvar(x);
}
// substitution
static bool polyHas(const Poly &p, uint32_t v) {
  for (auto &x : p.t) for (auto e : x.first) if (mvar(e) == v) return true;
  return false;
}
static bool polyTouches(const Poly &p) {
  if (sigma.empty()) return false;
  for (auto &x : p.t) for (auto e : x.first) if (sigma.count(mvar(e))) return true;
  return false;
}
static Val substPoly(const Poly &p, const std::map<uint32_t, Val> &sg) {
  // group: fast path for untouched terms
  Val acc; Poly rest;
  for (auto &x : p.t) {
    bool touch = false;
    for (auto e : x.first) if (sg.count(mvar(e))) { touch = true; break; }
    if (!touch) { rest.t.push_back(x); continue; }
    Val m = vconst(x.second); Mono keep;
    for (auto e : x.first) {
      auto it = sg.find(mvar(e));
      if (it == sg.end()) keep.push_back(e);
      else for (unsigned k = 0; k < mexp(e); k++) m = vmul(m, it->second);
    }
    Val km; km.num.t.push_back(Term(keep, mpq_class(1)));
    acc = vadd(acc, vmul(m, km));
  }
  Val r; r.num = rest;
  return vadd(r, acc);
}
static Val substVal(const Val &v, const std::map<uint32_t, Val> &sg) {
  Val r = substPoly(v.num, sg);
  for (auto &e : v.den) {
    bool touch = false;
    for (auto &x : polys[e.first].t) for (auto m : x.first) if (sg.count(mvar(m))) touch = true;
    Val d;
    if (!touch) { d.num = pconst(1); d.den.push_back({e.first, e.second}); r = vmul(r, d); }
    else {
      Val s = substPoly(polys[e.first], sg);
      if (s.num.isZero()) engine_error("substitution makes a denominator zero");
      Val i = vinv(s);
      for (int k = 0; k < e.second; k++) r = vmul(r, i);
    }
  }
  return r;
}
// exact mode: squares of square roots are replaced by the radicand; roots of constants leave denominators
static bool g_exact = false;
static int g_nsqrt = 0;
static Val sqred(const Val &v0) {
  if (!g_exact || !g_nsqrt) return v0;
  Val v = v0;
  for (size_t i = 0; i < v.den.size(); i++) {
    const Poly &p = polys[v.den[i].first];
    if (p.t.size() != 1 || p.t[0].first.size() != 1) continue;
    uint32_t x = mvar(p.t[0].first[0]); int e = v.den[i].second;
    if (vars[x].kind != D_SQRT || !vars[x].a.isConst()) continue;
    v.den.erase(v.den.begin() + i); i--;
    mpq_class c = 1; for (int k = 0; k < (e + 1) / 2; k++) c *= vars[x].a.num.cst();
    if (e & 1) v.num = pmul(v.num, pvar(x));
    v.num = pscale(v.num, 1 / c);
  }
  for (int it = 0; it < 20; it++) {
    bool any = false;
    for (auto &t : v.num.t) for (auto e : t.first) if (mexp(e) > 1 && vars[mvar(e)].kind == D_SQRT) any = true;
    if (!any) break;
    Val acc; Poly rest;
    for (auto &t : v.num.t) {
      bool touch = false;
      for (auto e : t.first) if (mexp(e) > 1 && vars[mvar(e)].kind == D_SQRT) touch = true;
      if (!touch) { rest.t.push_back(t); continue; }
      Mono m; Val f = vconst(1);
      for (auto e : t.first) {
        if (mexp(e) < 2 || vars[mvar(e)].kind != D_SQRT) { m.push_back(e); continue; }
        for (int k = 0; k < (int)mexp(e) / 2; k++) f = vmul(f, vars[mvar(e)].a);
        if (mexp(e) & 1) m.push_back(mvar(e) * 64 + 1);
      }
      Val q; q.num.t.push_back(Term(m, t.second));
      acc = vadd(acc, vmul(q, f));
    }
    Val r; r.num = rest; r = vadd(r, acc);
    if (!v.den.empty()) { Val d; d.num = pconst(1); d.den = v.den; r = vmul(r, d); }
    v = r;
  }
  return v;
}
static Val norm(const Val &v0) {
  Val v = sqred(v0);
  if (sigma.empty()) return v;
  bool t = polyTouches(v.num);
  for (auto &e : v.den) if (!t && polyTouches(polys[e.first])) t = true;
  return t ? sqred(substVal(v, sigma)) : v;
}
// ---------------------------------------------------------------- z3
static Z3_context Z;
static Z3_sort ZR;
static std::unordered_map<int, Z3_ast> zvarc;
static std::unordered_map<int, Z3_ast> zpolyc;
static volatile bool z_busy = false;
static void onstop(int) { S->stop = 1; }
static void onalrm(int) { if (z_busy) Z3_interrupt(Z); }
static void zerr(Z3_context c, Z3_error_code e) {
  if (z_busy) return; // interrupted
  fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e));
}
static void zinit() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, zerr);
  ZR = Z3_mk_real_sort(Z);
}
static Z3_ast znum(const mpq_class &c) { return Z3_mk_numeral(Z, c.get_str().c_str(), ZR); }
static Z3_ast zvar(int v) {
  auto it = zvarc.find(v);
  if (it != zvarc.end()) return it->second;
  std::string n = "v" + std::to_string(v);
  Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), ZR);
  zvarc[v] = a;
  return a;
}
static Z3_ast zpoly(const Poly &p) {
  if (p.t.empty()) return znum(0);
  std::vector<Z3_ast> s;
  for (auto &x : p.t) {
    std::vector<Z3_ast> f;
    if (x.second != 1 || x.first.empty()) f.push_back(znum(x.second));
    for (auto e : x.first) for (unsigned k = 0; k < mexp(e); k++) f.push_back(zvar(mvar(e)));
    s.push_back(f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data()));
  }
  return s.size() == 1 ? s[0] : Z3_mk_add(Z, s.size(), s.data());
}
static Z3_ast zmask(Z3_ast p, uint8_t m) {
  Z3_ast z = znum(0);
  switch (m & 7) {
  case 0: return Z3_mk_false(Z);
  case 1: return Z3_mk_lt(Z, p, z);
  case 2: return Z3_mk_eq(Z, p, z);
  case 3: return Z3_mk_le(Z, p, z);
  case 4: return Z3_mk_gt(Z, p, z);
  case 5: return Z3_mk_not(Z, Z3_mk_eq(Z, p, z));
  case 6: return Z3_mk_ge(Z, p, z);
  }
  return Z3_mk_true(Z);
}
static void pvarsOf(const Poly &p, std::set<int> &s) { for (auto &x : p.t) for (auto e : x.first) s.insert(mvar(e)); }
static void vvarsOf(const Val &v, std::set<int> &s) { pvarsOf(v.num, s); for (auto &e : v.den) pvarsOf(polys[e.first], s); }
// turn "Val in mask" into a polynomial sign condition
static uint8_t allowedOf(int id) { return allowed[id]; }
static Poly signPoly(const Val &v, uint8_t &mask) { // sign(v) in mask  <=> sign(result) in mask'
  Poly p = v.num;
  for (auto &e : v.den) {
    if (e.second % 2 == 0) continue;
    uint8_t a = allowedOf(e.first);
    if ((a & 5) == 4) continue;
    if ((a & 5) == 1) { mask = flip(mask); continue; }
    p = pmul(p, polys[e.first]);
  }
  return p;
}
static Z3_ast zvalmask(const Val &v, uint8_t m) { uint8_t mm = m; Poly p = signPoly(v, mm); return zmask(zpoly(p), mm); }
// constraints defining an auxiliary variable
static void defConstraints(int v, std::vector<Z3_ast> &out, std::set<int> &vs) {
  Var &x = vars[v];
  Val self = vvar(v), a = norm(x.a), b = norm(x.b);
  switch (x.kind) {
  case D_POS: {
    Val d = vadd(self, a, -1);
    out.push_back(zvalmask(self, 6));
    out.push_back(zvalmask(d, 6));
    Z3_ast o[2] = {zvalmask(self, 2), zvalmask(d, 2)};
    out.push_back(Z3_mk_or(Z, 2, o));
    vvarsOf(d, vs);
    break;
  }
  case D_ITE: {
    Z3_ast c = zvalmask(a, x.mask);
    Z3_ast t = zvalmask(vadd(self, b, -1), 2), f = zvalmask(self, 2);
    Z3_ast o1[2] = {Z3_mk_not(Z, c), t}, o2[2] = {c, f};
    out.push_back(Z3_mk_or(Z, 2, o1));
    out.push_back(Z3_mk_or(Z, 2, o2));
    vvarsOf(a, vs); vvarsOf(b, vs);
    break;
  }
  case D_SQRT: {
    out.push_back(zvalmask(self, 6));
    Val d = vadd(vmul(self, self), a, -1);
    out.push_back(zvalmask(d, 2));
    vvarsOf(d, vs);
    break;
  }
  case D_ALIAS: {
    Val d = vadd(self, a, -1);
    out.push_back(zvalmask(d, 2));
    vvarsOf(d, vs);
    break;
  }
  case D_UF: vvarsOf(a, vs); vvarsOf(b, vs); break;
  default: break;
  }
}
static Z3_ast zimp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(Z, a, b); }
static Z3_ast zand(Z3_ast a, Z3_ast b) { Z3_ast o[2] = {a, b}; return Z3_mk_and(Z, 2, o); }
static void ufAxioms(const std::vector<int> &apps, std::vector<Z3_ast> &out) {
  for (size_t i = 0; i < apps.size(); i++) {
    Var &x = vars[apps[i]];
    Val v = vvar(apps[i]), a = norm(x.a), b = norm(x.b);
    Val one = vconst(1);
    if (x.fn == "log") {
      out.push_back(zvalmask(vadd(v, vadd(a, one, -1), -1), 3)); // log a <= a-1
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 4), zvalmask(v, 4)));
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 2), zvalmask(v, 2)));
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 1), zvalmask(v, 1)));
    } else if (x.fn == "log10") {
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 4), zvalmask(v, 4)));
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 2), zvalmask(v, 2)));
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 1), zvalmask(v, 1)));
    } else if (x.fn == "exp") {
      out.push_back(zvalmask(v, 4));
      out.push_back(zvalmask(vadd(v, vadd(a, one), -1), 6));
      out.push_back(zimp(zvalmask(a, 1), zvalmask(vadd(v, one, -1), 1)));
    } else if (x.fn == "pow") { // a^b, a>=0
      out.push_back(zvalmask(v, 6));
      Z3_ast apos = zvalmask(a, 4);
      out.push_back(zimp(apos, zvalmask(v, 4)));
      Z3_ast bpos = zvalmask(b, 4);
      out.push_back(zimp(zand(zvalmask(a, 2), bpos), zvalmask(v, 2)));
      out.push_back(zimp(zvalmask(vadd(a, one, -1), 2), zvalmask(vadd(v, one, -1), 2)));
      out.push_back(zimp(zand(apos, zvalmask(b, 2)), zvalmask(vadd(v, one, -1), 2)));
      out.push_back(zimp(zvalmask(vadd(b, one, -1), 2), zvalmask(vadd(v, a, -1), 2)));
      Z3_ast agt1 = zvalmask(vadd(a, one, -1), 4), alt1 = zand(apos, zvalmask(vadd(a, one, -1), 1));
      Z3_ast bgt1 = zvalmask(vadd(b, one, -1), 4), blt1 = zvalmask(vadd(b, one, -1), 1);
      Val va = vadd(v, a, -1);
      out.push_back(zimp(zand(agt1, bgt1), zvalmask(va, 4)));
      out.push_back(zimp(zand(agt1, blt1), zvalmask(va, 1)));
      out.push_back(zimp(zand(alt1, bgt1), zvalmask(va, 1)));
      out.push_back(zimp(zand(alt1, blt1), zvalmask(va, 4)));
      out.push_back(zimp(zand(agt1, bpos), zvalmask(vadd(v, one, -1), 4)));
      out.push_back(zimp(zand(alt1, bpos), zvalmask(vadd(v, one, -1), 1)));
    } else if (x.fn == "sin" || x.fn == "cos") {
      out.push_back(zvalmask(vadd(v, one, -1), 3));
      out.push_back(zvalmask(vadd(v, one), 6));
    }
    for (size_t j = 0; j < i; j++) {
      Var &y = vars[apps[j]];
      if (y.fn != x.fn) continue;
      Val c = norm(y.a), w = vvar(apps[j]);
      Val bd = vadd(b, norm(y.b), -1);
      Z3_ast same = zvalmask(bd, 2);
      Val dA = vadd(a, c, -1), dV = vadd(v, w, -1);
      out.push_back(zimp(zand(same, zvalmask(dA, 2)), zvalmask(dV, 2)));
      if (x.fn == "log" || x.fn == "exp" || x.fn == "log10" || x.fn == "pow") {
        Z3_ast s2 = x.fn == "pow" ? zand(same, zvalmask(b, 4)) : Z3_mk_true(Z);
        out.push_back(zimp(zand(s2, zvalmask(dA, 4)), zvalmask(dV, 4)));
        out.push_back(zimp(zand(s2, zvalmask(dA, 1)), zvalmask(dV, 1)));
      }
    }
  }
}
struct QRes { int r; std::vector<std::pair<int, double>> mdl; std::vector<std::pair<int, mpq_class>> exact; };
static bool polyLinear(const Poly &p) { for (auto &x : p.t) { if (x.first.size() > 1) return false; if (x.first.size() == 1 && mexp(x.first[0]) > 1) return false; } return true; }
// extra: list of (Val,mask) assumed normalised.  r: 1 sat, 0 unsat, -1 unknown
static QRes query(const std::vector<std::pair<Val, uint8_t>> &extra, bool wantmodel, double to, bool full = false, bool allowext = false, int logicforce = 0) {
  double t0 = now();
  QRes R;
  std::set<int> vs;
  std::vector<Z3_ast> cs;
  bool lin = true;
  for (auto &e : extra) {
    uint8_t m = e.second;
    Poly p = signPoly(e.first, m);
    if (p.isConst()) {
      int sg = p.isZero() ? 2 : (p.cst() > 0 ? 4 : 1);
      if (!(m & sg)) { R.r = 0; return R; }
      continue;
    }
    if (!polyLinear(p)) lin = false;
    pvarsOf(p, vs);
    for (auto &d : e.first.den) pvarsOf(polys[d.first], vs);
    cs.push_back(zmask(zpoly(p), m));
  }
  if (full) for (size_t v = 0; v < vars.size(); v++) if (!sigma.count(v)) vs.insert(v);
  // cone of influence
  std::vector<char> used(pc.size(), 0);
  std::set<int> done;
  std::vector<int> apps;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      std::set<int> pv;
      pvarsOf(polys[pc[i].p], pv);
      bool hit = false;
      for (int v : pv) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      ch = true;
      vs.insert(pv.begin(), pv.end());
      if (!polyLinear(polys[pc[i].p])) lin = false;
      cs.push_back(zmask(zpoly(polys[pc[i].p]), pc[i].m));
    }
    std::vector<int> todo;
    for (int v : vs) if (!done.count(v)) todo.push_back(v);
    for (int v : todo) {
      done.insert(v);
      if (vars[v].kind != D_INPUT) {
        if (vars[v].kind == D_UF) { apps.push_back(v); lin = false; }
        if (vars[v].kind == D_SQRT || vars[v].kind == D_ALIAS) lin = false;
        if (vars[v].kind == D_POS) { Val a = norm(vars[v].a); if (!a.den.empty() || !polyLinear(a.num)) lin = false; }
        if (vars[v].kind == D_ITE) { Val a = norm(vars[v].a), b = norm(vars[v].b); if (!a.den.empty() || !polyLinear(a.num) || !b.den.empty() || !polyLinear(b.num)) lin = false; }
        defConstraints(v, cs, vs);
        ch = true;
      }
    }
  }
  // nonzero-ness / known signs of denominators appearing in the extra constraints
  if (!apps.empty()) ufAxioms(apps, cs);
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, lin ? "QF_LRA" : "QF_NRA"));
  Z3_solver_inc_ref(Z, s);
  for (auto c : cs) Z3_solver_assert(Z, s, c);
  S->q++;
  g_npathq++;
  if (now() + 1 > g_deadline) to = std::min(to, 1.0);
  itimerval iv = {{0, 0}, {(long)to, (long)((to - (long)to) * 1e6) + 1}};
  z_busy = true;
  setitimer(ITIMER_REAL, &iv, nullptr);
  Z3_lbool r = Z3_solver_check(Z, s);
  itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &off, nullptr);
  z_busy = false;
  R.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (R.r < 0 && allowext && g_haveext) {
    // second opinion from an external solver on the SMT-LIB text
    std::string txt = "(set-logic QF_NRA)\n";
    txt += Z3_solver_to_string(Z, s);
    txt += "\n(check-sat)\n";
    char fn[300];
    snprintf(fn, sizeof fn, "%s/q_%d.smt2", g_out.c_str(), getpid());
    FILE *f = fopen(fn, "w");
    if (f) {
      fputs(txt.c_str(), f);
      fclose(f);
      for (int k = 0; k < 2 && R.r < 0; k++) {
        char cmd[700];
        snprintf(cmd, sizeof cmd, k == 0 ? "timeout %d cvc5 --nl-cov %s 2>/dev/null" : "timeout %d z3 %s 2>/dev/null", (int)(to) + 1, fn);
        FILE *pp = popen(cmd, "r");
        char b[64] = "";
        if (pp) {
          if (fgets(b, sizeof b, pp)) { if (!strncmp(b, "unsat", 5)) { R.r = 0; S->ext++; } }
          pclose(pp);
        }
      }
      if (R.r >= 0 || !getenv("VF_KEEPQ")) unlink(fn);
    }
  }
  if (R.r == 1 && wantmodel) {
    Z3_model m = Z3_solver_get_model(Z, s);
    if (m) {
      Z3_model_inc_ref(Z, m);
      for (int v : vs) {
        Z3_ast val = nullptr;
        if (!Z3_model_eval(Z, m, zvar(v), true, &val) || !val) continue;
        double d;
        if (Z3_is_algebraic_number(Z, val)) {
          std::string q = Z3_get_numeral_decimal_string(Z, val, 30);
          while (!q.empty() && q.back() == '?') q.pop_back();
          d = strtod(q.c_str(), nullptr);
          R.exact.push_back({v, toq(d)});
        } else if (Z3_get_ast_kind(Z, val) == Z3_NUMERAL_AST) {
          mpq_class q(Z3_get_numeral_string(Z, val));
          d = q.get_d();
          R.exact.push_back({v, q});
        } else d = NAN;
        R.mdl.push_back({v, d});
      }
      Z3_model_dec_ref(Z, m);
    }
  }
  if (allowext && R.r == 1 && getenv("VF_DUMP")) { FILE *f = fopen(getenv("VF_DUMP"), "a"); if (f) { fprintf(f, "%s\n; model:", Z3_solver_to_string(Z, s)); for (auto &x : R.exact) fprintf(f, " %s=%s", vars[x.first].name.c_str(), x.second.get_str().substr(0, 60).c_str()); fprintf(f, "\n(check-sat)(reset)\n"); fclose(f); } }
  Z3_solver_dec_ref(Z, s);
  double dt = now() - t0;
  S->qus += (long)(dt * 1e6);
  if (dt > 2 && getenv("VF_SLOW")) {
    FILE *f = fopen(getenv("VF_SLOW"), "a");
    if (f) {
      fprintf(f, "%s %.2fs r=%d cs=%zu vars=%zu extra:", g_harness.c_str(), dt, R.r, cs.size(), vs.size());
      for (auto &e : extra) fprintf(f, " [%s |%zu dens m=%d]", pkey(e.first.num).substr(0, 200).c_str(), e.first.den.size(), e.second);
      fprintf(f, " names:"); for (int v : vs) fprintf(f, " %s", vars[v].name.c_str());
      fprintf(f, "\n");
      fclose(f);
    }
  }
  if (R.r == 1) S->qsat++;
  else if (R.r == 0) S->qunsat++;
  else S->qunk++;
  return R;
}
static void refreshAux() { // recompute unknown aux values where possible
}
static void applyModel(const QRes &r) {
  for (auto &m : r.mdl) model[m.first] = m.second;
  // eliminated variables follow their substitution
  for (auto &s : sigma) model[s.first] = valdouble(s.second);
}
static void wipeModel(const std::vector<std::pair<Val, uint8_t>> &ex) {
  std::set<int> vs;
  for (auto &e : ex) vvarsOf(e.first, vs);
  for (int v : vs) model[v] = NAN;
}
// ---------------------------------------------------------------- constraints
static void addAtom(const Val &v, uint8_t m, bool implied);
static void eliminate(const Poly &p) { // p == 0 on this path
  // find variable occurring linearly with constant (preferred) or known-nonzero coefficient
  int best = -1; bool bconst = false; Poly bcoef, brest;
  std::map<int, int> occ;
  for (auto &x : p.t) for (auto e : x.first) { int v = mvar(e); if (mexp(e) > 1) occ[v] = 1000; else occ[v]++; }
  for (auto it = occ.rbegin(); it != occ.rend(); ++it) {
    int v = it->first;
    if (it->second >= 1000) continue;
    if (vars[v].kind != D_INPUT) continue;
    if (v == 0) continue;
    // variable must not occur in definitions of auxiliaries reachable from p (cyclic)
    Poly coef, rest;
    for (auto &x : p.t) {
      Mono k; bool has = false;
      for (auto e : x.first) { if ((int)mvar(e) == v) has = true; else k.push_back(e); }
      if (has) coef.t.push_back(Term(k, x.second)); else rest.t.push_back(x);
    }
    std::sort(coef.t.begin(), coef.t.end(), [](const Term &a, const Term &b) { return MonoCmp()(a.first, b.first); });
    // auxiliaries in p whose definition mentions v make the substitution cyclic: skip
    bool cyc = false;
    {
      std::set<int> vs, seen;
      pvarsOf(p, vs);
      std::vector<int> st(vs.begin(), vs.end());
      while (!st.empty() && !cyc) {
        int w = st.back(); st.pop_back();
        if (!seen.insert(w).second) continue;
        if (vars[w].kind == D_INPUT) continue;
        std::set<int> dv;
        vvarsOf(norm(vars[w].a), dv); vvarsOf(norm(vars[w].b), dv);
        if (dv.count(v)) cyc = true;
        for (int u : dv) st.push_back(u);
      }
    }
    if (cyc) continue;
    if (coef.isConst()) { best = v; bconst = true; bcoef = coef; brest = rest; break; }
    if (best < 0 && !bconst) {
      // coefficient a product of variables / known nonzero polynomial?
      bool nz = false;
      if (coef.t.size() == 1) {
        nz = true;
        for (auto e : coef.t[0].first) { mpq_class c; int id = internPrim(pvar(mvar(e)), c); if (allowed[id] & 2) nz = false; }
      } else { mpq_class c; int id = internPrim(coef, c); nz = !(allowed[id] & 2); }
      if (nz) { best = v; bcoef = coef; brest = rest; }
    }
  }
  if (best < 0) return;
  Val r; r.num = pscale(brest, -1);
  Val c; c.num = bcoef;
  Val rhs = vmul(r, vinv(c));
  std::map<uint32_t, Val> one; one[best] = rhs;
  for (auto &s : sigma) s.second = substVal(s.second, one);
  sigma[best] = rhs;
  // rewrite path condition
  std::vector<Atom> old; old.swap(pc);
  std::vector<Atom> touched;
  for (auto &a : old) { if (polyHas(polys[a.p], best)) touched.push_back(a); else pc.push_back(a); }
  // bounds recorded on polys containing best must be carried over even when only implied
  for (size_t id = 0; id < polys.size(); id++)
    if (allowed[id] != 7 && polyHas(polys[id], best)) {
      bool isatom = false;
      for (auto &a : touched) if (a.p == (int)id) isatom = true;
      if (!isatom) {
        Poly pp = polys[id]; uint8_t mm = allowed[id];
        Val nv = substPoly(pp, one);
        if (!nv.num.isConst()) addAtom(nv, mm, true);
      }
    }
  for (auto &a : touched) { Poly pp = polys[a.p]; Val nv = substPoly(pp, one); addAtom(nv, a.m, false); }
}
static void addAtom(const Val &v0, uint8_t m, bool implied) {
  Val v = norm(v0);
  Poly p = signPoly(v, m);
  if (p.isConst()) return;
  mpq_class c;
  int id = internPrim(p, c);
  if (c < 0) m = flip(m);
  uint8_t a = allowed[id];
  uint8_t na = a & m;
  if (na == a) {
    // known already, but possibly only as a consequence of atoms that are being rewritten: keep it explicit
    if (!implied) { for (auto &x : pc) if (x.p == id) { x.m &= na; return; } pc.push_back({id, na}); }
    return;
  }
  allowed[id] = na;
  if (!implied) {
    bool f = false;
    for (auto &x : pc) if (x.p == id) { x.m = na; f = true; }
    if (!f) pc.push_back({id, na});
  }
  if (na == 2) {
    // remove the atom (substitution keeps it) when elimination succeeds
    size_t ns = sigma.size();
    Poly pp = polys[id];
    std::vector<Atom> save = pc;
    for (size_t i = 0; i < pc.size(); i++) if (pc[i].p == id) { pc.erase(pc.begin() + i); break; }
    eliminate(pp);
    if (sigma.size() == ns) pc = save;
  }
}
static bool doFork() { // true: we are the "other side" process
  fflush(stdout); fflush(stderr);
  bool conc = false;
  int t = S->tokens.load();
  while (t > 0) { if (S->tokens.compare_exchange_weak(t, t - 1)) { conc = true; break; } }
  S->forks++;
  pid_t p;
  for (int tries = 0;; tries++) {
    p = fork();
    if (p >= 0) break;
    if (tries > 50) { if (conc) S->tokens++; engine_error("fork failed"); }
    usleep(100000);
  }
  static bool own = false;
  (void)own;
  if (p == 0) {
    extern bool g_owntoken;
    g_owntoken = conc;
    return true;
  }
  if (!conc) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { std::string s = g_harness + ": path process killed by signal " + std::to_string(WTERMSIG(st)); tabadd(&S->err[0][0], 240, 128, S->nerr, s.c_str()); S->errors++; }
  }
  return false;
}
bool g_owntoken = false;
static int normAtom(const Val &v, uint8_t &m, int &cres) { // -> poly id, adjusts m; cres=0/1 when constant
  Poly p = signPoly(v, m);
  if (p.isConst()) { int sg = p.isZero() ? 2 : (p.cst() > 0 ? 4 : 1); cres = (m & sg) ? 1 : 0; return -1; }
  mpq_class c;
  int id = internPrim(p, c);
  if (c < 0) m = flip(m);
  return id;
}
static int modelSign(int id) { // mask bit or 0 if unsure
  double v = peval(polys[id], model), s = pevalabs(polys[id], model);
  if (!(v == v) || !(s == s)) return 0;
  if (fabs(v) > 1e-9 * s && fabs(v) > 1e-300) return v > 0 ? 4 : 1;
  return 0;
}
static Val polyVal(int id) { Val v; v.num = polys[id]; return v; }
// feasibility of polys[id] in mask under the path condition; fills R
static int feasible(int id, uint8_t m, QRes &R) {
  R = query({{polyVal(id), m}}, true, g_qto);
  return R.r;
}
static void timecheck() { if (S->stop) endpath(3); if (now() > g_deadline) { S->errors++; std::string s = g_harness + ": deadline reached"; tabadd(&S->err[0][0], 240, 128, S->nerr, s.c_str()); endpath(3); } }
static bool decide(const Val &v0, uint8_t mt) {
  timecheck();
  S->branches++;
  Val v = norm(v0);
  int cres = 0;
  uint8_t m = mt;
  int id = normAtom(v, m, cres);
  if (id < 0) return cres;
  uint8_t A = allowed[id];
  if (!(A & m)) return false;
  if (!(A & ~m & 7)) return true;
  uint8_t mT = A & m, mF = A & ~m & 7;
  int ms = modelSign(id);
  int fT = -2, fF = -2;
  QRes RT, RF;
  if (ms & mT) fT = 1, RT.r = 1;
  if (ms & mF) fF = 1, RF.r = 1;
  if (fT == -2) fT = feasible(id, mT, RT);
  if (fF == -2 && fT != 0) fF = feasible(id, mF, RF);
  if (fF == -2) fF = 1, RF.r = 2; // other side infeasible: this side must be feasible
  if (fT == 0) { addAtom(polyVal(id), mF, true); allowed[id] &= mF; return false; }
  if (fF == 0) { addAtom(polyVal(id), mT, true); allowed[id] &= mT; return true; }
  if (fT < 0 || fF < 0) g_pathunk = true;
  // both possible: fork
  bool child = doFork();
  bool res = child ? false : true;
  QRes &R = res ? RT : RF;
  addAtom(polyVal(id), res ? mT : mF, false);
  if (R.r < 0) wipeModel({{polyVal(id), 0}});
  else applyModel(R);
  return res;
}
// ---------------------------------------------------------------- candidates
static void writeCandidate(const char *kind, const char *label) {
  bool fresh;
  std::string l = g_harness + "|" + kind + "|" + label;
  int k = tabadd(&S->candlab[0][0], 120, 128, S->ncandlab, l.c_str(), &fresh);
  int n = __sync_fetch_and_add(&S->candn[k], 1);
  S->cands++;
  if (n >= 6) return;
  char fn[400];
  snprintf(fn, sizeof fn, "%s/cand_%s_%03d_%d.txt", g_out.c_str(), g_harness.c_str(), k, n);
  FILE *f = fopen(fn, "w");
  if (!f) return;
  fprintf(f, "harness %s\nkind %s\nlabel %s\ngarbage %.17g\n", g_harness.c_str(), kind, label, model[0]);
  fprintf(f, "choices %zu", choices.size());
  for (int c : choices) fprintf(f, " %d", c);
  fprintf(f, "\nreals %zu\n", inputs.size());
  for (int v : inputs) fprintf(f, "%.17g %s\n", model[v], vars[v].name.c_str());
  fclose(f);
}
static std::vector<double> savedModel;
// search a well conditioned model of pc + goal; true if some model was found
static int niceModel(std::vector<std::pair<Val, uint8_t>> goal, const Val *gap, uint8_t gapmask) {
  auto boxed = [&](double B, double g) {
    std::vector<std::pair<Val, uint8_t>> ex = goal;
    for (int v : inputs) {
      Val iv = sigma.count(v) ? sigma[v] : vvar(v);
      ex.push_back({vadd(iv, vconst(toq(B)), -1), 3});
      ex.push_back({vadd(iv, vconst(toq(-B)), -1), 6});
    }
    if (gap && g > 0) {
      // |gap| >= g : numerator^2 >= g^2 * denominator^2  (sign handled by goal)
      Val n; n.num = gap->num;
      Val d = vconst(1);
      for (auto &e : gap->den) for (int k = 0; k < e.second; k++) d = vmul(d, polyVal(e.first));
      if (gapmask == 4 || gapmask == 6) ex.push_back({vadd(*gap, vconst(toq(g)), -1), 6});
      else if (gapmask == 1 || gapmask == 3) ex.push_back({vadd(*gap, vconst(toq(-g)), -1), 3});
      else ex.push_back({vadd(vmul(n, n), vscale(vmul(d, d), toq(g) * toq(g)), -1), 6});
    }
    return query(ex, true, g_ato, true);
  };
  QRes R;
  double tries[4][2] = {{16, 0.5}, {1024, 0.01}, {1e6, 1e-4}, {1e30, 0}};
  int got = 0;
  for (auto &t : tries) {
    R = boxed(t[0], t[1]);
    if (R.r == 1) { got = 1; break; }
  }
  if (!got) return R.r;
  applyModel(R);
  // round inputs to a coarse dyadic grid where possible
  std::vector<std::pair<Val, uint8_t>> ex = goal;
  double tstart = now();
  for (int v : inputs) {
    if (sigma.count(v)) continue;
    if (now() - tstart > 15) break;
    double d = model[v];
    if (!(d == d)) continue;
    double cand[3] = {std::nearbyint(d), std::nearbyint(d * 8) / 8, std::nearbyint(d * 1024) / 1024};
    for (double c : cand) {
      auto e2 = ex;
      e2.push_back({vadd(vvar(v), vconst(toq(c)), -1), 2});
      QRes r2 = query(e2, true, 2.0, true);
      if (r2.r == 1) { applyModel(r2); ex = e2; break; }
    }
  }
  for (auto &s : sigma) model[s.first] = valdouble(s.second);
  return 1;
}
static void onAssertFail(const Val *v, uint8_t negmask, const char *label) {
  savedModel = model;
  std::vector<std::pair<Val, uint8_t>> g;
  if (v) g.push_back({*v, negmask});
  int r = niceModel(g, v, negmask);
  if (r == 1 || r < 0) writeCandidate("assert", label);
  model = savedModel;
}
static void checkConcrete(bool ok, const char *label) {
  S->concrete_asserts++;
  if (ok) return;
  onAssertFail(nullptr, 0, label);
  endpath(2);
}
// ---------------------------------------------------------------- tagged doubles
static inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double fromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isTag(uint64_t u) { return (u >> 32) == TAGHI; }
static void chkCorrupt(uint64_t u) {
  uint64_t h = u >> 32;
  if (h == QTAGHI || h == NTAGHI || h == NQTAGHI) engine_error("uninstrumented arithmetic touched a symbolic value");
}
static inline bool sym(double d) {
  uint64_t u = bitsOf(d);
  if (isTag(u)) return true;
  if (__builtin_expect((u & 0x7FF0000000000000ull) == 0x7FF0000000000000ull, 0)) chkCorrupt(u);
  return false;
}
static const Val &nodeOf(double d) {
  uint32_t id = (uint32_t)bitsOf(d);
  if (id == 0 || id >= nodes.size()) engine_error("bad symbolic id");
  return nodes[id];
}
static double mk(const Val &w) {
  const Val v = sqred(w);
  if (v.isConst()) {
    mpq_class c = v.num.cst();
    double d = c.get_d();
    if (mpq_class(d) == c) return d;
    // keep exactly: rational constants that are not doubles stay symbolic constants
  }
  nodes.push_back(v);
  if (nodes.size() > 4000000) engine_error("too many nodes");
  return fromBits((TAGHI << 32) | (uint32_t)(nodes.size() - 1));
}
static int normAtom(const Val &v, uint8_t &m, int &cres);
// zero on this path according to the recorded signs (no query)
static bool knownzero(const Val &v0) {
  Val v = norm(v0); if (v.isConst()) return v.num.isZero();
  uint8_t m = 7; int cr; int id = normAtom(v, m, cr);
  return id < 0 ? v.num.isZero() : allowed[id] == 2;
}
static Val valOf(double d) { if (sym(d)) return nodeOf(d); return vconst(toq(d)); }
static bool fin(double d) { return std::isfinite(d); }
// exact mode: a rounded result of concrete operands is kept as an exact rational instead
static double exop(char op, double a, double b, double r) {
  if (!fin(a) || !fin(b) || !fin(r) || (op == '/' && b == 0)) return r;
  bool ok;
  if (op == '*') ok = std::fma(a, b, -r) == 0 && std::fabs(r) > 1e-270;
  else if (op == '/') ok = std::fma(r, b, -a) == 0;
  else { double y = op == '+' ? b : -b, bb = r - a; ok = (a - (r - bb)) + (y - bb) == 0; }
  if (ok || a == 0 || (b == 0 && op != '/')) return r;
  mpq_class x = toq(a), y = toq(b);
  return mk(vconst(op == '*' ? mpq_class(x * y) : op == '/' ? mpq_class(x / y) : op == '+' ? mpq_class(x + y) : mpq_class(x - y)));
}
extern "C" {
void vf_exact(int on) { g_exact = on; }
void vf_hint_nonneg(double a) {
  if (!sym(a)) return;
  Val v = norm(nodeOf(a)); if (v.isConst()) return;
  uint8_t m = 6; int cr; int id = normAtom(v, m, cr);
  if (id >= 0 && (allowed[id] & m)) allowed[id] &= m;
}
double vf_fadd(double a, double b) {
  if (__builtin_expect(!sym(a) & !sym(b), 1)) return __builtin_expect(g_exact, 0) ? exop('+', a, b, a + b) : a + b;
  if (!sym(a) && !fin(a)) return a;
  if (!sym(b) && !fin(b)) return b;
  if (!sym(a) && a == 0) return b;
  if (!sym(b) && b == 0) return a;
  return mk(vadd(valOf(a), valOf(b)));
}
double vf_fneg(double a) { if (!sym(a)) return -a; return mk(vneg(nodeOf(a))); }
double vf_fsub(double a, double b) {
  if (__builtin_expect(!sym(a) & !sym(b), 1)) return __builtin_expect(g_exact, 0) ? exop('-', a, b, a - b) : a - b;
  if (!sym(a) && !fin(a)) return a;
  if (!sym(b) && !fin(b)) return -b;
  if (!sym(b) && b == 0) return a;
  return mk(vadd(valOf(a), valOf(b), -1));
}
static double infTimes(double inf, const Val &v) {
  if (decide(v, 2)) return NAN;
  return decide(v, 4) ? inf : -inf;
}
double vf_fmul(double a, double b) {
  if (__builtin_expect(!sym(a) & !sym(b), 1)) return __builtin_expect(g_exact, 0) ? exop('*', a, b, a * b) : a * b;
  if (!sym(a) && !fin(a)) { if (a != a) return a; return infTimes(a, nodeOf(b)); }
  if (!sym(b) && !fin(b)) { if (b != b) return b; return infTimes(b, nodeOf(a)); }
  if (!sym(a)) { if (a == 0) return 0.0; if (a == 1) return b; return mk(vscale(nodeOf(b), toq(a))); }
  if (!sym(b)) { if (b == 0) return 0.0; if (b == 1) return a; return mk(vscale(nodeOf(a), toq(b))); }
  if (bitsOf(a) == bitsOf(b) && nodeOf(a).num.t.size() > 3 && knownzero(nodeOf(a))) return 0.0; // squares, as in norms
  return mk(vmul(nodeOf(a), nodeOf(b)));
}
static void learnDenSign(const Val &b) {
  // decide (by query, without forking) the sign of the new denominator when it is determined
  Val inv = vinv(b);
  for (auto &e : inv.den) {
    int id = e.first;
    allowed[id] &= 5;
    if (allowed[id] != 5 || signtried[id]) continue;
    if (e.second % 2 == 0) continue;
    signtried[id] = 1;
    int ms = modelSign(id);
    QRes R;
    if (ms == 4) { if (query({{polyVal(id), 1}}, false, 2).r == 0) allowed[id] = 4; }
    else if (ms == 1) { if (query({{polyVal(id), 4}}, false, 2).r == 0) allowed[id] = 1; }
  }
}
double vf_fdiv(double a, double b) {
  if (__builtin_expect(!sym(a) & !sym(b), 1)) return __builtin_expect(g_exact, 0) ? exop('/', a, b, a / b) : a / b;
  if (!sym(b)) {
    if (b != b) return b;
    if (std::isinf(b)) return 0.0;
    if (b == 0) {
      Val v = nodeOf(a);
      if (decide(v, 2)) return NAN;
      double r = decide(v, 4) ? INFINITY : -INFINITY;
      return std::signbit(b) ? -r : r;
    }
    return mk(vscale(nodeOf(a), 1 / toq(b)));
  }
  Val d = norm(nodeOf(b));
  if (!sym(a) && a != a) return a;
  if (decide(d, 2)) {
    if (!sym(a)) return a / 0.0;
    Val v = nodeOf(a);
    if (decide(v, 2)) return NAN;
    return decide(v, 4) ? INFINITY : -INFINITY;
  }
  if (!sym(a) && std::isinf(a)) return decide(d, 4) ? a : -a;
  if (!sym(a) && a == 0) return 0.0;
  if (d.isConst()) return mk(vscale(valOf(a), 1 / d.num.cst()));
  learnDenSign(d);
  return mk(vmul(valOf(a), vinv(d)));
}
double vf_frem(double a, double b) {
  if (!sym(a) && !sym(b)) return fmod(a, b);
  engine_error("frem on symbolic value");
}
static bool nativeCmp(int pred, double a, double b) {
  if (a != a || b != b) return (pred & 8) != 0;
  if (a == b) return (pred & 1) != 0;
  if (a > b) return (pred & 2) != 0;
  return (pred & 4) != 0;
}
static uint8_t maskOf(int pred) { return ((pred & 1) ? 2 : 0) | ((pred & 2) ? 4 : 0) | ((pred & 4) ? 1 : 0); }
bool vf_fcmp(int pred, double a, double b) {
  bool sa = sym(a), sb = sym(b);
  if (!sa && !sb) return nativeCmp(pred, a, b);
  if (!sa && !fin(a)) return nativeCmp(pred, a, 0.0);
  if (!sb && !fin(b)) return nativeCmp(pred, 0.0, b);
  uint8_t m = maskOf(pred);
  if (m == 7) return true;
  if (m == 0) return false;
  return decide(sqred(vadd(valOf(a), valOf(b), -1)), m);
}
// max(v,0) as canonical auxiliary
static Val posPart(const Val &v0) {
  Val v = norm(v0);
  if (v.isConst()) return v.num.cst() > 0 ? v : vconst(0);
  mpq_class c = 1;
  Val den; den.num = pconst(1);
  bool sgn = true;
  for (auto &e : v.den) {
    if (e.second % 2) {
      if ((allowed[e.first] & 5) == 1) c = -c;
      else if ((allowed[e.first] & 5) != 4) sgn = false;
    }
    den.den.push_back(e);
  }
  if (!sgn) { // unknown denominator sign: decide by fork
    return decide(v, 4) ? v : vconst(0);
  }
  mpq_class ct;
  int id = internPrim(v.num, ct);
  mpq_class k = ct * c; // v = ct*prim/den ; sign(den)=c
  // v = k * prim / |den|
  uint8_t A = allowed[id];
  bool prpos;
  Val prim = polyVal(id);
  Val absden = den; if (c < 0) absden = vscale(den, -1);
  if ((A & 1) == 0) return k > 0 ? v : vconst(0);
  if ((A & 4) == 0) return k > 0 ? vconst(0) : v;
  (void)prpos;
  std::string key = "P" + std::to_string(id);
  auto it = auxidx.find(key);
  int x;
  if (it == auxidx.end()) {
    double mv = peval(polys[id], model);
    x = newvar("pos", D_POS, mv == mv ? std::max(mv, 0.0) : NAN);
    vars[x].a = prim;
    auxidx[key] = x;
  } else x = it->second;
  Val pp = vvar(x);
  if (k < 0) pp = vadd(pp, prim, -1); // pos(-p) = pos(p)-p ; scaled by |k|
  Val r = vscale(pp, k < 0 ? -k : k);
  return vmul(r, absden);
}
double vf_fcmp_select(int pred, double a, double b, double t, double f) {
  bool sa = sym(a), sb = sym(b);
  if ((!sa && !sb) || (!sa && !fin(a)) || (!sb && !fin(b))) return vf_fcmp(pred, a, b) ? t : f;
  uint8_t m = maskOf(pred);
  if (m == 7) return t;
  if (m == 0) return f;
  if (bitsOf(t) == bitsOf(f)) return t;
  if (g_forkmode || (!sym(t) && !fin(t)) || (!sym(f) && !fin(f))) return vf_fcmp(pred, a, b) ? t : f;
  Val d = norm(vadd(valOf(a), valOf(b), -1));
  uint8_t m2 = m; int cres;
  int id = normAtom(d, m2, cres);
  if (id < 0) return cres ? t : f;
  if (!(allowed[id] & m2)) return f;
  if (!(allowed[id] & ~m2 & 7)) return t;
  // max / min patterns
  uint64_t ua = bitsOf(a), ub = bitsOf(b), ut = bitsOf(t), uf = bitsOf(f);
  bool gt = m == 4 || m == 6, lt = m == 1 || m == 3;
  if ((gt || lt) && ((ut == ua && uf == ub) || (ut == ub && uf == ua))) {
    bool mx = (gt && ut == ua) || (lt && ut == ub);
    return mx ? vf_fmax(a, b) : vf_fmin(a, b);
  }
  Val tv = norm(valOf(t)), fv = norm(valOf(f));
  Val df = vadd(tv, fv, -1);
  if (df.isConst() && df.num.isZero()) return t;
  std::string key = "I" + std::to_string(id) + "m" + std::to_string(m2) + vkey(df);
  auto it = auxidx.find(key);
  int x;
  if (it == auxidx.end()) {
    double mv = peval(polys[id], model);
    double val = mv == mv ? (((mv > 0 ? 4 : mv < 0 ? 1 : 2) & m2) ? valdouble(df) : 0) : NAN;
    x = newvar("ite", D_ITE, val);
    vars[x].a = polyVal(id); vars[x].mask = m2; vars[x].b = df;
    auxidx[key] = x;
  } else x = it->second;
  return mk(vadd(fv, vvar(x)));
}
double vf_fmax(double a, double b) {
  if (!sym(a) && !sym(b)) return fmax(a, b);
  if (!sym(a) && !fin(a)) return a > 0 ? a : b;
  if (!sym(b) && !fin(b)) return b > 0 ? b : a;
  if (g_forkmode) return vf_fcmp(VF_OGE, a, b) ? a : b;
  Val vb = valOf(b);
  return mk(vadd(vb, posPart(vadd(valOf(a), vb, -1))));
}
double vf_fmin(double a, double b) {
  if (!sym(a) && !sym(b)) return fmin(a, b);
  if (!sym(a) && !fin(a)) return a < 0 ? a : b;
  if (!sym(b) && !fin(b)) return b < 0 ? b : a;
  if (g_forkmode) return vf_fcmp(VF_OLE, a, b) ? a : b;
  Val va = valOf(a);
  return mk(vadd(va, posPart(vadd(va, valOf(b), -1)), -1));
}
double vf_fabs(double a) {
  if (!sym(a)) return fabs(a);
  if (g_forkmode) return vf_fcmp(VF_OGE, a, 0.0) ? a : vf_fneg(a);
  Val v = nodeOf(a);
  return mk(vadd(vscale(posPart(v), 2), v, -1));
}
double vf_copysign(double a, double b) {
  if (!sym(a) && !sym(b)) return copysign(a, b);
  double m = vf_fabs(a);
  bool neg = sym(b) ? decide(nodeOf(b), 1) : std::signbit(b);
  return neg ? vf_fneg(m) : m;
}
double vf_sqrt(double a) {
  if (!sym(a) && (!g_exact || !fin(a) || a <= 0 || std::fma(sqrt(a), sqrt(a), -a) == 0)) return sqrt(a);
  Val v = norm(valOf(a));
  if (decide(v, 1)) return NAN;
  if (v.isConst()) {
    mpq_class c = v.num.cst(); double d = c.get_d();
    if (!g_exact || c <= 0) return sqrt(d);
    mpz_class n = sqrt(c.get_num()), e = sqrt(c.get_den());
    if (n * n == c.get_num() && e * e == c.get_den()) return mk(vconst(mpq_class(n, e)));
  }
  std::string key = "S" + vkey(v);
  auto it = auxidx.find(key);
  int x;
  if (it == auxidx.end()) {
    // perfect square of a single term?
    double mv = valdouble(v);
    x = newvar("sqrt", D_SQRT, mv >= 0 ? sqrt(mv) : NAN); g_nsqrt++;
    vars[x].a = v;
    auxidx[key] = x;
    mpq_class c;
    int id = internPrim(pvar(x), c);
    allowed[id] &= 6;
    uint8_t mm = 7; int cr; int vid = normAtom(v, mm, cr);
    if (vid >= 0 && !(allowed[vid] & 2)) allowed[id] &= 4;
  } else x = it->second;
  return mk(vvar(x));
}
static double ufapp(const char *fn, double a, double b, bool two, double native) {
  Val va = norm(valOf(a)), vb = two ? norm(valOf(b)) : vconst(0);
  std::string key = std::string("F") + fn + vkey(va) + "|" + vkey(vb);
  auto it = auxidx.find(key);
  int x;
  if (it == auxidx.end()) {
    x = newvar(fn, D_UF, native);
    vars[x].a = va; vars[x].b = vb; vars[x].fn = fn;
    auxidx[key] = x;
    if (!strcmp(fn, "exp")) { mpq_class c; allowed[internPrim(pvar(x), c)] &= 4; }
    if (!strcmp(fn, "pow")) { mpq_class c; allowed[internPrim(pvar(x), c)] &= 6; }
  } else x = it->second;
  return mk(vvar(x));
}
static double modelOf(double a) { return sym(a) ? valdouble(nodeOf(a)) : a; }
double vf_log(double a) {
  if (!sym(a)) return log(a);
  Val v = nodeOf(a);
  if (!decide(v, 4)) return decide(v, 2) ? -INFINITY : NAN;
  return ufapp("log", a, 0, false, NAN);
}
double vf_log10(double a) {
  if (!sym(a)) return log10(a);
  Val v = nodeOf(a);
  if (!decide(v, 4)) return decide(v, 2) ? -INFINITY : NAN;
  return ufapp("log10", a, 0, false, NAN);
}
double vf_log1p(double a) {
  if (!sym(a)) return log1p(a);
  return vf_log(vf_fadd(1.0, a));
}
double vf_exp(double a) { if (!sym(a)) return exp(a); return ufapp("exp", a, 0, false, NAN); }
double vf_sin(double a) { if (!sym(a)) return sin(a); return ufapp("sin", a, 0, false, NAN); }
double vf_cos(double a) { if (!sym(a)) return cos(a); return ufapp("cos", a, 0, false, NAN); }
double vf_pow(double a, double b) {
  if (!sym(a) && !sym(b)) return pow(a, b);
  if (!sym(b)) {
    if (b == 0) return 1.0;
    if (b == 0.5) return vf_sqrt(a);
    if (b == std::floor(b) && fabs(b) <= 6) {
      int n = (int)fabs(b);
      double r = a;
      for (int i = 1; i < n; i++) r = vf_fmul(r, a);
      return b < 0 ? vf_fdiv(1.0, r) : r;
    }
  }
  if (sym(a)) {
    Val v = nodeOf(a);
    if (decide(v, 1)) return NAN;
    if (!sym(b) && b < 0 && decide(v, 2)) return INFINITY;
  } else if (a < 0) return NAN;
  return ufapp("pow", a, b, true, NAN);
}
double vf_hypot(double a, double b) {
  if (!sym(a) && !sym(b)) return hypot(a, b);
  return vf_sqrt(vf_fadd(vf_fmul(a, a), vf_fmul(b, b)));
}
double vf_floor(double a) { if (!sym(a)) return floor(a); engine_error("floor on symbolic value"); }
double vf_ceil(double a) { if (!sym(a)) return ceil(a); engine_error("ceil on symbolic value"); }
double vf_trunc(double a) { if (!sym(a)) return trunc(a); engine_error("trunc on symbolic value"); }
double vf_round(double a) { if (!sym(a)) return round(a); engine_error("round on symbolic value"); }
bool vf_fpclass(double a, int mask) {
  if (!sym(a)) {
    int c;
    if (a != a) c = 3;
    else if (std::isinf(a)) c = a < 0 ? 4 : 512;
    else if (a == 0) c = std::signbit(a) ? 32 : 64;
    else if (std::fpclassify(a) == FP_SUBNORMAL) c = a < 0 ? 16 : 128;
    else c = a < 0 ? 8 : 256;
    return (mask & c) != 0;
  }
  int fm = mask & 0x1F8;
  if (fm == 0x1F8) return true;
  if (fm == 0) return false;
  uint8_t m = ((fm & 24) ? 1 : 0) | ((fm & 96) ? 2 : 0) | ((fm & 384) ? 4 : 0);
  if (m == 7) return true;
  return decide(nodeOf(a), m);
}
long vf_fptosi(double a) {
  if (!sym(a)) return (long)a;
  Val v = norm(nodeOf(a));
  if (v.isConst()) return (long)v.num.cst().get_d();
  engine_error("conversion of a symbolic value to integer");
}
void vf_escape(double a) { (void)a; }
void vf_cov(char *flag, const char *name) {
  if (*flag) return;
  *flag = 1;
  if (S) tabadd(&S->fn[0][0], 160, 6000, S->nfn, name);
}
// ---------------------------------------------------------------- harness API
double vf_real(const char *name) {
  static const double init[8] = {1.5, -0.75, 2.25, 0.5, -1.25, 3.0, -2.5, 0.875};
  int v = newvar(name, D_INPUT, init[inputs.size() % 8]);
  inputs.push_back(v);
  return mk(vvar(v));
}
int vf_choose(const char *, int n) {
  for (int k = 0; k + 1 < n; k++) {
    timecheck();
    S->choices++;
    if (doFork()) continue; // child explores the remaining alternatives
    choices.push_back(k);
    return k;
  }
  choices.push_back(n - 1);
  return n - 1;
}
void vf_assume(bool c) { if (!c) endpath(1); }
void vf_assume_rel(int pred, double a, double b) {
  if ((!sym(a) && !sym(b)) || (!sym(a) && !fin(a)) || (!sym(b) && !fin(b))) { if (!vf_fcmp(pred, a, b)) endpath(1); return; }
  Val v = norm(vadd(valOf(a), valOf(b), -1));
  uint8_t m = maskOf(pred); int cres;
  int id = normAtom(v, m, cres);
  if (id < 0) { if (!cres) endpath(1); return; }
  uint8_t A = allowed[id];
  if (!(A & m)) endpath(1);
  if (!(A & ~m & 7)) return;
  int ms = modelSign(id);
  if (!(ms & m)) {
    QRes R = query({{polyVal(id), (uint8_t)(A & m)}}, true, g_qto);
    if (R.r == 0) endpath(1);
    if (R.r < 0) { g_pathunk = true; wipeModel({{polyVal(id), 0}}); }
    else applyModel(R);
  }
  addAtom(polyVal(id), m, false);
}
void vf_assert(bool c, const char *label) {
  int k = tabadd(&S->lab[0][0], 96, 1024, S->nlab, label); S->labn[k]++;
  if (!c) {
    // concrete failure on this path: make sure the path is feasible
    QRes R = query({}, true, g_ato, true);
    if (R.r == 0) endpath(1);
  }
  checkConcrete(c, label);
}
void vf_assert_rel(int pred, double a, double b, const char *label) {
  int k = tabadd(&S->lab[0][0], 96, 1024, S->nlab, label); S->labn[k]++;
  timecheck();
  bool sa = sym(a), sb = sym(b);
  if (!sa && !sb) {
    bool ok;
    if (a != a || b != b) ok = (pred == VF_OEQ) && (a != a) && (b != b);
    else if (std::isinf(a) || std::isinf(b)) ok = nativeCmp(pred, a, b);
    else {
      double tol = 1e-9 * fmax(1e-3, fmax(fabs(a), fabs(b)));
      switch (pred) {
      case VF_OEQ: ok = fabs(a - b) <= tol; break;
      case VF_OLE: ok = a <= b + tol; break;
      case VF_OGE: ok = a >= b - tol; break;
      default: ok = nativeCmp(pred, a, b);
      }
    }
    vf_assert(ok, label);
    return;
  }
  S->asserts++;
  if ((!sa && !fin(a)) || (!sb && !fin(b))) { bool ok = !sa && a != a ? false : !sb && b != b ? false : vf_fcmp(pred, a, b); if (!ok) vf_assert(false, label); return; }
  Val v = norm(vadd(valOf(a), valOf(b), -1));
  uint8_t m = maskOf(pred), neg = 7 & ~m; int cres;
  uint8_t m1 = m;
  int id = normAtom(v, m1, cres);
  if (id < 0) {
    if (cres) { S->proved_nf++; return; }
    // constant but wrong: tiny rounding differences between concrete constants are not a finding
    double d = v.num.isZero() ? 0 : v.num.cst().get_d();
    if ((m & 2) && fabs(d) < 1e-11) { S->proved_nf++; return; }
    vf_assert(false, label);
    return;
  }
  uint8_t A = allowed[id];
  uint8_t n1 = A & ~m1 & 7;
  if (!n1) { S->proved_nf++; return; }
  QRes R = query({{polyVal(id), n1}}, true, g_ato, false, true);
  if (R.r == 0) { S->proved_z3++; addAtom(polyVal(id), A & m1, true); return; }
  if (R.r < 0) {
    std::string s = g_harness + ": " + label;
    tabadd(&S->und[0][0], 120, 128, S->nund, s.c_str());
    S->undecided++;
    if (getenv("VF_UND")) { FILE *f = fopen(getenv("VF_UND"), "a"); if (f) { fprintf(f, "%s %s : %s dens %zu\n", g_harness.c_str(), label, pkey(v.num).substr(0, 600).c_str(), v.den.size()); fclose(f); } }
    // still look for a counterexample with boxed variables
    onAssertFail(&v, neg, label);
    return;
  }
  onAssertFail(&v, neg, label);
  // continue on the part where the assertion holds, if any
  if (!(A & m1)) endpath(2);
  QRes R2 = query({{polyVal(id), (uint8_t)(A & m1)}}, true, g_qto);
  if (R2.r == 0) endpath(2);
  addAtom(polyVal(id), A & m1, false);
  if (R2.r > 0) applyModel(R2); else wipeModel({{polyVal(id), 0}});
}
void vf_reach(const char *label) {
  if (g_pathunk) { QRes R = query({}, true, g_ato, true); if (R.r == 0) endpath(1); if (R.r == 1) { g_pathunk = false; applyModel(R); } else return; }
  std::string s = g_harness + ":" + label;
  tabadd(&S->reach[0][0], 96, 512, S->nreach, s.c_str());
}
bool vf_is_sym(double x) { return sym(x) && !nodeOf(x).isConst(); }
int vf_next_is(const char *) { return 0; }
bool vf_symbolic_mode() { return true; }
int vf_thorough() { return g_thorough; }
void vf_mode_fork(int on) { g_forkmode = on; }
void vf_expect_abort(int on) { g_expect_abort = on; }
static int g_fill = 1;
void vf_garbage_fill(int on) { g_fill = on; }
long vf_paths_hint() { return S->paths; }
void vf_note(const char *fmt, ...) {
  if (!getenv("VF_NOTE")) return;
  va_list ap; va_start(ap, fmt);
  FILE *f = fopen(getenv("VF_NOTE"), "a");
  if (f) { vfprintf(f, fmt, ap); fputc('\n', f); fclose(f); }
  va_end(ap);
}
const char* vf_str(double x) {
  static char b[8][4000]; static int k = 0; k = (k + 1) & 7;
  if (!sym(x)) { snprintf(b[k], 4000, "%g", x); return b[k]; }
  Val v = norm(nodeOf(x)); std::string s;
  auto ps = [&](const Poly &p) { std::string r; for (auto &t : p.t) { r += (r.empty() ? "" : " + ") + t.second.get_str(); for (auto e : t.first) { r += "*" + vars[mvar(e)].name + "#" + std::to_string(mvar(e)); if (mexp(e) > 1) r += "^" + std::to_string(mexp(e)); } } return r; };
  s = ps(v.num); for (auto &e : v.den) s += " / (" + ps(polys[e.first]) + ")^" + std::to_string(e.second);
  snprintf(b[k], 4000, "%s", s.c_str()); return b[k];
}
} // extern C
// ---------------------------------------------------------------- allocation: uninitialised memory is an arbitrary value
static void fillg(void *p, size_t n) {
  if (!g_inpath || !g_fill || n > (1u << 22)) return;
  uint64_t *q = (uint64_t *)p;
  for (size_t i = 0; i < n / 8; i++) q[i] = GARB;
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fillg(p, n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fillg(p, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
// ---------------------------------------------------------------- path end, crashes
static void writeSample() {
  if (g_pathunk) return;
  int n = __sync_fetch_and_add(&S->sampn[g_hidx & 63], 1);
  if (n >= (g_thorough ? 6 : 3)) return;
  auto boxed = [&](double B) {
    std::vector<std::pair<Val, uint8_t>> ex;
    for (int v : inputs) {
      Val iv = sigma.count(v) ? sigma[v] : vvar(v);
      ex.push_back({vadd(iv, vconst(toq(B)), -1), 3});
      ex.push_back({vadd(iv, vconst(toq(-B)), -1), 6});
    }
    return query(ex, true, 2.0, true);
  };
  QRes R = boxed(64);
  if (R.r != 1) R = query({}, true, 2.0, true);
  if (R.r != 1) return;
  applyModel(R);
  for (int v : inputs) if (!(model[v] == model[v])) return;
  char fn[400];
  snprintf(fn, sizeof fn, "%s/sample_%s_%d.txt", g_out.c_str(), g_harness.c_str(), n);
  FILE *f = fopen(fn, "w");
  if (!f) return;
  fprintf(f, "harness %s\nkind sample\nlabel none\ngarbage %.17g\n", g_harness.c_str(), model[0]);
  fprintf(f, "choices %zu", choices.size());
  for (int c : choices) fprintf(f, " %d", c);
  fprintf(f, "\nreals %zu\n", inputs.size());
  for (int v : inputs) fprintf(f, "%.17g %s\n", model[v], vars[v].name.c_str());
  fclose(f);
}
[[noreturn]] static void endpath(int kind) { // 0 complete 1 pruned 2 stopped after violation 3 error 4 abort
  if (kind == 0) writeSample();
  if (kind == 0 || kind == 2 || kind == 4) S->paths++;
  else if (kind == 1) S->pruned++;
  if ((long)nodes.size() > S->maxnodes) S->maxnodes = nodes.size();
  if ((long)vars.size() > S->maxvars) S->maxvars = vars.size();
  if (g_owntoken) S->tokens++;
  _exit(0);
}
static char g_lastassert[200] = "";
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *) {
  const char *b = strrchr(file, '/');
  (void)line;
  snprintf(g_lastassert, sizeof g_lastassert, "assert %s [%s]", expr, b ? b + 1 : file);
  raise(SIGABRT);
  _exit(1);
}
static volatile int incrash = 0;
static void oncrash(int sig) {
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGALRM); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
  if (incrash++) _exit(7);
  if (z_busy && sig != SIGABRT) { // crash inside the solver
    S->errors++; tabadd(&S->err[0][0], 240, 128, S->nerr, (g_harness + ": solver crashed").c_str());
    if (g_owntoken) S->tokens++;
    _exit(7);
  }
  if (g_expect_abort && sig == SIGABRT) { endpath(4); }
  char lab[260];
  if (sig == SIGABRT && g_lastassert[0]) snprintf(lab, sizeof lab, "%s", g_lastassert);
  else snprintf(lab, sizeof lab, "signal-%d", sig);
  S->aborts++;
  if (sig == SIGABRT) {
    int r = niceModel({}, nullptr, 0);
    if (r == 0) endpath(1);
  }
  writeCandidate("crash", lab);
  endpath(2);
}
extern "C" void vf_path_exit(int code) {
  if (g_expect_abort) endpath(4);
  int r = niceModel({}, nullptr, 0);
  if (r == 0) endpath(1);
  char lab[64]; snprintf(lab, sizeof lab, "exit-%d", code);
  writeCandidate("crash", lab);
  endpath(2);
}
static void onexit_() { if (g_inpath) vf_path_exit(0); }
// ---------------------------------------------------------------- main
struct H { const char *name; void (*f)(); int tier; const char *reach; };
static std::vector<H> &hs() { static std::vector<H> v; return v; }
VfReg::VfReg(const char *name, void (*f)(), int tier, const char *reach) { hs().push_back({name, f, tier, reach}); }
static void jesc(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }
int main(int argc, char **argv) {
  std::string only;
  int nt = 8;
  double dl = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") g_out = argv[++i];
    else if (a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
    else if (a == "--only") only = argv[++i];
    else if (a == "--jobs") nt = atoi(argv[++i]);
    else if (a == "--deadline") dl = atof(argv[++i]);
    else if (a == "--qto") g_qto = atof(argv[++i]);
    else if (a == "--ato") g_ato = atof(argv[++i]);
    else if (a == "--list") { for (auto &h : hs()) printf("%s\n", h.name); return 0; }
  }
  mkdir(g_out.c_str(), 0777);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof *S);
  S->tokens = nt;
  g_t0 = now();
  g_deadline = g_t0 + dl;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  { mpq_class dummy(1); }
  zinit();
  Val z; nodes.push_back(z);
  newvar("garbage", D_INPUT, 777.125);
  nodes.push_back(vvar(0));
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = onalrm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  signal(SIGUSR1, onstop);
  std::vector<std::string> ran;
  std::map<pid_t, std::string> roots;
  auto reap = [&](bool block) {
    int st;
    for (;;) {
      pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
      if (p <= 0) return p < 0 && errno == ECHILD;
      if (WIFSIGNALED(st)) { std::string s = "path process killed by signal " + std::to_string(WTERMSIG(st)); tabadd(&S->err[0][0], 240, 128, S->nerr, s.c_str()); S->errors++; S->tokens++; }
    }
  };
  for (auto &h : hs()) {
    if (!only.empty() && ("," + only + ",").find(std::string(",") + h.name + ",") == std::string::npos) continue;
    if (h.tier == 1 && !g_thorough) continue;
    if (h.tier == -1 && g_thorough) continue;
    ran.push_back(h.name);
    if (S->stop) break;
    for (;;) { // wait for a token
      if (S->stop) break;
      int t = S->tokens.load();
      if (t > 0 && S->tokens.compare_exchange_strong(t, t - 1)) break;
      reap(false);
      usleep(2000);
    }
    if (S->stop) break;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      signal(SIGUSR1, SIG_IGN);
      g_owntoken = true;
      g_harness = h.name;
      g_hidx = ran.size() - 1;
      rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      int fd = open(getenv("VF_STDOUT") ? getenv("VF_STDOUT") : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0666);
      if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
      stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
      struct sigaction sc; memset(&sc, 0, sizeof sc);
      sc.sa_handler = oncrash; sc.sa_flags = 0;
      sigaction(SIGABRT, &sc, nullptr);
      sc.sa_flags = SA_ONSTACK;
      sigaction(SIGSEGV, &sc, nullptr); sigaction(SIGBUS, &sc, nullptr); sigaction(SIGFPE, &sc, nullptr); sigaction(SIGILL, &sc, nullptr);
      atexit(onexit_);
      g_inpath = true;
      h.f();
      if (g_pathunk) { QRes R = query({}, false, g_ato, true); if (R.r == 0) endpath(1); }
      endpath(0);
    }
    setpgid(p, p);
    roots[p] = h.name;
  }
  bool incomplete = false; double g_stopat = 0;
  while (!reap(false)) {
    usleep(5000);
    if (S->stop && !g_stopat) g_stopat = now();
    if (now() > g_deadline + 30 || (S->stop && now() > g_stopat + 4)) { incomplete = true; for (auto &r : roots) kill(-r.first, SIGKILL); sleep(1); while (!reap(false)) { usleep(5000); for (auto &r : roots) kill(-r.first, SIGKILL); } break; }
  }
  std::string fn = g_out + "/stats.json";
  FILE *f = fopen(fn.c_str(), "w");
  fprintf(f, "{\"paths\":%ld,\"pruned\":%ld,\"branches\":%ld,\"forks\":%ld,\"choices\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,", S->paths.load(), S->pruned.load(), S->branches.load(), S->forks.load(), S->choices.load(), S->q.load(), S->qsat.load(), S->qunsat.load(), S->qunk.load(), S->qus.load() * 1e-6);
  fprintf(f, "\"asserts_symbolic\":%ld,\"proved_normal_form\":%ld,\"proved_solver\":%ld,\"asserts_concrete\":%ld,\"undecided\":%ld,\"candidates\":%ld,\"errors\":%ld,\"aborts\":%ld,\"external_solver\":%ld,\"max_nodes\":%ld,\"max_vars\":%ld,\"wall_s\":%.2f,\"incomplete\":%s,", S->asserts.load(), S->proved_nf.load(), S->proved_z3.load(), S->concrete_asserts.load(), S->undecided.load(), S->cands.load(), S->errors.load(), S->aborts.load(), S->ext.load(), S->maxnodes.load(), S->maxvars.load(), now() - g_t0, incomplete ? "true" : "false");
  auto arr = [&](const char *k, char *tab, int w, int n) { fprintf(f, "\"%s\":[", k); for (int i = 0; i < n; i++) { if (i) fputc(',', f); jesc(f, tab + (size_t)i * w); } fprintf(f, "],"); };
  arr("reached", &S->reach[0][0], 96, S->nreach);
  arr("functions", &S->fn[0][0], 160, S->nfn);
  arr("error_messages", &S->err[0][0], 240, S->nerr);
  arr("undecided_labels", &S->und[0][0], 120, S->nund);
  arr("candidate_labels", &S->candlab[0][0], 120, S->ncandlab);
  fprintf(f, "\"labels\":{");
  for (int i = 0; i < S->nlab; i++) { if (i) fputc(',', f); jesc(f, S->lab[i]); fprintf(f, ":%ld", S->labn[i].load()); }
  fprintf(f, "},\"harnesses\":[");
  for (size_t i = 0; i < ran.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", ran[i].c_str());
  fprintf(f, "],\"missing_reach\":[");
  bool first = true;
  for (auto &h : hs()) {
    bool r = false; for (auto &x : ran) if (x == h.name) r = true;
    if (!r || !h.reach || !*h.reach) continue;
    std::string q = h.reach; size_t p = 0;
    while (p <= q.size()) {
      size_t e = q.find(',', p); if (e == std::string::npos) e = q.size();
      std::string l = std::string(h.name) + ":" + q.substr(p, e - p); p = e + 1;
      bool ok = false; for (int i = 0; i < S->nreach; i++) if (l == S->reach[i]) ok = true;
      if (!ok) { fprintf(f, "%s\"%s\"", first ? "" : ",", l.c_str()); first = false; }
    }
  }
  fprintf(f, "]}\n");
  fclose(f);
  g_inpath = false;
  _exit(0);
}
