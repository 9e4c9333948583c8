// helpers shared by the harnesses
#ifndef HC_HPP
#define HC_HPP
#include "vf.h"
#include "vfstub.h"
#include <vector>
#include <string>
#include <cmath>
#include <limits>
#include <cstring>
#include <cstdio>
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "LinAlgFactory.hpp"
using namespace hiop;
typedef std::vector<double> DV;
static inline std::string nm(const std::string& b, int i) { return b + std::to_string(i); }
static inline double R(const std::string& b) { return vf_r(b.c_str()); }
// long vectors: with hc_focus set, only that entry is symbolic, the others are fixed nonzero numbers
static int hc_focus = -1;
static inline int big(int n) { static const int w[] = {0, 1, 3, 7, 8, 15, 16}; int k = 0; while (k < 7 && w[k] < n) k++; hc_focus = n <= 9 ? vf_choose("focus", n) : w[vf_choose("focus", k)]; return n; }
static inline DV symv(int n, const std::string& b) { DV r(n); for (int i = 0; i < n; i++) r[i] = hc_focus >= 0 && n > 4 && i != hc_focus ? ((i * 7 + b[0] * 3 + b.size()) % 13 - 6.25) / 4. : R(nm(b, i)); return r; }
static inline void put(hiopVector& v, const DV& x) { double* d = v.local_data(); for (size_t i = 0; i < x.size(); i++) d[i] = x[i]; }
static inline DV get(const hiopVector& v) { const double* d = v.local_data_const(); return DV(d, d + v.get_local_size()); }
static inline void eqv(const hiopVector& v, const DV& x, const char* l) {
  vf_assert(v.get_local_size() == (int)x.size(), "size");
  const double* d = v.local_data_const();
  for (size_t i = 0; i < x.size(); i++) vf_assert_eq(d[i], x[i], l);
}
static inline void eqd(const DV& a, const DV& x, const char* l) {
  vf_assert(a.size() == x.size(), "size");
  for (size_t i = 0; i < x.size(); i++) vf_assert_eq(a[i], x[i], l);
}
// a 0/1 pattern, every combination (long vectors: all, none, alternating, all but one, only one)
static inline DV pat(int n, const char* b) { if (n > 5) { int k = vf_choose(b, 2 * n + 4); DV r(n); for (int i = 0; i < n; i++) r[i] = k < 2 ? k : k < 4 ? (i + k) % 2 : k < 4 + n ? i == k - 4 : i != k - 4 - n; return r; } int k = vf_choose(b, 1 << n); DV r(n); for (int i = 0; i < n; i++) r[i] = (k >> i) & 1; return r; }
static inline bool isfin(double x) { return vf_is_sym(x) || std::isfinite(x); }
static inline double dmax(double a, double b) { return vf_fmax(a, b); }
static inline double dmin(double a, double b) { return vf_fmin(a, b); }
static inline double dabs_(double a) { return vf_fabs(a); }
// a one-rank vector
struct HV {
  hiopVectorPar v; DV s;
  HV(int n, const std::string& b) : v(n), s(symv(n, b)) { put(v, s); }
  HV(const DV& x) : v((int)x.size()), s(x) { put(v, s); }
  void unchanged(const char* l = "operand unchanged") { eqv(v, s, l); }
};
#endif
