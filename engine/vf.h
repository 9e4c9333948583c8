// vfsym harness API.  In a symbolic build the calls are answered by the runtime in rt/; in a replay
// build (plain native code) they return the recorded values of one counterexample.
#ifndef VF_H
#define VF_H
#ifdef __cplusplus
extern "C" {
#endif
double vf_real(const char* name);                 // any finite real number
int    vf_choose(const char* name, int n);        // any of 0..n-1 (case split)
void   vf_assume(bool c);
void   vf_assume_rel(int pred, double a, double b);
void   vf_assert(bool c, const char* label);
void   vf_assert_rel(int pred, double a, double b, const char* label);
void   vf_reach(const char* label);
bool   vf_is_sym(double x);
bool   vf_symbolic_mode();                         // true in the symbolic build
int    vf_next_is(const char* name);                // replay: is the next recorded real of this name? (0 in the symbolic build)
int    vf_thorough();
void   vf_mode_fork(int on);                       // max/min/abs/select: fork instead of aux variables
void   vf_expect_abort(int on);                    // abort()/exit() on this path is expected behaviour

double vf_fabs(double); double vf_sqrt(double); double vf_fmax(double,double); double vf_fmin(double,double);
const char* vf_str(double x);
void   vf_note(const char* fmt, ...);
void   vf_garbage_fill(int on);
void   vf_exact(int on);                           // concrete arithmetic keeps exact rationals instead of rounding
void   vf_hint_nonneg(double x);                    // x is a sum of squares: no query is needed for its sign
long   vf_paths_hint();
#ifdef __cplusplus
}
enum { VF_OEQ=1, VF_OGT=2, VF_OGE=3, VF_OLT=4, VF_OLE=5, VF_ONE=6 };
static inline void vf_assume_lt(double a,double b){vf_assume_rel(VF_OLT,a,b);}
static inline void vf_assume_le(double a,double b){vf_assume_rel(VF_OLE,a,b);}
static inline void vf_assume_eq(double a,double b){vf_assume_rel(VF_OEQ,a,b);}
static inline void vf_assume_ne(double a,double b){vf_assume_rel(VF_ONE,a,b);}
static inline void vf_assert_eq(double a,double b,const char* l){vf_assert_rel(VF_OEQ,a,b,l);}
static inline void vf_assert_lt(double a,double b,const char* l){vf_assert_rel(VF_OLT,a,b,l);}
static inline void vf_assert_le(double a,double b,const char* l){vf_assert_rel(VF_OLE,a,b,l);}
// larger shapes: with vf_focus(mod,pick) only the reals whose name ends in an index congruent to pick modulo mod (or in no
// index) are symbolic; the others are fixed numbers (exact in double), different for every name
static int vf_fmod_ = 0, vf_fpick_ = 0, vf_fones_ = 0; // vf_fones_: fixed positive numbers are all one
static inline void vf_focus(int mod, int pick){vf_fmod_=mod; vf_fpick_=pick;}
static inline bool vf_fixed(const char* n){
  if(!vf_fmod_) return false;
  int e=0; while(n[e]) e++;
  int i=e, v=0, w=1; while(i>0 && n[i-1]>='0' && n[i-1]<='9'){ v+=w*(n[i-1]-'0'); w*=10; i--; }
  return i<e && v%vf_fmod_!=vf_fpick_;
}
static inline int vf_hash_(const char* n){ unsigned h=17; for(;*n;n++) h=h*31+(unsigned char)*n; return (int)((h>>3)%997); }
static inline double vf_r(const char* n){ return vf_fixed(n) ? (vf_hash_(n)%41-20.5)/4 : vf_real(n); }
static inline double vf_pos(const char* n){ if(vf_fixed(n)){ if(vf_fones_) return 1; static const double w[5]={0.25,0.5,1,2,4}; return w[vf_hash_(n)%5]; } double x=vf_real(n); vf_assume_lt(0.0,x); return x;}
static inline double vf_nonneg(const char* n){ if(vf_fixed(n)) return vf_pos(n); double x=vf_real(n); vf_assume_le(0.0,x); return x;}
static inline double vf_in(const char* n,double lo,double hi){ if(vf_fixed(n)){ double x=vf_r(n); return x<lo?lo:x>hi?hi:x; } double x=vf_real(n); vf_assume_le(lo,x); vf_assume_le(x,hi); return x;}
struct VfReg { VfReg(const char* name, void(*f)(), int tier, const char* reach); };
// tier: 0 = quick and thorough, 1 = thorough only, -1 = quick only.   reach: comma separated labels that must be reached
#define VF_HARNESS(name,tier,reach) static void vfh_##name(); static VfReg vfr_##name(#name,vfh_##name,tier,reach); static void vfh_##name()
#endif
#endif
