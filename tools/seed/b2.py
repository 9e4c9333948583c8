import subprocess
def mk(id,prop,needs,breaks,spec):
    subprocess.run(['./mk.py',id,prop,'--needs',needs,'--breaks',breaks],input=spec,text=True,check=True)
PROB=r'''
#include "demo.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopInterface.hpp"
#include "hiopIterate.hpp"
using namespace hiop;
// min sum (x_i-1)^2 with one linear constraint
struct P: hiopInterfaceDenseConstraints { int n; std::vector<double> xl,xu; double cl,cu; P(int n_):n(n_),xl(n_,-1e20),xu(n_,1e20),cl(-1e20),cu(1e20){}
 bool get_prob_sizes(size_type& a,size_type& b){a=n;b=1;return true;}
 bool get_vars_info(const size_type&,double*l,double*u,NonlinearityType*t){for(int i=0;i<n;i++){l[i]=xl[i];u[i]=xu[i];t[i]=hiopNonlinear;}return true;}
 bool get_cons_info(const size_type&,double*l,double*u,NonlinearityType*t){l[0]=cl;u[0]=cu;t[0]=hiopLinear;return true;}
 bool eval_f(const size_type&,const double*x,bool,double&f){f=0;for(int i=0;i<n;i++)f+=(x[i]-1)*(x[i]-1);return true;}
 bool eval_grad_f(const size_type&,const double*x,bool,double*g){for(int i=0;i<n;i++)g[i]=2*(x[i]-1);return true;}
 bool eval_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*x,bool,double*c){if(k){c[0]=0;for(int i=0;i<n;i++)c[0]+=x[i];}return true;}
 bool eval_Jac_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*,bool,double*J){if(k)for(int i=0;i<n;i++)J[i]=1;return true;}
 bool get_starting_point(const size_type&,double*x){for(int i=0;i<n;i++)x[i]=0;return true;}
};
'''
mk('c30-uptri','C30',"a KKT matrix whose factorization needs a 2x2 pivot block","inertia of a 2x2 pivot block is computed with the entry of the wrong triangle, so the number of negative eigenvalues can be wrong",r'''@@ src/LinAlg/hiopLinSolverSymDenseLapack.hpp
<<<<
	    t=fabs(MM[k*N+k+1]);
====
	    t=fabs(MM[(k+1)*N+k]);
>>>>
@@demo
'''+PROB+r'''
#include "hiopLinSolverSymDenseLapack.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.finalizeInitialization();
 // [0 a 0; a 0 0; 0 0 5]: eigenvalues a, -a, 5.  Only the entries the solver uses (C++ upper) are given, with scratch values elsewhere
 for(double a : {1., 1e-3, 40.}) { hiopLinSolverSymDenseLapack S(3,&nlp); double* A=S.sysMatrix().local_data(); for(int i=0;i<9;i++)A[i]=0; A[1]=a; A[8]=5; A[0]=1e-12*a; 
  int neg=S.matrixChanged(); CHECK(neg==1); }
 return demo_bad; }
''')
mk('c29-floor','C29',"several linear systems in a row that need regularization, the first with a tiny one, so that the decrease factor pushes the value below its configured minimum","the decreased first trial value of the regularization is no longer bounded below by delta_w_min_bar",r'''@@ src/Optimization/hiopPDPerturbation.cpp
<<<<
  bool hiopPDPerturbationPrimalFirstScalar::guts_of_compute_perturb_wrong_inertia(double& delta_wx, double& delta_wd)
  {
    assert(delta_wx_curr_db_ == delta_wd_curr_db_ && "these should be equal");
    assert(delta_wx_last_db_ == delta_wd_last_db_ && "these should be equal");
    if(delta_wx_curr_db_ == 0.) {
      if(delta_wx_last_db_ == 0.) {
        delta_wx_curr_db_ = delta_w_0_bar_;
      } else {
        delta_wx_curr_db_ = std::fmax(delta_w_min_bar_, delta_wx_last_db_*kappa_w_minus_);
====
  bool hiopPDPerturbationPrimalFirstScalar::guts_of_compute_perturb_wrong_inertia(double& delta_wx, double& delta_wd)
  {
    assert(delta_wx_curr_db_ == delta_wd_curr_db_ && "these should be equal");
    assert(delta_wx_last_db_ == delta_wd_last_db_ && "these should be equal");
    if(delta_wx_curr_db_ == 0.) {
      if(delta_wx_last_db_ == 0.) {
        delta_wx_curr_db_ = delta_w_0_bar_;
      } else {
        delta_wx_curr_db_ = delta_wx_last_db_*kappa_w_minus_;
        if(delta_wx_curr_db_ < delta_w_min_bar_*kappa_w_minus_) {
          delta_wx_curr_db_ = delta_w_min_bar_;
        }
>>>>
@@demo
'''+PROB+r'''
#include "hiopPDPerturbation.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetNumericValue("delta_w_min_bar",1e-6); nlp.options->SetNumericValue("delta_0_bar",1e-4); nlp.finalizeInitialization();
 hiopPDPerturbationPrimalFirstScalar q; q.initialize(&nlp); q.set_mu(1e-2);
 for(int k=0;k<20;k++){ CHECK(q.compute_initial_deltas()); CHECK(q.compute_perturb_wrong_inertia()); double d=q.get_curr_delta_wx()->infnorm(); CHECK(d>=1e-6*(1-1e-12)); }
 return demo_bad; }
''')
mk('c17-abs','C17',"an iterate on a negative bound of magnitude above one, with a small multiplier","the limit of the slack correction uses the signed bound, so slacks at negative bounds get a much smaller correction than documented",r'''@@ src/Optimization/hiopIterate.cpp
<<<<
      arg3.copyFrom(bound);
      arg3.component_abs();
      arg2.component_max(arg3);
====
      arg3.copyFrom(bound);
      arg2.component_max(arg3);
>>>>
@@demo
'''+PROB+r'''
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; p.xl[0]=-5000; p.xl[1]=5000; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetNumericValue("bound_relax_perturb",0.); nlp.finalizeInitialization();
 hiopIterate a(&nlp),b(&nlp); a.setBoundsDualsToConstant(1.); b.get_x()->local_data()[0]=-5000; b.get_x()->local_data()[1]=5000; b.get_d()->setToConstant(10.);
 b.compute_safe_slacks(a,1.); double* s=b.get_sxl()->local_data(); double e=std::pow(2.220446049250313e-16,0.75)*5000;
 CHECK(std::fabs(s[0]/e-1)<1e-6); CHECK(std::fabs(s[1]/e-1)<1e-6);
 return demo_bad; }
''')
mk('c20-guard','C20',"a problem whose inequalities all have an upper bound only","the complementarity residual of inequality upper bounds is skipped when no inequality has a lower bound",r'''@@ src/Optimization/hiopResidual.cpp#1
<<<<
  //rsvu = \mu e - sdu * vu
  if(nlp->m_ineq_upp()>0) {
====
  //rsvu = \mu e - sdu * vu
  if(nlp->m_ineq_low()>0 && nlp->m_ineq_upp()>0) {
>>>>
@@demo
'''+PROB+r'''
#include "hiopResidual.hpp"
#include "hiopLogBarProblem.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cu=4; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.finalizeInitialization();
 hiopIterate it(&nlp); for(auto q:{it.x,it.d,it.yc,it.yd,it.sxl,it.sxu,it.sdl,it.sdu,it.zl,it.zu,it.vl,it.vu})q->setToZero(); it.get_sdu()->setToConstant(3.); it.get_vu()->setToConstant(2.); it.get_d()->setToConstant(1.);
 hiopVector *cc=nlp.alloc_dual_eq_vec(),*dd=nlp.alloc_dual_ineq_vec(),*g=nlp.alloc_primal_vec(); cc->setToZero(); dd->setToZero(); g->setToZero(); auto*Jc=nlp.alloc_Jac_c(); auto*Jd=nlp.alloc_Jac_d(); Jd->setToZero();
 hiopLogBarProblem lb(&nlp); lb.updateWithNlpInfo(it,0.5,0.,*cc,*dd,*g,*Jc,*Jd);
 hiopResidual r(&nlp); r.update(it,0.,*cc,*dd,*g,*Jc,*Jd,lb); double o,f,co,cv; r.getNlpErrors(o,f,co,cv); NEAR(co,6.); r.getBarrierErrors(o,f,co); NEAR(co,5.5);
 return demo_bad; }
''')
mk('c34-file','C34',"an integer option given in the options file and then set by the user program","an integer value from the options file can be overwritten at run time",r'''@@ src/Utils/hiopOptions.cpp
<<<<
      if(true==option->specifiedInFile) {
        if(false==setFromFile) {
          log_printf(hovWarning,
                     "Hiop will ignore value '%d' set for option '%s' at runtime since this "
                     "option is already specified in the option file.\n",
                     value,
                     name);
          return true;
        }
      }
====
      if(true==option->specifiedInFile) {
        if(false==setFromFile) {
          log_printf(hovWarning,
                     "Hiop will ignore value '%d' set for option '%s' at runtime since this "
                     "option is already specified in the option file.\n",
                     value,
                     name);
          if(value>=option->lb && value<=option->ub) {
            return true;
          }
          // out-of-range value: issue the additional warning below
        }
      }
>>>>
@@ src/Utils/hiopOptions.cpp
<<<<
      if(value<option->lb || value>option->ub) {
        log_printf(hovWarning,
                   "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
                   name,
                   option->lb,
                   option->ub,
                   option->val);
      } else {
====
      if(value<option->lb || value>option->ub) {
        log_printf(hovWarning,
                   "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
                   name,
                   option->lb,
                   option->ub,
                   option->val);
        option->val = std::min(std::max(value, option->lb), option->ub);
      } else {
>>>>
@@demo
'''+PROB+r'''
#include <unistd.h>
int main(int c,char**v){ DemoMPI m(c,v); FILE*f=fopen("hiop.options","w"); fprintf(f,"max_iter 77\nverbosity_level 0\n"); fclose(f);
 { hiopOptionsNLP o; int d=o.GetInteger("max_iter"); CHECK(d==77); o.SetIntegerValue("max_iter",5); CHECK(o.GetInteger("max_iter")==77); o.SetIntegerValue("max_iter",-3); CHECK(o.GetInteger("max_iter")==77);
   int a=o.GetInteger("acceptable_iterations"); o.SetIntegerValue("acceptable_iterations",-1); CHECK(o.GetInteger("acceptable_iterations")==a); }
 return demo_bad; }
''')
mk('c32-shift','C32',"more updates than the memory length, with a memory of at least three pairs","when the oldest pair is dropped the strictly lower triangle L of the compact representation keeps stale entries",r'''@@ src/Optimization/hiopHessianLowRank.cpp
<<<<
  for(int i=1; i<lm1; i++) {
    for(int j=0; j<i; j++) {
      //L_mat[i][j] = L_mat[i+1][j+1];
====
  for(int i=lm1-1; i>0; i--) {
    for(int j=0; j<i; j++) {
      //L_mat[i][j] = L_mat[i+1][j+1];
>>>>
@@demo
'''+PROB+r'''
#include "hiopHessianLowRank.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopVectorPar.hpp"
struct Q: hiopHessianLowRank { Q(hiopNlpDenseConstraints* n,int l):hiopHessianLowRank(n,l){} };
int main(int c,char**v){ DemoMPI m(c,v); const int n=6,mem=4; P p(n); p.cl=-1e3; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetIntegerValue("secant_memory_len",mem); nlp.options->SetStringValue("Hessian","quasinewton_approx"); nlp.finalizeInitialization();
 Q H(&nlp,mem); hiopIterate it(&nlp); for(auto q:{it.x,it.d,it.yc,it.yd,it.sxl,it.sxu,it.sdl,it.sdu,it.zl,it.zu,it.vl,it.vu})q->setToZero(); it.get_sdl()->setToConstant(1.); hiopVector*g=nlp.alloc_primal_vec(); auto*Jc=nlp.alloc_Jac_c(); auto*Jd=nlp.alloc_Jac_d(); Jd->setToZero();
 double A[n][n]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)A[i][j]=(i==j?4.+i:0.5/(1+std::abs(i-j)));
 double px[n]={0},pg[n]={0}; std::vector<std::vector<double>> S,Y; unsigned r=7; auto rnd=[&]{ r=r*1103515245u+12345u; return ((r>>16)%2000)/1000.-1.; };
 for(int k=0;k<9;k++){ double x[n],gr[n]; for(int i=0;i<n;i++)x[i]=px[i]+rnd(); for(int i=0;i<n;i++){gr[i]=0;for(int j=0;j<n;j++)gr[i]+=A[i][j]*x[j];}
  memcpy(it.get_x()->local_data(),x,sizeof x); memcpy(g->local_data(),gr,sizeof gr); H.update(it,*g,*Jc,*Jd);
  if(k){std::vector<double>s(n),y(n);for(int i=0;i<n;i++){s[i]=x[i]-px[i];y[i]=gr[i]-pg[i];}S.push_back(s);Y.push_back(y);} memcpy(px,x,sizeof x);memcpy(pg,gr,sizeof gr); }
 hiopVector*dx=nlp.alloc_primal_vec(); dx->setToZero(); H.updateLogBarrierDiagonal(*dx);
 hiopVector*s=nlp.alloc_primal_vec(),*y=nlp.alloc_primal_vec(); 
 // latest secant condition: H^{-1} y = s
 memcpy(y->local_data(),Y.back().data(),n*8); s->setToZero(); H.solve(*y,*s); for(int i=0;i<n;i++)NEAR(s->local_data()[i],S.back()[i]);
 // and the inverse matches the forward product
 for(int t=0;t<3;t++){ for(int i=0;i<n;i++)y->local_data()[i]=rnd(); H.solve(*y,*s); hiopVector*z=nlp.alloc_primal_vec(); z->setToZero(); H.timesVec(0.,*z,1.,*s); for(int i=0;i<n;i++)CHECK(std::fabs(z->local_data()[i]-y->local_data()[i])<1e-6); }
 return demo_bad; }
''')
mk('c35-clobber','C35',"a base case whose own Hessian diagonal is added before the recourse term","the recourse Hessian replaces the entries instead of being added to them",r'''@@ src/Interface/hiopInterfacePrimalDecomp.cpp
<<<<
  hess.axpy(1.0,*rhess_); 
====
  // the recourse term is diagonal: nothing to accumulate for an empty base-case block
  if(hess.get_local_size() < n) {
    hess.setToZero();
  }
  hess.axpy(1.0,*rhess_); 
>>>>
@@demo
#include "demo.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
using namespace hiop; typedef hiopInterfacePriDecProblem::RecourseApproxEvaluator E;
int main(int c,char**v){ DemoMPI m(c,v); int ix[2]={0,2};
 hiopVectorPar g(2),h(2),x0(2),x(3),out(2); g.setToConstant(1.);h.setToConstant(4.);x0.setToConstant(0.);x.setToConstant(1.);out.setToConstant(10.);
 E e(2,1,ix,"DEFAULT"); e.set_x0(2,x0); e.set_rval(0.); e.set_rgrad(2,g); e.set_rhess(2,h);
 e.eval_hess(3,x,true,out); NEAR(out.local_data()[0],14.); NEAR(out.local_data()[1],14.);
 return demo_bad; }
''')
