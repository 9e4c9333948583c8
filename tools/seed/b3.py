import subprocess
def mk(id,prop,needs,breaks,spec):
    subprocess.run(['./mk.py',id,prop,'--needs',needs,'--breaks',breaks],input=spec,text=True,check=True)
PROB=r'''
#include "demo.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopInterface.hpp"
#include "hiopIterate.hpp"
using namespace hiop;
// min sum (x_i-1)^2 with one linear constraint
struct P: hiopInterfaceDenseConstraints { int n; std::vector<double> xl,xu; double cl,cu; P(int n_):n(n_),xl(n_,-1e20),xu(n_,1e20),cl(-1e20),cu(1e20){}
 bool get_prob_sizes(size_type& a,size_type& b){a=n;b=1;return true;}
 bool get_vars_info(const size_type&,double*l,double*u,NonlinearityType*t){for(int i=0;i<n;i++){l[i]=xl[i];u[i]=xu[i];t[i]=hiopNonlinear;}return true;}
 bool get_cons_info(const size_type&,double*l,double*u,NonlinearityType*t){l[0]=cl;u[0]=cu;t[0]=hiopLinear;return true;}
 bool eval_f(const size_type&,const double*x,bool,double&f){f=0;for(int i=0;i<n;i++)f+=(x[i]-1)*(x[i]-1);return true;}
 bool eval_grad_f(const size_type&,const double*x,bool,double*g){for(int i=0;i<n;i++)g[i]=2*(x[i]-1);return true;}
 bool eval_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*x,bool,double*c){if(k){c[0]=0;for(int i=0;i<n;i++)c[0]+=x[i];}return true;}
 bool eval_Jac_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*,bool,double*J){if(k)for(int i=0;i<n;i++)J[i]=1;return true;}
 bool get_starting_point(const size_type&,double*x){for(int i=0;i<n;i++)x[i]=0;return true;}
};
'''

mk('c24-second','C24',"bounds relaxed a second time by another amount (elastic mode), with an inequality upper bound of magnitude above one","tightening after relaxation scales the upper inequality bounds by the already relaxed value",r'''@@ src/Optimization/hiopNlpTransforms.cpp
<<<<
  du.copyFrom(*du_ori);
  du.component_abs();
====
  du.component_abs();
>>>>
@@demo
'''+PROB+r'''
#include "hiopNlpTransforms.hpp"
#include "hiopVectorPar.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.finalizeInitialization();
 hiopVectorPar xl(2),xu(2),dl(1),du(1); xl.setToConstant(-30.); xu.setToConstant(50.); dl.setToConstant(-7.); du.setToConstant(40.);
 hiopBoundsRelaxer R(&nlp,xl,xu,dl,du); 
 for(double e : {1., 0.25, 0.125, 0.}) { if(e==1.) R.relax(e,xl,xu,dl,du); else R.relax_from_ori(e,xl,xu,dl,du);
  NEAR(xl.local_data()[1],-30*(1+e)); NEAR(xu.local_data()[0],50*(1+e)); NEAR(dl.local_data()[0],-7*(1+e)); NEAR(du.local_data()[0],40*(1+e)); }
 return demo_bad; }
''')
mk('c16-current','C16',"close to feasibility with the switching condition not holding, a trial whose infeasibility drops but which another filter entry dominates","the trial point is tested against the filter with the objective of the current instead of the trial point",r'''@@ src/Optimization/hiopAlgFilterIPM.cpp
<<<<
        trial_is_rejected_by_filter = false;
        return bret;
      }
      
      //check filter condition
      if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
====
        trial_is_rejected_by_filter = false;
        return bret;
      }
      
      //check filter condition
      if(filter.contains(theta_trial,std::fmin(logbar->f_logbar,logbar->f_logbar_trial))) {
>>>>
@@demo
'''+PROB+r'''
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.finalizeInitialization();
 hiopAlgFilterIPMQuasiNewton S(&nlp); S.reload_options(); S.theta_min=1.; S.theta_max=1e4; S.filter.initialize(1e4); 
 S.filter.add(1e-3, 5.);           // (theta, phi) taboo: at least as infeasible and with phi at least 5
 S.logbar->f_logbar=1.; S.logbar->f_logbar_trial=20.; bool g=true; double gphi=1.;   // an ascent direction: the switching condition fails
 int r=S.accept_line_search_conditions(0.5, 0.01, 1., g, gphi); CHECK(r==0); CHECK(S.trial_is_rejected_by_filter);
 S.logbar->f_logbar_trial=4.; r=S.accept_line_search_conditions(0.5, 0.01, 1., g, gphi); CHECK(r==2);
 return demo_bad; }
''')
mk('c25-small','C25',"gradient scaling active for one inequality while another inequality has a small gradient","inequalities with small gradients are scaled up instead of being left alone",r'''@@ src/Optimization/hiopNlpTransforms.cpp
<<<<
      scale_factor_d->scale(1./max_grad);
      scale_factor_d->component_max(1.0);
      scale_factor_d->invert();               
====
      scale_factor_d->scale(1./max_grad);
      scale_factor_d->component_max(std::fmin(1.0, min_grad > 0. ? max_grad*min_grad : 1.0));
      scale_factor_d->invert();               
>>>>
@@demo
'''+PROB+r'''
#include "hiopNlpTransforms.hpp"
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetNumericValue("scaling_max_grad",100.); nlp.options->SetNumericValue("scaling_min_grad",1e-8); nlp.finalizeInitialization();
 hiopVectorPar cc(1),dd(2),g(2); cc.setToZero();dd.setToZero();g.setToConstant(3.); hiopMatrixDenseRowMajor Jc(1,2),Jd(2,2); Jc.setToConstant(2.); Jd.setToZero(); Jd.local_data()[0]=1000.; Jd.local_data()[3]=0.5;
 hiopVectorIntSeq me(1),mi(2); me.local_data()[0]=0; mi.local_data()[0]=1; mi.local_data()[1]=2;
 hiopNLPObjGradScaling T(&nlp,cc,dd,g,Jc,Jd,me,mi); hiopVectorPar y(2); y.setToConstant(1.); hiopVector* z=T.apply_to_cons_ineq(y,2); NEAR(z->local_data()[0],0.1); NEAR(z->local_data()[1],1.);
 return demo_bad; }
''')
mk('c33-dr','C33',"feasibility restoration entered at a point with an entry of magnitude above one","the gradient of the restoration objective misses one proximal weight and is not the derivative of the objective",r'''@@ src/Optimization/hiopFRProb.cpp#3
<<<<
  wrk_x_->axpy(-1.0, *x_ref_);
  wrk_x_->componentMult(*DR_);
  wrk_x_->componentMult(*DR_);
  wrk_x_->scale(zeta_);
====
  wrk_x_->axpy(-1.0, *x_ref_);
  wrk_x_->componentMult(*DR_);
  wrk_x_->scale(zeta_);
>>>>
@@demo
'''+PROB+r'''
#include "hiopFRProb.hpp"
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=0; p.xl[0]=-1; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.finalizeInitialization();
 hiopAlgFilterIPMQuasiNewton S(&nlp); S.reload_options(); double*x=S.it_curr->get_x()->local_data(); x[0]=8; x[1]=-0.5; S._mu=4.;
 hiopFRProbDense F(S); size_type n,mm; F.get_prob_sizes(n,mm); std::vector<double> z(n,1.),g(n); z[0]=3; z[1]=2; F.eval_grad_f(n,z.data(),true,g.data());
 for(int i=0;i<n;i++){ auto a=z,b=z; a[i]+=1; b[i]-=1; double fa,fb; F.eval_f(n,a.data(),true,fa); F.eval_f(n,b.data(),true,fb); NEAR((fa-fb)/2,g[i]); }
 return demo_bad; }
''')
mk('c25-onecall','C25',"a problem with one-call constraint evaluation and active gradient scaling of the constraints","inequality bodies evaluated in one call are not scaled, although their Jacobian and bounds are",r'''@@ src/Optimization/hiopNlpFormulation.cpp
<<<<
    // scale d
    d = *(nlp_transformations_.apply_to_cons_ineq(d, n_cons_ineq_));
====
    // scale d
    if(n_cons_eq_ > 0) {
      d = *(nlp_transformations_.apply_to_cons_ineq(d, n_cons_ineq_));
    }
>>>>
@@demo
'''+PROB+r'''
struct Q: P { Q():P(2){} 
 bool eval_cons(const size_type&,const size_type&,const size_type&,const index_type*,const double*,bool,double*){return false;}
 bool eval_Jac_cons(const size_type&,const size_type&,const size_type&,const index_type*,const double*,bool,double*){return false;}
 bool eval_cons(const size_type&,const size_type&,const double*x,bool,double*c){c[0]=1e4*(x[0]+x[1]);return true;}
 bool eval_Jac_cons(const size_type&,const size_type&,const double*,bool,double*J){J[0]=J[1]=1e4;return true;} };
int main(int c,char**v){ DemoMPI m(c,v); Q p; p.cl=-1e4; p.cu=1e4; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetStringValue("scaling_type","gradient"); nlp.finalizeInitialization();
 hiopAlgFilterIPMQuasiNewton S(&nlp); S.reload_options(); double f; S.it_curr->get_x()->setToConstant(1.); auto* it=S.it_curr;
 CHECK(S.evalNlp_noHess(*it,f,*S._c,*S._d,*S._grad_f,*S._Jac_c,*S._Jac_d)); 
 nlp.apply_scaling(*S._c,*S._d,*S._grad_f,*S._Jac_c,*S._Jac_d); S.evalNlp_noHess(*it,f,*S._c,*S._d,*S._grad_f,*S._Jac_c,*S._Jac_d);
 auto* J=dynamic_cast<hiopMatrixDense*>(S._Jac_d); double s=J->local_data()[0]/1e4; CHECK(s<0.5); NEAR(S._d->local_data()[0],s*2e4);
 return demo_bad; }
''')
