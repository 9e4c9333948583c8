import subprocess
def mk(id,prop,needs,breaks,spec):
    subprocess.run(["/tmp/wip/v/tools/seed/mk.py",id,prop,'--needs',needs,'--breaks',breaks],input=spec,text=True,check=True)
PROB=r'''
#include "demo.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopInterface.hpp"
#include "hiopIterate.hpp"
using namespace hiop;
// min sum (x_i-1)^2 with one linear constraint
struct P: hiopInterfaceDenseConstraints { hiopAlgFilterIPMQuasiNewton* S=nullptr; double start=0; int n; std::vector<double> xl,xu; double cl,cu; P(int n_):n(n_),xl(n_,-1e20),xu(n_,1e20),cl(-1e20),cu(1e20){}
 bool get_prob_sizes(size_type& a,size_type& b){a=n;b=1;return true;}
 bool get_vars_info(const size_type&,double*l,double*u,NonlinearityType*t){for(int i=0;i<n;i++){l[i]=xl[i];u[i]=xu[i];t[i]=hiopNonlinear;}return true;}
 bool get_cons_info(const size_type&,double*l,double*u,NonlinearityType*t){l[0]=cl;u[0]=cu;t[0]=hiopLinear;return true;}
 bool eval_f(const size_type&,const double*x,bool,double&f){ if(S) on_f();f=0;for(int i=0;i<n;i++)f+=(x[i]-1)*(x[i]-1);return true;}
 bool eval_grad_f(const size_type&,const double*x,bool,double*g){for(int i=0;i<n;i++)g[i]=2*(x[i]-1);return true;}
 bool eval_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*x,bool,double*c){if(k){c[0]=0;for(int i=0;i<n;i++)c[0]+=x[i];}return true;}
 bool eval_Jac_cons(const size_type&,const size_type&,const size_type& k,const index_type*,const double*,bool,double*J){if(k)for(int i=0;i<n;i++)J[i]=1;return true;}
 void on_f(); bool iterate_callback(int it,double,double,int,const double*,const double*,const double*,int,const double*,int,const double*,const double*,double,double,double,double mu,double ad,double ap,int){ if(S) on_cb(it,mu,ad,ap); return true; }
 void on_cb(int,double,double,double);
 bool get_starting_point(const size_type&,double*x){for(int i=0;i<n;i++)x[i]=start;return true;}
};
'''


mk('c16-forget','C16',"the barrier parameter is reduced between two line searches after a pair was added to the filter","the filter is not restarted when the barrier parameter is reduced",r'''@@ src/Optimization/hiopAlgFilterIPM.cpp#1
<<<<
      filter.reinitialize(theta_max);

      if(elastic_mode_on) {
====
      if(elastic_mode_on) {
        filter.reinitialize(theta_max);
>>>>
@@demo
'''+PROB+r'''
static double mu=-1; static int changed=0;
// first evaluation after the barrier parameter changed: no pair added for the old one may count
void P::on_f(){ if(S->solver_status_!=NlpSolve_Pending || S->_mu==mu) return; if(mu>0) { changed++; CHECK(!S->filter.contains(0.5*S->theta_max,1e15)); } mu=S->_mu; }
void P::on_cb(int,double,double,double){}
int main(int c,char**v){ DemoMPI m(c,v); P p(3); p.cl=p.cu=-30; p.xl[0]=-100; p.xu[1]=5; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0);
 hiopAlgFilterIPMQuasiNewton S(&nlp); p.S=&S; S.run(); CHECK(changed>1); return demo_bad; }
''')
mk('c17-old','C17',"a slack below the safeguard threshold in the middle of a run","the bounds are re-derived from the previous iterate after a slack adjustment, so slack and distance to the bound disagree",r'''@@ src/Optimization/hiopAlgFilterIPM.cpp
<<<<
      nlp->adjust_bounds(*it_trial);
      //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
====
      nlp->adjust_bounds(*it_curr);
      //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
>>>>
@@demo
'''+PROB+r'''
static int adj=0;
void P::on_f(){}
void P::on_cb(int it,double,double,double){ double x=S->it_curr->x->local_data()[0], s=S->it_curr->sxl->local_data()[0], b=S->nlp->get_xl().local_data_const()[0]; if(b!=0) adj++; CHECK(s>0); CHECK(std::fabs((x-b)-s)<=1e-6*s); }
int main(int c,char**v){ DemoMPI m(c,v); P p(2); p.cl=p.cu=-1; p.xl[0]=p.xl[1]=0; p.start=1; hiopNlpDenseConstraints nlp(p); nlp.options->SetIntegerValue("verbosity_level",0); nlp.options->SetNumericValue("tau_min",0.99999); nlp.options->SetNumericValue("fixed_var_tolerance",1e-30);
 nlp.options->SetStringValue("accept_every_trial_step","yes"); nlp.options->SetNumericValue("bound_relax_perturb",0.); nlp.options->SetIntegerValue("max_iter",7);
 hiopAlgFilterIPMQuasiNewton S(&nlp); p.S=&S; S.run(); CHECK(adj>0); return demo_bad; }
''')
