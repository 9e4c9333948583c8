import subprocess
def mk(id,prop,needs,breaks,spec):
    subprocess.run(['./mk.py',id,prop,'--needs',needs,'--breaks',breaks],input=spec,text=True,check=True)
mk('c05-skipfixed','C05',"a direction with two blocking entries, the first already making the step shorter than 0.01 and a later one more blocking","step-to-boundary loop exits early once the step is short, so a later slack can be driven negative",r'''@@ src/LinAlg/hiopVectorPar.cpp
<<<<
    if(aux<alpha) alpha=aux;
  }
  return alpha;
}

void hiopVectorPar::selectPattern(const hiopVector& ix_)
====
    if(aux<alpha) alpha=aux;
    //step is already very short; no need to look further
    if(alpha<1e-2) break;
  }
  return alpha;
}

void hiopVectorPar::selectPattern(const hiopVector& ix_)
>>>>
@@demo
#include "demo.hpp"
#include "hiopVectorPar.hpp"
using namespace hiop;
int main(int c,char**v){ DemoMPI m(c,v);
 hiopVectorPar x(2),d(2),ix(2); ix.setToConstant(1.); x.setToConstant(1.); d.local_data()[0]=-200; d.local_data()[1]=-1000;
 double a=x.fractionToTheBdry_w_pattern_local(d,0.9,ix);
 CHECK(x.local_data()[1]+a*d.local_data()[1]>0); NEAR(a,0.9/1000);
 return demo_bad; }
''')
mk('c04-narrow','C04',"a variable with a lower bound only, of magnitude above one, starting close to it","start is pushed from a one-sided lower bound by kappa1 only, not kappa1*max(1,|xl|), for negative lower bounds",r'''@@ src/LinAlg/hiopVectorPar.cpp
<<<<
        x0[i] = fmax(x0[i], xl[i]+kappa1*fmax(1, fabs(xl[i]))-small_double);
====
        x0[i] = fmax(x0[i], xl[i]+kappa1*fmax(1, xl[i])-small_double);
>>>>
@@demo
#include "demo.hpp"
#include "hiopVectorPar.hpp"
using namespace hiop;
int main(int c,char**v){ DemoMPI m(c,v);
 hiopVectorPar x(1),xl(1),ixl(1),xu(1),ixu(1); xl.setToConstant(-1000.);xu.setToConstant(0.);ixl.setToConstant(1.);ixu.setToConstant(0.);
 x.setToConstant(-2000.); CHECK(x.projectIntoBounds_local(xl,ixl,xu,ixu,1e-2,1e-2));
 NEAR(x.local_data()[0], -1000.+10.);
 return demo_bad; }
''')
