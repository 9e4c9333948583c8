// vf-bounds: every history of 0..3 (thorough 4) added pairs with arbitrary values, an arbitrary queried pair, an optional reinitialization at every position
#include "fix.hpp"
#include "hiopFilter.hpp"
VF_HARNESS(history, 0, "done") {
  vf_mode_fork(1);
  hiopFilter F;
  double tm = vf_pos("theta_max");
  F.initialize(tm);
  int k = vf_choose("adds", vf_thorough() ? 5 : 4), rein = vf_choose("reinit_at", k + 2); // 0 = never, i = before add i-1 ... k+1 = at the end
  DV th, ph;
  double tcur = tm;
  for (int i = 0; i <= k; i++) {
    if (rein == i + 1) { tcur = vf_pos("theta_max2"); F.reinitialize(tcur); th.clear(); ph.clear(); }
    if (i < k) { double t = vf_nonneg(nm("th", i).c_str()), p = R(nm("ph", i)); F.add(t, p); th.push_back(t); ph.push_back(p); }
  }
  double t = vf_nonneg("t"), p = R("p");
  vf_assume_le(-1e15, p); // phi is above the "minus infinity" placeholder of the initial entry
  bool rej = F.contains(t, p);
  bool e = t >= tcur;
  for (size_t i = 0; i < th.size() && !e; i++) if (t >= th[i] && p >= ph[i]) e = true;
  vf_assert(rej == e, "rejected exactly when dominated");
  // adding a pair never makes a rejected point acceptable
  F.add(vf_nonneg("ta"), R("pa"));
  if (rej) vf_assert(F.contains(t, p), "adding never un-rejects");
  vf_reach("done");
}
VF_HARNESS(clear, 0, "done") {
  hiopFilter F; F.initialize(vf_pos("tm")); F.add(vf_nonneg("t0"), R("p0"));
  F.clear();
  vf_assert(!F.contains(vf_nonneg("t"), R("p")), "an empty filter rejects nothing");
  vf_reach("done");
}
