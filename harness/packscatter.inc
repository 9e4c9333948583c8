// shared by C02 and C03: copies that pack/scatter through a 0/1 pattern
VF_HARNESS(masked_packing, 0, "done") {
  int n = N();
  DV p = pat(n, "p"); HV P(p); int cnt = 0; for (double v : p) cnt += v != 0;
  switch (vf_choose("op", 2)) {
  case 0: { // pack selected entries of this into dest starting at st
    int extra = vf_choose("extra", 2), st = vf_choose("st", 3);
    HV x(n, "x"), y(st + cnt + extra, "y"); DV e = y.s;
    x.v.copyToStartingAt_w_pattern(y.v, st, P.v);
    int k = st; for (int i = 0; i < n; i++) if (p[i]) e[k++] = x.s[i];
    eqv(y.v, e, "pack by pattern"); x.unchanged(); P.unchanged(); break; }
  case 1: { // scatter entries of this into the selected places of dest
    int st = vf_choose("sd", n + 1), ss = vf_choose("ss", 2), avail = 0; for (int i = st; i < n; i++) avail += p[i] != 0;
    HV x(ss + avail + vf_choose("more", 2), "x"), y(n, "y"); DV e = y.s;
    int mode = vf_choose("count", 2), ne = -1;
    if (mode) { ne = vf_choose("ne", avail + 1); if (ne + st > n) return; }
    int lim = ne < 0 ? (int)std::min<int>((int)x.s.size() - ss, n - st) : ne;
    x.v.startingAtCopyToStartingAt_w_pattern(ss, y.v, st, P.v, ne);
    int k = 0; for (int i = st; i < n && k < lim; i++) if (p[i]) e[i] = x.s[ss + k++];
    eqv(y.v, e, "scatter by pattern"); x.unchanged(); P.unchanged(); break; }
  }
  vf_reach("done");
}
