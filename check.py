#!/usr/bin/env python3
"""Driver: decide one property of /repo's current tree by symbolic execution + SMT.

  check.py Cnn [--tier quick|thorough] [--only h1,h2] [--repo DIR] [--keep]
  check.py --replay CAND_FILE        (re-run one counterexample natively; prints the outcome)
  check.py --setup                   (build plugin and runtimes)
"""
import signal, sys, os, re, json, hashlib, subprocess, time, shutil, glob, argparse, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
ENG = VERIF + "/engine"
CACHE = os.environ.get("VF_CACHE", VERIF + "/.cache")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
LLVMCONFIG = next((p for p in ["/usr/lib/llvm-18/bin/llvm-config", shutil.which("llvm-config-18") or "", shutil.which("llvm-config") or ""] if p and os.path.exists(p)), "")
Z3NEW = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
MPIINC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
SRC_INC = ["Interface", "ExecBackends", "Optimization", "LinAlg", "Utils", "_Internals"]
SOURCES = ["Interface/hiopInterfacePrimalDecomp.cpp", "Interface/chiopInterface.cpp"] + \
  ["Optimization/%s.cpp" % s for s in "hiopNlpFormulation hiopFactAcceptor hiopIterate hiopResidual hiopFilter hiopAlgFilterIPM hiopKKTLinSys hiopKKTLinSysMDS hiopHessianLowRank hiopDualsUpdater hiopNlpTransforms hiopPDPerturbation hiopAlgPrimalDecomp hiopFRProb".split()] + \
  ["LinAlg/%s.cpp" % s for s in "hiopVectorPar hiopVectorIntSeq hiopMatrixDenseRowMajor hiopLinSolver LinAlgFactory hiopMatrixMDS hiopMatrixComplexDense hiopMatrixSparseTripletStorage hiopMatrixSparseTriplet hiopMatrixComplexSparseTriplet hiopMatrixSparseCSRSeq hiopLinearOperator hiopKrylovSolver hiopVectorCompoundPD hiopVectorIntCompoundPD hiopLinSolverUMFPACKZ".split()] + \
  ["Utils/%s.cpp" % s for s in "hiopLogger hiopOptions MathKernelsHost hiopKronReduction".split()]
BASE = ["-std=gnu++14", "-w", "-g0", "-mlong-double-64", "-fno-access-control"]
CC = CXX.replace("clang++", "clang")
SYM = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno"]
NAT = ["-O1", "-ffp-contract=off", "-g0"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def hsh(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

class BuildError(Exception): pass

def build_one(key, out_name, cmd_fn, stats=None):
    out = CACHE + "/" + out_name + "-" + key
    if not os.path.exists(out):
        tmp = out + ".tmp%d_%s" % (os.getpid(), hsh(out_name, time.time())[:6])
        r = sh(cmd_fn(tmp))
        if r.returncode != 0:
            raise BuildError("build of %s failed:\n%s" % (out_name, r.stdout[-6000:]))
        os.rename(tmp, out)
        if stats is not None: stats["compiled"] = stats.get("compiled", 0) + 1
    elif stats is not None: stats["cached"] = stats.get("cached", 0) + 1
    return out

def z3flags():
    if os.path.exists(Z3NEW + "/lib/libz3.so"):
        return ["-I" + Z3NEW + "/include"], [Z3NEW + "/lib/libz3.so", "-Wl,-rpath," + Z3NEW + "/lib"]
    return [], ["-lz3"]

def build_tools():
    os.makedirs(CACHE, exist_ok=True)
    flags = [f for f in sh([LLVMCONFIG, "--cxxflags"]).stdout.split() if not f.startswith("-std")]
    psrc = ENG + "/pass/VfPass.cpp"
    zi, zl = z3flags()
    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(build_one, hsh(rd(psrc)), "VfPass.so", lambda o: [CXX, "-O1", "-fPIC", "-shared", "-fno-rtti"] + flags + ["-std=c++17", "-w", psrc, "-o", o])
        b = ex.submit(build_one, hsh(rd(ENG + "/rt/rt.cpp"), rd(ENG + "/rt/poly.hpp"), rd(ENG + "/vf.h"), zi), "rt.o", lambda o: [CXX, "-O2", "-std=c++17", "-w"] + zi + ["-c", ENG + "/rt/rt.cpp", "-o", o])
        c = ex.submit(build_one, hsh(rd(ENG + "/rt/replay.cpp"), rd(ENG + "/vf.h")), "replay.o", lambda o: [CXX, "-O1", "-std=c++17", "-w", "-c", ENG + "/rt/replay.cpp", "-o", o])
        return a.result(), b.result(), c.result()

_hdr = {}
def header_hash():
    if REPO not in _hdr:
        h = hashlib.sha256()
        for root, ds, fs in os.walk(REPO + "/src"):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p[len(REPO):].encode()); h.update(rd(p))
        for f in sorted(glob.glob(ENG + "/cfg/*") + glob.glob(ENG + "/stubs/*.h") + [ENG + "/vf.h"] + glob.glob(VERIF + "/harness/*.hpp")): h.update(rd(f))
        _hdr[REPO] = h.hexdigest()
    return _hdr[REPO]

def incs():
    return ["-I" + ENG + "/cfg", "-I" + ENG, "-I" + ENG + "/stubs", "-I" + VERIF + "/harness"] + MPIINC + ["-I/usr/include/eigen3"] + ["-I%s/src/%s" % (REPO, d) for d in SRC_INC]

def build_binary(plugin, rt, files, xflags, srcs, native, stats):
    mode = NAT if native else SYM + ["-fpass-plugin=" + plugin]
    flags = BASE + mode + xflags + incs()
    fkey = hsh(*(BASE + (NAT if native else SYM) + xflags), rd(plugin) if not native else b"", header_hash(), REPO)
    def comp(p):
        nm = os.path.basename(p).replace(".cpp", "") + (".n.o" if native else ".s.o")
        cf = [f for f in flags if not f.startswith("-std") and f != "-fno-access-control"] if p.endswith(".c") else flags
        return build_one(hsh(fkey, p, rd(p)), nm, lambda o: [CC if p.endswith(".c") else CXX, "-c"] + cf + [p, "-o", o], stats)
    todo = [REPO + "/src/" + s for s in srcs if os.path.exists(REPO + "/src/" + s)] + [ENG + "/stubs/stubs.cpp"] + files
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(comp, todo))
    zi, zl = z3flags()
    link = [rt] + objs + ([] if native else zl + ["-lgmpxx", "-lgmp"]) + ["-lm", "-lpthread"]
    return build_one(hsh(*link), "bin", lambda o: [CXX, "-o", o, "-Wl,--allow-multiple-definition"] + link)

def groups_for(prop):
    g = {}
    for f in sorted(glob.glob("%s/harness/%s_*.cpp" % (VERIF, prop))):
        txt = open(f).read()
        fl = " ".join(re.findall(r"^// vf-flags: (.*)$", txt, re.M)).split()
        fl = [x.replace("@REPO@", REPO).replace("@VERIF@", VERIF) for x in fl]
        ex = " ".join(re.findall(r"^// vf-sources: (.*)$", txt, re.M)).split()
        g.setdefault((tuple(fl), tuple(ex)), []).append(f)
    return g

def trim_cache():
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + "/*") if os.path.isfile(p)]
    tot = sum(x[1] for x in fs)
    fs.sort()
    while tot > 3_000_000_000 and fs:
        _, s, p = fs.pop(0)
        try: os.unlink(p)
        except OSError: pass
        tot -= s

def load_known():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\"([^\"]*)\" :: (.*)", l)
            if m: out.append(m.groups())
    return out

def cand_meta(p):
    d = {}
    for l in open(p):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("harness", "kind", "label"): d[k] = v
        if k == "reals": break
    return d

def replay(native, cand, tier):
    try:
        r = subprocess.run([native, cand] + (["thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=150, errors="replace")
        return r.returncode, r.stdout.strip()[-400:]
    except subprocess.TimeoutExpired:
        return 12, "timeout"

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--deadline", type=float, default=0)
    A = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plugin, rt, rep = build_tools()
    if A.setup:
        print("tools built"); return 0
    if A.replay:
        prop = os.path.basename(os.path.dirname(os.path.abspath(A.replay))).split(".")[0]
        meta = cand_meta(A.replay)
        tier = "thorough" if "tier thorough" in open(A.replay).read() else "quick"
        for (fl, ex), files in groups_for(prop).items():
            nat = build_binary(plugin, rep, files, list(fl), SOURCES + list(ex), True, {})
            rc, out = replay(nat, A.replay, tier)
            if rc == 2: continue
            print(out); print("exit", rc)
            return 1 if rc == 10 else 0
        return 2
    prop, tier = A.prop, A.tier
    G = groups_for(prop)
    if not G:
        print("no harness for", prop); return 2
    budget = A.deadline or (480 if tier == "quick" else 5400)
    outdir = "%s/replays/%s" % (VERIF, prop) if not A.only else "%s/replays/%s.only" % (VERIF, prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    known = [k for k in load_known() if k[0] == prop]
    tot, viol, knownhit, spurious, samples, val_ok, val_bad = {}, [], [], [], [], 0, []
    dead = False
    bst, funcs, labels, reached, missing, und, errs, harn, incomplete = {}, set(), {}, set(), [], [], [], [], False
    ng = len(G)
    try:
        for gi, ((fl, ex), files) in enumerate(G.items()):
            srcs = SOURCES + list(ex)
            binp = build_binary(plugin, rt, files, list(fl), srcs, False, bst)
            gout = outdir + "/g%d" % gi
            os.makedirs(gout, exist_ok=True)
            left = budget - (time.time() - t0)
            dl = max(30, left / (ng - gi) - 15)
            cmd = [binp, "--out", gout, "--tier", tier, "--deadline", str(dl), "--qto", "5" if tier == "quick" else "20", "--ato", "15" if tier == "quick" else "90"]
            if A.only: cmd += ["--only", A.only]
            r = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            # native build in the meantime
            nat = build_binary(plugin, rep, files, list(fl), srcs, True, {})
            # replay counterexamples as they appear; a confirmed one that is not a known finding ends the exploration
            tried, stopped, o = {}, False, ""
            while True:
                try: o, _ = r.communicate(timeout=2); break
                except subprocess.TimeoutExpired: pass
                if stopped or A.keep: continue
                for c in sorted(glob.glob(gout + "/cand_*.txt")):
                    if c in tried: continue
                    try: m = cand_meta(c)
                    except Exception: continue
                    tried[c] = 1
                    if [k for k in known if k[1] == m["harness"] and k[2] == m["label"]]: continue
                    if replay(nat, c, tier)[0] == 10:
                        stopped = True; r.send_signal(signal.SIGUSR1); break
            if os.path.exists(gout + "/stats.json"):
                st = json.loads(open(gout + "/stats.json", errors="replace").read())
            else:  # the engine was ended: what it had found still counts once reproduced on the native build
                st, dead = {"functions": [], "reached": [], "missing_reach": [], "undecided_labels": [], "error_messages": ["engine failed: " + o[-300:]],
                            "harnesses": [], "incomplete": True, "labels": {}, "errors": 1}, True
            for k, v in st.items():
                if isinstance(v, bool): continue
                if isinstance(v, (int, float)): tot[k] = (max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v)
            funcs |= set(st["functions"]); reached |= set(st["reached"]); missing += st["missing_reach"]; und += st["undecided_labels"]; errs += st["error_messages"]; harn += st["harnesses"]
            incomplete |= st["incomplete"] or stopped
            for k, v in st["labels"].items(): labels[k] = labels.get(k, 0) + v
            cands = {}
            for c in sorted(glob.glob(gout + "/cand_*.txt")):
                m = cand_meta(c)
                cands.setdefault((m["harness"], m["kind"], m["label"]), []).append(c)
            for key, cs in sorted(cands.items()):
                hit, outs = None, []
                for c in cs:
                    rc, out = replay(nat, c, tier)
                    outs.append("%d %s" % (rc, out))
                    if rc == 10: hit = c; break
                if not hit:
                    spurious.append({"harness": key[0], "label": key[2], "replays": outs[:2]}); continue
                kk = [k for k in known if k[1] == key[0] and k[2] == key[2]]
                if kk:
                    if kk[0] not in knownhit: knownhit.append(kk[0])
                    continue
                dst = "%s/%s_%s.txt" % (outdir, key[0], re.sub(r"[^A-Za-z0-9]+", "_", key[2])[:60])
                shutil.copy(hit, dst)
                with open(dst, "a") as f: f.write("tier %s\noutcome %s\n" % (tier, outs[-1]))
                viol.append({"harness": key[0], "kind": key[1], "label": key[2], "replay": dst, "outcome": outs[-1]})
            for c in sorted(glob.glob(gout + "/sample_*.txt")):
                rc, out = replay(nat, c, tier)
                if rc == 0:
                    val_ok += 1
                    if len(samples) < 3:
                        samples.append(open(c).read()[:600])
                else: val_bad.append({"sample": open(c).read()[:300], "outcome": "%d %s" % (rc, out)})
            if not A.keep: shutil.rmtree(gout, ignore_errors=True)
    except BuildError as e:
        print(e); return 2
    try: trim_cache()
    except OSError: pass
    for k in knownhit: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for v in viol:
        print("counterexample: harness=%s kind=%s assertion=%s (%s)" % (v["harness"], v["kind"], v["label"], v["outcome"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    ver = {}
    for t, c in (("z3", [CXX, "--version"]),):
        pass
    cov = {
        "states": tot.get("paths", 0), "transitions": tot.get("branches", 0) + tot.get("choices", 0),
        "traces_validated_against_impl": val_ok,
        "samples": samples or ["no concrete model was extracted in this run"],
        "paths_pruned_infeasible": tot.get("pruned", 0), "forks": tot.get("forks", 0),
        "solver_queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0),
        "solver_s": round(tot.get("solver_s", 0), 2), "second_solver_answers": tot.get("external_solver", 0),
        "assertions_on_symbolic_values": tot.get("asserts_symbolic", 0), "decided_by_exact_normal_form": tot.get("proved_normal_form", 0),
        "decided_by_solver": tot.get("proved_solver", 0), "assertions_on_values_concrete_on_a_path": tot.get("asserts_concrete", 0),
        "assertion_labels": labels, "undecided_assertions": tot.get("undecided", 0), "undecided_labels": und,
        "engine_errors": tot.get("errors", 0), "engine_error_messages": errs[:20], "incomplete": incomplete,
        "harnesses": harn, "markers_reached": sorted(reached), "markers_missing": missing,
        "functions_encoded": len(funcs), "functions_encoded_names": demangle(sorted(funcs)),
        "candidates_not_reproduced": spurious[:20], "sample_replays_disagreeing": val_bad[:10],
        "counterexamples_confirmed": viol, "known_findings_seen": [k[3] for k in knownhit],
        "bounds": bounds_of(G), "build": bst,
        "exhaustive": bool(tot.get("undecided", 0) == 0 and tot.get("errors", 0) == 0 and not incomplete and not missing),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["doubles are interpreted as exact real numbers (rounding, overflow, NaN propagation are outside the encoding; IEEE infinities and NaN are handled when concrete)",
                          "BLAS are reference loops executed symbolically; LAPACK/UMFPACK/MPI are contract models in engine/stubs (a solve returns any x with A x = b)",
                          "bounds: " + "; ".join(bounds_of(G))],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not A.only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: paths=%d pruned=%d branches=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs asserts=%d+%d nf=%d z3=%d undecided=%d errors=%d missing=%s spurious=%d validated=%d/%d wall=%.1fs" % (
        prop, tier, cov["states"], cov["paths_pruned_infeasible"], cov["transitions"], cov["solver_queries"], cov["sat"], cov["unsat"], cov["unknown"], cov["solver_s"],
        cov["assertions_on_symbolic_values"], cov["assertions_on_values_concrete_on_a_path"], cov["decided_by_exact_normal_form"], cov["decided_by_solver"], cov["undecided_assertions"], cov["engine_errors"], missing, len(spurious), val_ok, val_ok + len(val_bad), time.time() - t0))
    for e in errs[:8]: print("  engine:", e)
    for u in und[:8]: print("  undecided:", u)
    for s in spurious[:6]: print("  not reproduced:", s["harness"], s["label"], s["replays"][:1])
    for s in val_bad[:3]: print("  sample disagrees:", s["outcome"], s["sample"][:80].replace("\n", " | "))
    if not viol and not A.only and not A.keep: shutil.rmtree(outdir, ignore_errors=True)
    return 1 if viol else 2 if dead else 0

def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return [n[:160] for n in r.stdout.split("\n")]
    except OSError:
        return names

def bounds_of(G):
    b = []
    for fs in G.values():
        for f in fs: b += [x.strip() for x in re.findall(r"^// vf-bounds: (.*)$", open(f).read(), re.M)]
    return b or ["see DESIGN.md"]

if __name__ == "__main__":
    try: sys.exit(main())
    except BuildError as e:
        print(e); sys.exit(2)
