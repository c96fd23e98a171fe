#!/opt/venv/bin/python
"""Decide one property: discharge the contracts of the functions it rests on, from /repo's current source.

  check.py Cxx [--thorough]       decide the property, write evidence/Cxx.json
  check.py --replay FILE          run a recorded witness against the current real code
  check.py --unit Name[:cfg]      one contract, verbosely
Exit 0: held. Exit 1 and a VIOLATION line: broken."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path: sys.path.append(p)
import json, time, multiprocessing as mp, traceback, signal, importlib, warnings
warnings.filterwarnings("ignore")
mp = mp.get_context("fork")
from vc import unit, prove, sym, loader
for f in sorted(os.listdir(os.path.join(HERE, "vc", "contracts"))):
    if f.endswith(".py") and f[0] != "_": importlib.import_module("vc.contracts." + f[:-3])

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 1)
LEVEL = "proof"

# ------------------------------------------------------------------ jobs
def job_prove(uname, k):
    u = unit.REG[uname]
    if THOROUGH: sym.CTX.TIMEOUT *= 4
    r = prove.prove_unit(u, u.cfgs[k])
    return dict(unit=uname, cfg=k, obls=[dict(name=o.name, func=o.func, kind=o.kind, status=o.status, backend=o.backend, secs=round(o.secs, 3), detail=str(o.detail)[:300], model=o.model) for o in r.obls],
                unsup=[str(x)[:400] for x in r.unsup], exc=r.exc, paths=r.paths, undeclared=sorted(r.undeclared), inexact=[str(x)[:200] for x in r.inexact], stubs=sorted(r.stubs),
                sources=sorted(r.sources), secs=round(r.secs, 3), queries=r.queries)
def job_conc(uname, k, budget, hints, deep, minruns, salt, iso=False):
    from vc import replay
    u = unit.REG[uname]
    n, cyc, wit, note = replay.search(u, u.cfgs[k], SEED + 1000 * salt, budget, hints, deep, minruns, iso)
    return dict(unit=uname, cfg=k, runs=n, cycles=cyc, witness=wit, note=note)

def runjobs(jobs, limit, until, nproc=NPROC):
    """fork one process per job; -> list of results (an error when it died or ran out of time); all is over at time `until`"""
    res, live, todo = [None] * len(jobs), {}, list(enumerate(jobs))[::-1]
    def start(i, j):
        a, b = mp.Pipe(False)
        def body():
            try: b.send(j[0](*j[1:]))
            except BaseException as e: b.send(dict(error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:]))
            b.close(); os._exit(0)
        p = mp.Process(target=body); p.start(); b.close()
        live[i] = (p, a, time.time())
    while todo or live:
        while todo and len(live) < nproc and time.time() < until: start(*todo.pop())
        if time.time() >= until and todo:
            for i, _ in todo: res[i] = dict(error="not started within the time of this check")
            todo = []
            if not live: break
        ready = mp_wait([a for _, a, _ in live.values()], 0.5)
        for i, (p, a, t) in list(live.items()):
            if a in ready:
                try: res[i] = a.recv()
                except EOFError: res[i] = dict(error="the job died")
                p.join(); a.close(); del live[i]
            elif time.time() - t > limit or time.time() > until + 5:
                p.kill(); p.join(); a.close(); del live[i]
                res[i] = dict(error="time limit of %d s" % limit)
    return res
from multiprocessing.connection import wait as mp_wait

ISO = "C32"                 # the property about frames: only frame obligations decide it
def components():
    """every class of the streams, kernels and metrics that has a contract"""
    return [u for u in unit.REG.values() if u.custom is None and u.kind == "class" and not hasattr(u, "gdims") and type(u).post_init is unit.Unit.post_init and u.path.split(".")[0] in ("stream", "kernel", "metric") and u.path != "kernel.utils.NN_SC_Weight_Clipper"]
def status(r, iso=False):
    """proved | refuted (on the real code, by declared state only) | incomplete"""
    if r is None or "error" in r: return "incomplete"
    bad = [o for o in r["obls"] if o["status"] != "proved" and (not iso or o["kind"] == "frame")]
    if iso and not bad and not r["unsup"] and not r["exc"] and r["paths"]: return "proved"
    if r["unsup"] or r["exc"] or not r["paths"]: return "incomplete"
    if not bad: return "proved"
    if any(o["status"] == "refuted" for o in bad) and not r["undeclared"] and not r["inexact"]: return "refuted"
    return "incomplete"

def hints_of(r):
    h = {}
    for o in (r or {}).get("obls", []):
        for n, v in (o.get("model") or {}).items():
            n = n.split("!")[0]
            try: h.setdefault(n, int(v))
            except (ValueError, TypeError): pass
    return h

def known():
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("finding:"): out.append(json.loads(l[8:]))
    return out

TRUSTED = [
    "z3 5.3.2 (and cvc5 1.1.2 where z3 gives up): soundness of 'unsat'",
    "the symbolic executor in /verif/vc (sym.py, tensor.py, storch.py, loader.py): its reading of Python and of the torch operations used; it executes the files of /repo, re-read on every run, and is compared with the real torch by tools/conform.py",
    "the induction principle: initial state satisfies the invariant, every call preserves it, hence it holds after every history",
]
ASSUME = [
    "floating point is exact rational arithmetic and integer tensors are mathematical integers (no rounding, overflow or NaN); the bounded replay runs the real float32 code",
    "finite sums: linearity in the summand, extensionality and bounds of opaque sums are instantiated as facts",
]

def main(pid):
    t0 = time.time()
    iso = pid == ISO
    own = components() if iso else [u for u in unit.REG.values() if pid in u.props]
    if not own: print("no contract for %s" % pid); return 2
    dep = []
    for u in own if not iso else []:
        for v in u.depends():
            if v not in own and v not in dep: dep.append(v)
    pj = [(job_prove, type(u).__name__, k) for u in own + dep for k in range(len(u.cfgs))]
    limit = 1200 if THOROUGH else 240
    # proofs first, costliest order unknown: run all in parallel processes
    pres = runjobs(pj, limit, t0 + (3600 if THOROUGH else 480))
    P = {(j[1], j[2]): r for j, r in zip(pj, pres)}
    if iso:                                   # what the functions compute is for the other properties to judge
        for r in pres:
            if r and "obls" in r: r["obls"] = [o for o in r["obls"] if o["kind"] == "frame"]
    st = {k: status(r, iso) for k, r in P.items()}
    depbad = sorted(k for k in st if unit.REG[k[0]] in dep and st[k] != "proved")
    ownname = {type(u).__name__ for u in own}
    # bounded replay of the same contracts on the real code under the real torch
    import torch; torch.set_num_threads(1)
    from vc import replay; replay.setup()
    keys = [(type(u).__name__, k) for u in own for k in range(len(u.cfgs))]
    shaken = {n for n in ownname if any(st[n, k] != "proved" for k in range(len(unit.REG[n].cfgs)))}
    for n in ownname:
        if any(k[0] in [type(v).__name__ for v in unit.REG[n].depends()] for k in depbad): shaken.add(n)
    cj = []
    total = 40.0 * NPROC if not THOROUGH else 400.0 * NPROC          # budget for what is not proved
    nsh = sum(1 for k in keys if k[0] in shaken) or 1
    nbad = sum(1 for k in keys if st[k] != "proved") or 1
    for k in keys:
        bad = st[k] != "proved"
        if not (k[0] in shaken): b, deep, mr = (20.0, True, 8) if THOROUGH else (0.7, False, 2)
        elif bad: b, deep, mr = max(8.0, min(total / nbad, 60.0)) * (5 if THOROUGH else 1), True, 10
        else: b, deep, mr = max(2.0, min(total / nsh / 2, 20.0)) * (5 if THOROUGH else 1), True, 5
        hints = {}
        if k[0] in shaken:
            for kk in range(len(unit.REG[k[0]].cfgs)): hints.update(hints_of(P[k[0], kk]))
            hints.update(hints_of(P[k]))
            for d in depbad: hints.update({n: v for n, v in hints_of(P[d]).items() if n not in hints})
        parts = 1 if b < 16 else min(8, max(1, NPROC * 2 // nbad))
        for s in range(parts): cj.append((job_conc, k[0], k[1], b, hints, deep, mr, s, iso))
    cj.sort(key=lambda j: -j[3])
    cres = runjobs(cj, 400 if not THOROUGH else 1500, t0 + (7200 if THOROUGH else 780))
    C = {}
    for j, r in zip(cj, cres): C.setdefault((j[1], j[2]), []).append(r)
    # ---------------------------------------------------------------- verdict
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    kf = [f for f in known() if f["property"] == pid]
    viol, lines, findings = [], [], []
    for k in keys:
        wit = next((r["witness"] for r in C[k] if r and r.get("witness")), None)
        bad = [o for o in (P[k] or {}).get("obls", []) if o["status"] == "refuted"]
        if wit is None and st[k] != "refuted": continue
        f = next((f for f in kf if f["unit"] == k[0] and wit is not None and f["match"] in wit["what"]), None)
        if f is not None:
            if f not in findings: findings.append(f)
            continue
        viol.append((k, wit, bad))
    # one refuted configuration with a witness is enough to speak for those without
    if any(w for _, w, _ in viol): show = [v for v in viol if v[1]]
    else: show = viol
    for k, wit, bad in show[:5]:
        path = os.path.join("replays", "%s-%s-%d.json" % (pid, k[0], k[1]))
        json.dump(dict(property=pid, unit=k[0], path=unit.REG[k[0]].path, cfg_index=k[1], cfg=unit.REG[k[0]].cfgs[k[1]], witness=wit,
                       failed_obligations=[dict(name=o["name"], function=o["func"], kind=o["kind"], counterexample=o["model"]) for o in bad[:20]],
                       verifier_output=(P[k] or {}).get("error") or {x: P[k][x] for x in ("unsup", "exc", "undeclared", "inexact", "paths")},
                       reproduce="/verif/check.py --replay %s" % path), open(os.path.join(HERE, path), "w"), indent=1, default=str)
        if wit: print("  %s: %s" % (unit.REG[k[0]].path, wit["what"]))
        for o in bad[:3]: print("  failed obligation: %s: %s" % (o["func"], o["name"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if wit else " no-failing-input-found"))
    for f in findings: print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    # ---------------------------------------------------------------- evidence
    allr = [(k, P[k]) for k in P if P[k] and "obls" in P[k]]
    obls = [o for _, r in allr for o in r["obls"]]
    done = [o for o in obls if o["status"] == "proved"]
    back = {}
    for o in done: back[o["backend"] or "constant folding"] = back.get(o["backend"] or "constant folding", 0) + 1
    inc = [k for k in P if st[k] != "proved"]
    kinds = {}
    for o in obls: kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    per = {}
    for (n, k), r in allr:
        d = per.setdefault(n, dict(code=unit.REG[n].path, role="deciding" if n in ownname else "contract used by callers", configurations=0, obligations=0, discharged=0, paths=0))
        d["configurations"] += 1; d["obligations"] += len(r["obls"]); d["discharged"] += sum(o["status"] == "proved" for o in r["obls"]); d["paths"] += r["paths"]
    runs = sum(r.get("runs", 0) for rs in C.values() for r in rs if r); cyc = sum(r.get("cycles", 0) for rs in C.values() for r in rs if r)
    stated = sorted({b for u in own + dep for b in getattr(u, "bounded", ())})
    assume = list(ASSUME) + sorted({a for u in own + dep for a in getattr(u, "assumes", ())})
    samples = [dict(obligation=o["name"], function=o["func"], kind=o["kind"], backend=o["backend"], seconds=o["secs"]) for o in (done[:: max(1, len(done) // 12)])[:14]]
    level = LEVEL if not inc else "other"
    cov = dict(obligations=len(obls), discharged=len(done), checker_cmd="/verif/check.py %s" % pid, trusted_base=TRUSTED,
               functions_under_contract=per, obligations_by_kind=kinds, discharged_by=back, solver_seconds=round(sum(r["secs"] for _, r in allr), 2), solver_queries=sum(r["queries"] for _, r in allr),
               sources=sorted({os.path.relpath(s, loader.REPO) for _, r in allr for s in r["sources"]}),
               samples=samples, bounded_stand_in=["%s cfg %s: %s" % (k[0], unit.REG[k[0]].cfgs[k[1]], describe(P[k])) for k in inc], bounded_scope=stated,
               replay_on_real_code=dict(instances=runs, calls=cyc, note="bounded; never counted as discharged"),
               explanation="contracts on the real functions, discharged per function for all inputs, histories and sizes; entries of bounded_stand_in were only run on sampled instances")
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d contracts, %d obligations, %d discharged, %d configurations only bounded; %d real-code instances, %d calls; %.1f s" % (pid, len(per), len(obls), len(done), len(inc), runs, cyc, time.time() - t0))
    for k in inc:
        if st[k] != "refuted": print("  bounded only: %s %s: %s" % (k[0], unit.REG[k[0]].cfgs[k[1]], describe(P[k])))
    for rs in C.values():
        for r in rs:
            if r and (r.get("error") or r.get("note", "").startswith("the contract")): print("  replay note:", r.get("unit"), r.get("error") or r.get("note"), r.get("trace", ""))
    return 1 if viol else 0

def describe(r):
    if r is None: return "no result"
    if "error" in r: return r["error"]
    if r["unsup"]: return "outside the verifier's reach: " + r["unsup"][0]
    if r["exc"]: return "raises " + r["exc"][0]
    if not r["paths"]: return "no feasible path"
    bad = [o for o in r["obls"] if o["status"] != "proved"]
    return "%d obligations not discharged (%s): %s%s" % (len(bad), bad[0]["status"], bad[0]["name"], " [undeclared state %s]" % r["undeclared"] if r["undeclared"] else "") if bad else "proved"

def replay_file(path):
    d = json.load(open(path)); w = d.get("witness")
    if not w: print("no failing input recorded; failed obligations:", json.dumps(d["failed_obligations"], indent=1)); return 1
    from vc import replay; replay.setup()
    u = unit.REG[d["unit"]]
    try: (replay.iso_once if w.get("iso") else replay.run_once)(u, u.cfgs[d["cfg_index"]], w["seed"], w["cycles"], w.get("hints"), w["big"])
    except replay.Bad as b: print("reproduced:", b.args[0]); return 1
    print("not reproduced on the current code"); return 0

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--selftest":
        import subprocess
        print("contracts:", len(unit.REG)); __import__("torch"); import z3
        print("z3", z3.get_version_string(), "cvc5", subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.split("\n")[0])
        bad = 0
        for tool in ("looptest.py", "conform.py"):
            p = subprocess.run([sys.executable, os.path.join(HERE, "tools", tool)], capture_output=True, text=True)
            print(tool, "exit", p.returncode, p.stdout.strip().split("\n")[-1]); bad |= p.returncode
        sys.exit(bad)
    if a and a[0] == "--replay": sys.exit(replay_file(a[1]))
    if a and a[0] == "--unit":
        for n in a[1:]:
            n, _, k = n.partition(":")
            for j in range(len(unit.REG[n].cfgs)):
                if k and int(k) != j: continue
                r = job_prove(n, j)
                print(n, j, unit.REG[n].cfgs[j], status(r), len(r["obls"]), "obligations;", describe(r), r["exc"], r["inexact"][:2], "stubs", r["stubs"], "%.1fs" % r["secs"])
                for o in r["obls"]:
                    if o["status"] != "proved": print("   ", o["func"], "|", o["name"], o["status"], o["detail"], dict(list((o["model"] or {}).items())[:16]))
        sys.exit(0)
    ids = [x for x in a if x[0] != "-"]
    sys.exit(max(main(p) for p in ids))
