"""Bounded replay: the same contracts evaluated on numbers against the real code under the real torch."""
import copy, importlib, itertools, os, random, sys, tempfile, time, traceback, atexit, shutil, warnings
warnings.filterwarnings("ignore")
from .sym import *
from .unit import *
from . import unit as U

REPO = os.environ.get("VERIF_REPO", "/repo")
_ready = False
def setup():
    global _ready
    if _ready: return
    sys.dont_write_bytecode = True
    d = tempfile.mkdtemp(prefix="vcreal.")
    atexit.register(shutil.rmtree, d, True)
    os.symlink(REPO, os.path.join(d, "UnarySim"))
    sys.path.insert(0, d)
    import torch
    torch.set_num_threads(1)
    CTX.expand = 1 << 60
    _ready = True
def real(path):
    setup()
    mod, n = path.rsplit(".", 1)
    return getattr(importlib.import_module("UnarySim." + mod), n)

def same_tensor(a, b):
    import torch
    return a.shape == b.shape and a.dtype == b.dtype and bool(torch.equal(torch.nan_to_num(a.detach().double(), 7e77), torch.nan_to_num(b.detach().double(), 7e77)))
def clone(v):
    import torch
    if isinstance(v, torch.Tensor): return v.detach().clone()
    if isinstance(v, dict): return {k: clone(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return type(v)(clone(x) for x in v)
    return v
def unchanged(a, b):
    import torch
    if isinstance(a, torch.Tensor): return isinstance(b, torch.Tensor) and same_tensor(a, b)
    if isinstance(a, dict): return a.keys() == b.keys() and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return a is b or a == b

def differs(o, a, dt, tol, nm, mag=None):
    """None, or how the tensor o of the code differs from the contract's array a"""
    import torch
    if a is None: return None if dt is None or o.dtype is dt else "%s has dtype %s, the contract says %s" % (nm, o.dtype, dt)
    if not isinstance(o, torch.Tensor):
        if a.dims: return "%s: not a tensor" % nm
        e = a.at(())
        return None if num(norm(o)) == num(e) else "%s is %s, the contract says %s" % (nm, o, e)
    if tuple(o.shape) != tuple(a.dims): return "%s has shape %s, the contract says %s" % (nm, tuple(o.shape), tuple(a.dims))
    if dt is not None and o.dtype is not dt: return "%s has dtype %s, the contract says %s" % (nm, o.dtype, dt)
    flat = (o.detach().double() if o.dtype.is_floating_point else o.detach()).reshape(-1).tolist()
    for k, i in enumerate(itertools.product(*[range(d) for d in a.dims])):
        e = num(a.at(i)); g = flat[k]
        if g == e: continue
        if isinstance(g, float) and (g != g or g in (float("inf"), float("-inf"))): return "%s%s is %s, the contract says %s" % (nm, list(i), g, e)
        if tol and abs(g - float(e)) <= tol * max(1.0, abs(float(e))): continue
        if mag is not None and abs(g - float(e)) <= 4e-6 * abs(float(mag.at(i))): continue       # rounding of large terms that cancel
        return "%s%s is %s, the contract says %s" % (nm, list(i), g, e if isinstance(e, int) else "%s (%s)" % (e, float(e)))
    return None

class Bad(Exception): pass

def refill(ins, outs):
    """the caller puts the next values into the tensors it passed in (those a result does not share)"""
    import torch
    def where(t): return t.untyped_storage().data_ptr()
    used = {where(o) for o in outs}
    for x in ins:
        if isinstance(x, torch.Tensor) and where(x) not in used and not x.requires_grad:
            with torch.no_grad(): x.copy_(1 - x if x.dtype is not torch.bool else ~x)

def params(v, E):
    import torch
    if isinstance(v, torch.Tensor): return "tensor%s %s" % (list(v.shape), v.detach().reshape(-1)[:24].tolist())
    if isinstance(v, dict): return {k: params(x, E) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [params(x, E) for x in v]
    return str(v)

def run_once(u, cfg, seed, cycles, hints=None, big=False):
    """one random instance and history; raises Bad(description) at the first disagreement"""
    import torch
    torch.manual_seed(seed)
    import numpy; numpy.random.seed(seed % (1 << 31))
    E = ConEnv(seed, hints, big); CUR.env = E
    if u.custom is None or u.concrete_full:
        cls = real(u.path)
        args, kw = u.args(E, cfg)
        P = u.parse(*args, **kw)
        for nm, c in u.pre(P):
            if not truth(c): raise Infeasible()
        s0 = clone([args, kw])
        info = {"arguments": params([args, kw], E), "cfg": cfg, "seed": seed}
        def code(f, *a):
            try: return f(*a)
            except (Bad, Infeasible, Unsupported): raise
            except Exception as e:
                raise Bad("%s raised %s: %s" % (info.get("at", "constructor"), type(e).__name__, e), info)
        obj = code(lambda: u.make(cls, args, kw, real))
        twin = code(lambda: u.make(cls, args, kw, real)) if seed % 3 == 1 and u.twin else None
        if not unchanged(s0, [args, kw]): raise Bad("the constructor changed its arguments: %s -> %s" % (params(s0, E), params([args, kw], E)), info)
        st = u.init(P)
        held = []; hist = []
        if not u.stateful: cycles = min(cycles, 6)
        for t in range(cycles):
            if E.rnd.random() < 0.02: E.new_profile()
            if twin is not None and t and E.rnd.random() < 0.7:
                info["at"] = "a second instance at cycle %d" % t
                P2 = NS(P)
                code(lambda: u.call(twin, u.inputs(E, P2, cfg, t)))
            ins = u.inputs(E, P, cfg, t)
            copies = clone(ins)
            arrs = [E.of(x) if isinstance(x, torch.Tensor) else x for x in ins]
            for nm, dims, f in u.requires(P, arrs):
                for i in itertools.product(*[range(d) for d in dims]):
                    if not truth(f(i)): raise Infeasible()
            info["at"] = "call %d" % t
            hist.append(params(ins, E)); info["inputs"] = hist[-12:]
            outs = code(lambda: aslist(u.call(obj, ins)))
            eo, nst = u.step(P, st, arrs)
            eo = [(a.force() if a is not None else None, d) for a, d in eo]
            if len(outs) != len(eo): raise Bad("call %d returned %d results" % (t, len(outs)), info)
            mags = u.magnitude(P, st, arrs) if u.tol else []
            for k, (o, (a, d)) in enumerate(zip(outs, eo)):
                m = differs(o, a, d, u.tol, u.outnames[k] if k < len(u.outnames) else "output %d" % k, mags[k] if k < len(mags) else None)
                if m: raise Bad("call %d: %s" % (t, m), info)
            for k, (x, y) in enumerate(zip(ins, copies)):
                if not unchanged(y, x): raise Bad("call %d changed its argument %d: %s -> %s" % (t, k, params(y, E), params(x, E)), info)
            if not unchanged(s0, [args, kw]): raise Bad("call %d changed a constructor argument" % t, info)
            for x, c, tt in held:
                if not same_tensor(x, c): raise Bad("call %d changed a result returned by call %d: %s -> %s" % (t, tt, params(c, E), params(x, E)), info)
            if not u.live_output:
                held = (held + [(o, o.detach().clone(), t) for o in outs if isinstance(o, torch.Tensor)])[-8:]
            for nm, dims, f in u.post(P, st, arrs, [a for a, _ in eo], nst) if t < 4 and u.check_post else []:
                for i in itertools.product(*[range(d) for d in dims]):
                    if not truth(f(i)): raise Unsupported("the contract itself is inconsistent: %s" % nm)
            st = {k: v.force() if isinstance(v, A) else v for k, v in nst.items()}
            if u.stateful and t % 2: refill(ins, [o for o in outs if isinstance(o, torch.Tensor)])
            if hasattr(u, "expect"): 
                m = u.expect(P, t, arrs, outs, eo, st)
                if m: raise Bad("call %d: %s" % (t, m), info)
    m = u.concrete_check(E, real(u.path) if u.path else None, cfg)
    if m: raise Bad(m, {"cfg": cfg, "seed": seed})
def iso_once(u, cfg, seed, cycles, hints=None, big=False):
    """isolation only: an instance stepped beside another one built from the same objects behaves as it does alone, and nothing
    that was passed in or handed out is changed"""
    import torch, numpy
    E = ConEnv(seed, hints, big); CUR.env = E
    cls = real(u.path)
    args, kw = u.args(E, cfg)
    solo = clone([args, kw])
    P = u.parse(*args, **kw)
    for nm, c in u.pre(P):
        if not truth(c): raise Infeasible()
    info = {"arguments": params([args, kw], E), "cfg": cfg, "seed": seed}
    mk = E.rnd.getrandbits(40); sched = random.Random(seed)
    def build(a, k):
        torch.manual_seed(seed); numpy.random.seed(seed % (1 << 31)); random.seed(seed)
        keep = E.rnd.getstate(); E.rnd.seed(mk)
        if hasattr(u, "_obj"): u._obj = None
        try: return u.make(cls, a, k, real)
        except (Infeasible, Unsupported): raise
        except Exception as e: raise Infeasible()             # does not construct at all: not a matter of isolation
        finally: E.rnd.setstate(keep)
    a = build(*solo)
    if not u.stateful: cycles = min(cycles, 4)
    hist, outs = [], []
    for t in range(cycles):
        ins = u.inputs(E, P, cfg, t); hist.append(ins)
        try: r = aslist(u.call(a, clone(ins)))
        except (Infeasible, Unsupported): raise
        except Exception: raise Infeasible()
        outs.append([clone(x) for x in r])
    s0 = clone([args, kw])
    a2 = build(args, kw)
    if not unchanged(s0, [args, kw]): raise Bad("the constructor changed its arguments: %s -> %s" % (params(s0, E), params([args, kw], E)), info)
    b = build(args, kw); P2 = NS(P); bt = 0
    held = []
    for t in range(cycles):
        for who in ("ba" if sched.random() < 0.7 else "a") if sched.random() < 0.8 else "ab":
            if who == "b":
                ins = u.inputs(E, P2, cfg, bt); bt += 1
                copies = clone(ins)
                try: u.call(b, ins)
                except (Infeasible, Unsupported): raise
                except Exception as e: raise Bad("a second instance raised %s: %s" % (type(e).__name__, e), info)
            else:
                ins = hist[t]; copies = clone(ins)
                if hasattr(u, "isoset"): u.isoset(P, ins)
                try: r = aslist(u.call(a2, ins))
                except (Infeasible, Unsupported): raise
                except Exception as e: raise Bad("beside another instance, call %d raised %s: %s" % (t, type(e).__name__, e), info)
                if len(r) != len(outs[t]): raise Bad("beside another instance, call %d returned %d results" % (t, len(r)), info)
                for k, (x, y) in enumerate(zip(r, outs[t])):
                    if isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor) and not same_tensor(x, y): raise Bad("call %d returned %s beside another instance built from the same configuration, %s alone" % (t, params(x, E), params(y, E)), info)
                if not u.live_output: held = (held + [(x, clone(x), t) for x in r if isinstance(x, torch.Tensor)])[-8:]
            for k, (x, y) in enumerate(zip(ins, copies)):
                if not unchanged(y, x): raise Bad("a call changed its argument %d: %s -> %s" % (k, params(y, E), params(x, E)), info)
            if not unchanged(s0, [args, kw]): raise Bad("call %d changed a constructor argument: %s -> %s" % (t, params(s0, E), params([args, kw], E)), info)
            for x, c, tt in held:
                if not same_tensor(x, c): raise Bad("a later call changed a result of call %d: %s -> %s" % (tt, params(c, E), params(x, E)), info)
def search(u, cfg, seed0, budget, hints=None, deep=False, minruns=3, iso=False):
    """-> (runs, cycles, witness or None, note)"""
    setup()
    if u.custom is not None and not u.concrete_full and type(u).concrete_check is Unit.concrete_check: return 0, 0, None, "lemma over contracts only"
    t0, n, cyc, skipped, errs = time.time(), 0, 0, 0, []
    lens = u.cycles
    while n + skipped < 100000 and (time.time() - t0 < budget or n < minruns):
        if time.time() - t0 > 4 * budget + 20: break
        seed = seed0 * 1000003 + (n + skipped) * 7919 + 17
        T = lens[1] if deep and (n % 4 == 3) or (not deep and n % 8 == 7) else lens[0]
        big = (n % 2) | (2 if deep and n % 4 >= 2 else 0)
        try:
            (iso_once if iso else run_once)(u, cfg, seed, T, hints, big=big)
            n += 1; cyc += T if u.stateful else 1
        except Infeasible: skipped += 1
        except Bad as b:
            info = dict(b.args[1]); info.update(unit=type(u).__name__, cfg=cfg, seed=seed, cycles=T, big=big, hints=hints or {}, what=b.args[0], iso=iso)
            return n, cyc, info, ""
        except Unsupported as e:
            errs.append(str(e)); 
            if len(errs) > 3: return n, cyc, None, "; ".join(errs[:1])
        if skipped > 300 and n == 0: return n, cyc, None, "no admissible sample"
    return n, cyc, None, ""
