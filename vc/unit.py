"""Contracts on the real classes and functions, and the machinery that checks them.

A Unit is the contract of one function or class of the repository:
  path      where the real code lives, e.g. "kernel.add.FSUAdd"
  cfgs      the discrete configurations (everything else is symbolic and universally quantified)
  args      the arguments (symbolic in the proof, random in the concrete replay)
  parse     arguments -> ghost parameters P (used by the proof, by the concrete replay and by callers' stubs)
  init      abstract state after construction            (postcondition of __init__)
  inv       data invariant over the abstract state
  requires  precondition of a call
  step      abstract outputs and next abstract state     (postcondition of forward)
  state     abstract state name -> attribute path in the real object
The same text is evaluated symbolically (proof) and on numbers (replay against real torch)."""
import copy, random, time, traceback, itertools
from fractions import Fraction
from .sym import *
from . import sym
from .sums import Sum

class NS(dict):
    def __getattr__(s, n):
        try: return s[n]
        except KeyError: raise AttributeError(n)
    def __setattr__(s, n, v): s[n] = v

# ------------------------------------------------------------------ abstract arrays
class A:
    __slots__ = ("dims", "fn", "memo")
    def __init__(s, dims, fn): s.dims, s.fn, s.memo = tuple(dims), fn, {}
    def at(s, idx):
        k = tuple(ikey(i) for i in idx)
        r = s.memo.get(k)
        if r is None:
            r = (s.fn(tuple(idx)), idx); s.memo[k] = r
        return r[0]
    def __call__(s, *idx): return s.at(idx)
    def b(s, dims):
        """broadcast to dims"""
        off = len(dims) - len(s.dims)
        one = [is1(d) for d in s.dims]
        return A(dims, lambda i: s.at(tuple(0 if o else x for o, x in zip(one, i[off:]))))
    def bat(s, i):
        """value at index i of an array s broadcasts to"""
        off = len(i) - len(s.dims)
        if off < 0: return s.at(tuple(0 if is1(d) else x for d, x in zip(s.dims, (0,) * -off + tuple(i))))
        return s.at(tuple(0 if is1(d) else x for d, x in zip(s.dims, i[off:])))
    def map(s, f): return A(s.dims, lambda i: f(s.at(i)))
    def force(s):
        for i in itertools.product(*[range(d) for d in s.dims]): s.at(i)
        vals = {i: s.memo[tuple(("n", x) for x in i)][0] for i in itertools.product(*[range(d) for d in s.dims])}
        s.fn = lambda i: vals[tuple(i)]
        s.memo = {}
        return s
def ikey(i): return ("n", i) if isinstance(i, int) else (i.z.get_id() if isinstance(i, SV) else ("P",) + tuple(ikey(x) for x in i.idx))
def is1(d): return isinstance(d, int) and d == 1
def const(v, dims=()): return A(dims, lambda i: v)
def bsh(*ds):
    """broadcast shape (sizes known equal or 1)"""
    n = max(len(d) for d in ds); out = []
    for k in range(n):
        c = 1
        for d in ds:
            j = k - (n - len(d))
            if j >= 0 and is1(c): c = d[j]
        out.append(c)
    return tuple(out)
def pw(f, *as_):
    """pointwise combination with broadcasting"""
    dims = bsh(*[a.dims for a in as_])
    return A(dims, lambda i: f(*[a.bat(i) for a in as_]))

# ------------------------------------------------------------------ environments
class SymEnv:
    concrete = False
    def __init__(s):
        from . import storch
        s.torch = storch.torch
    def int(s, name, lo=None, hi=None, cap=None): return CTX.int(name, lo, hi)
    def real(s, name, lo=None, hi=None, den=1): return CTX.real(name, lo, hi)
    def dims(s, *names): return tuple(n if isinstance(n, int) else CTX.int(n, 1) for n in names)
    def choose(s, *xs): raise Unsupported("choose in the proof")
    def _arr(s, name, dims, sort, lo, hi, fact=None):
        from .tensor import iscal
        f = CTX.uf(name, len(dims), sort, lo, hi, fact)
        return A(dims, lambda i: f([iscal(x) for x in i]))
    def ints(s, name, dims, lo=None, hi=None, fact=None, cap=None): return s._arr(name, dims, "i", lo, hi, fact)
    def bits(s, name, dims, fact=None): return s._arr(name, dims, "i", 0, 1, fact)
    def reals(s, name, dims, lo=None, hi=None, fact=None, den=16): return s._arr(name, dims, "r", lo, hi, fact)
    def assume(s, c): CTX.assume(c)
    def tensor(s, a, dtype):
        from .tensor import mk
        return mk(a.dims, lambda i: num(a.at(i)), dtype)
    def param(s, a, dtype):
        from .tensor import Parameter
        return Parameter(s.tensor(a, dtype), requires_grad=False)
    def of(s, t):
        """tensor -> abstract array (its contents at the time of reading)"""
        rd = t.reader(); return A(t.dims, rd)
    def live(s, t): return A(t.dims, lambda i: t.at(i))
    def scalar(s, v): return v

STRETCH = {"width", "depth", "depth_sa", "depth_ss", "depth_ismul", "entry", "rentry", "dimr", "k", "kk", "ks", "widthi", "widthw"}
class ConEnv:
    concrete = True
    def __init__(s, seed, hints=None, big=False):
        import torch
        s.torch, s.rnd, s.hints, s.big = torch, random.Random(seed), dict(hints or {}), bool(int(big) & 1)
        s.stretch = bool(int(big) & 2)           # sizes beyond the usual ones (where a proof was refuted)
        s.profile = s.rnd.choice([0.5, 0.5, 0.5, 0.1, 0.9, 0.0, 1.0, "burst", "burst", "alt"])
        s.log = []; s.t = 0
    def new_profile(s): s.profile = s.rnd.choice([0.5, 0.5, 0.1, 0.9, 0.0, 1.0, "burst", "burst", "alt"])
    def int(s, name, lo=None, hi=None, cap=None):
        lo = -8 if lo is None else int(lo)
        h = s.hints.get(name)
        if s.stretch and cap is not None and name in STRETCH: cap = min(2 * cap + 2, 10)
        top = lo + (cap if cap is not None else 6) if hi is None else int(hi)
        if cap is not None: top = min(top, lo + cap)
        if h is not None and lo <= h <= top and s.rnd.random() < 0.5: v = h
        else: v = s.rnd.randint(lo, top)
        s.log.append((name, v)); return v
    def real(s, name, lo=None, hi=None, den=1):
        lo = -4 if lo is None else lo; hi = 4 if hi is None else hi
        k0, k1 = -((-Fraction(lo) * den).__floor__()), (Fraction(hi) * den).__floor__()
        v = norm(Fraction(s.rnd.randint(int(k0), int(k1)), den))
        s.log.append((name, v)); return v
    def dims(s, *names):
        return tuple(n if isinstance(n, int) else s.int(n, 1, cap=3 if s.big else 2) for n in names)
    def choose(s, *xs): return s.rnd.choice(xs)
    def _fill(s, dims, g):
        vals = {i: g() for i in itertools.product(*[range(d) for d in dims])}
        return A(dims, lambda i: vals[tuple(i)])
    def ints(s, name, dims, lo=None, hi=None, fact=None, cap=None):
        lo = -8 if lo is None else int(lo); hi = lo + 16 if hi is None else int(hi)
        if cap is not None: hi = min(hi, lo + cap)
        ext = [lo, hi]
        for _ in range(200):
            a = s._fill(dims, lambda: s.rnd.choice(ext) if s.rnd.random() < 0.25 else s.rnd.randint(lo, hi))
            if fact is None or s._ok(a, fact): return a
        raise Unsupported("no sample for %s" % name)
    def _ok(s, a, fact): return all(truth(fact(i, a.at(i))) for i in itertools.product(*[range(d) for d in a.dims]))
    def bits(s, name, dims, fact=None):
        p = s.profile
        for _ in range(200):
            if p == "burst":
                if s.rnd.random() < 0.08 or "bl" not in s.__dict__: s.bl = s.rnd.choice([0.02, 0.98])
                q = s.bl
            elif p == "alt": s.t += 1; q = float(s.t % 2)
            else: q = p
            if fact is not None and _ > 20: q = 0.5
            a = s._fill(dims, lambda: int(s.rnd.random() < q))
            if fact is None or s._ok(a, fact): return a
        raise Unsupported("no sample for %s" % name)
    def reals(s, name, dims, lo=None, hi=None, fact=None, den=16):
        lo = -4 if lo is None else lo; hi = 4 if hi is None else hi
        k0, k1 = int(Fraction(lo) * den), int(Fraction(hi) * den)
        for _ in range(200):
            a = s._fill(dims, lambda: norm(Fraction(s.rnd.choice([k0, k1, 0 if k0 <= 0 <= k1 else k0]) if s.rnd.random() < 0.2 else s.rnd.randint(k0, k1), den)))
            if fact is None or s._ok(a, fact): return a
        raise Unsupported("no sample for %s" % name)
    def assume(s, c):
        if not c: raise Infeasible()
    def tensor(s, a, dtype):
        idx = list(itertools.product(*[range(d) for d in a.dims]))
        t = s.torch.tensor([float(a.at(i)) if dtype.is_floating_point else int(a.at(i)) for i in idx], dtype=dtype)
        return t.reshape(tuple(a.dims))
    def param(s, a, dtype): return s.torch.nn.Parameter(s.tensor(a, dtype), requires_grad=False)
    def of(s, t):
        t = t.detach(); dims = tuple(t.shape)
        flat = [norm(x) for x in t.double().reshape(-1).tolist()] if t.dtype.is_floating_point else [int(x) for x in t.reshape(-1).tolist()]
        st, k = [], 1
        for d in reversed(dims): st.insert(0, k); k *= d
        return A(dims, lambda i: flat[sum(x * y for x, y in zip(i, st))])
    def live(s, t): return A(tuple(t.shape), lambda i: norm(t[tuple(i)].item()))
    def scalar(s, v): return float(v) if isinstance(v, Fraction) else v

class Cur:
    env = None
CUR = Cur()
def ENV(): return CUR.env
def TT(): return CUR.env.torch
def prm(env, *args): pass

# ------------------------------------------------------------------ contract base
class Unit:
    path = None
    props = ()
    cfgs = [{}]
    state = {}            # abstract name -> attribute path
    sorts = {}            # abstract name -> (sort, lo, hi)
    callees = ()          # units whose contracts stand for their bodies
    stateful = True
    cycles = (40, 400)    # concrete history length (short, long)
    tol = 0
    kind = "class"        # or "function"
    name = property(lambda s: type(s).__name__)
    note = ""
    def args(self, E, cfg): return (), {}
    def parse(self, *a, **k): return NS()
    free = ()             # attributes whose value is irrelevant (always arbitrary at entry)
    def state_of(self, P): return self.state
    def sort_of(self, P, nm):
        t, lo, hi = (tuple(self.sorts.get(nm, ("r",))) + (None, None))[:3]
        f = lambda b: b(P) if callable(b) else b
        return t, f(lo), f(hi)
    def bind(self, *a): return list(a)
    def init(self, P): return {}
    def inv(self, P, st, i, name): return True
    def requires(self, P, ins): return []
    def inputs(self, E, P, cfg, t=0): return []
    def step(self, P, st, ins): return [], st
    def expose(self, P): return {}
    def magnitude(self, P, st, ins): return []            # size of the terms a result is summed from (for float rounding in the replay)
    def post(self, P, st, ins, outs, nst): return []      # further clauses: (name, dims, fn(i)->cond)
    custom = None
    pyscalar, dtypes, scratch, live_output, outnames = (), {}, (), False, ()
    twin_proof = True
    twin, check_post, concrete_full = True, False, False
    def pre(self, P): return []
    def post_init(self, P, obj): return []
    def concrete_check(self, E, cls, cfg): return None
    def call(self, obj, ins): return obj(*ins)
    def make(self, target, args, kw, name):
        """the object under test; name(path) finds other functions of the repository"""
        return target(*args, **kw) if self.kind == "class" else (lambda: target(*args, **kw))
    def stub_for(self, callee, log): return None          # a stub of its own for this callee
    def loop(self, it, carried, line): return None        # a loop contract (generator) for a loop over a symbolic range
    def result(self, P): raise Unsupported("no result contract")
    def depends(self):
        out, todo = [], [self]
        while todo:
            u = todo.pop()
            if u in out: continue
            out.append(u); todo += [REG[c] for c in u.callees]
        return out
class Composite(Unit):
    """a unit built from other units: P.subs maps attribute -> (unit, its parameters); own state in `state`"""
    def own(self, P): return self.state
    def state_of(self, P):
        d = dict(self.own(P))
        for a, (u, Q) in P.subs.items():
            for n, path in u.state_of(Q).items(): d[a + "/" + n] = a + "." + path
        return d
    def sort_of(self, P, nm):
        if "/" in nm:
            a, n = nm.split("/", 1); u, Q = P.subs[a]
            return u.sort_of(Q, n)
        return Unit.sort_of(self, P, nm)
    def inv(self, P, st, i, nm):
        if "/" in nm:
            a, n = nm.split("/", 1); u, Q = P.subs[a]
            return u.inv(Q, self.part(st, a), i, n)
        return self.own_inv(P, st, i, nm)
    def own_inv(self, P, st, i, nm): return True
    def part(self, st, a):
        k = a + "/"
        return {n[len(k):]: v for n, v in st.items() if n.startswith(k)}
    def init(self, P):
        d = dict(self.own_init(P))
        for a, (u, Q) in P.subs.items():
            for n, v in u.init(Q).items(): d[a + "/" + n] = v
        return d
    def own_init(self, P): return {}
    def run(self, P, st, nst, a, *ins):
        """one call of sub-unit a"""
        u, Q = P.subs[a]
        outs, s2 = u.step(Q, self.part(st, a), list(ins))
        for n, v in s2.items(): nst[a + "/" + n] = v
        outs = [o for o, _ in outs]
        return outs[0] if len(outs) == 1 else outs
REG = {}
def register(cls):
    u = cls(); REG[cls.__name__] = u; return cls

def _get(o, n):
    if isinstance(o, dict): return o[n]
    return o[int(n)] if n.isdigit() else getattr(o, n)
ALIAS = {}              # declared attribute path -> the path found in the code (a renamed attribute), for the object under test
def getp(o, path):
    for n in ALIAS.get(path, path).split("."): o = _get(o, n)
    return o
def setp(o, path, v):
    *h, l = ALIAS.get(path, path).split(".")
    for n in h: o = _get(o, n)
    if isinstance(o, dict): o[l] = v
    elif l.isdigit(): o[int(l)] = v
    else: setattr(o, l, v)
def aslist(o): return list(o) if isinstance(o, (tuple, list)) else [o]
def dmap(E, ins):
    return [E.of(x) if not isscalar(x) and x is not None else x for x in ins]
