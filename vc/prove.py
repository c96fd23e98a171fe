"""Symbolic verification of one Unit: every obligation for every path of the real source."""
import copy, time, traceback, types
from .sym import *
from . import sym, tensor as T, storch, loader
from .tensor import Tensor, Parameter, Storage, iscal
from .unit import *
from . import unit as U

def obs(v):
    """attribute value -> abstract array (snapshot)"""
    if isinstance(v, Tensor): return A(v.dims, v.reader())
    if v is None: raise Unsupported("state attribute is None")
    if isinstance(v, A): return v
    if isscalar(v): return const(v)
    raise Unsupported("state attribute of type %s" % type(v).__name__)

def gidx(dims): return tuple(T.fresh_indices(dims, "l"))

def dims_goal(a, b):
    if len(a) != len(b): return False
    return andv(*[eq(T.dsize(x), T.dsize(y)) for x, y in zip(a, b)]) if a else True

def conv_idx(i, frm, to):
    """index for dims `frm` used in dims `to` (same sizes, possibly other merge structure)"""
    return tuple(T.to_dim_index(x, d) for x, d in zip(i, to))

def same(a, b, what, bcast=False, kind="post"):
    """prove that arrays a (code) and b (contract) agree everywhere"""
    if bcast and len(a.dims) != len(b.dims) or bcast and not all(T.dim_eq_syn(x, y) for x, y in zip(a.dims, b.dims)):
        dims = T.bshape(a.dims, b.dims)
        i = gidx(dims)
        fa, fb = T.bmap(a.dims, dims), T.bmap(b.dims, dims)
        va, vb = a.at(i if fa is None else fa(i)), b.at(i if fb is None else fb(i))
    else:
        if not CTX.prove(dims_goal(a.dims, b.dims), what + ": shape", kind): return False
        i = gidx(a.dims)
        va, vb = a.at(i), b.at(conv_idx(i, a.dims, b.dims))
    return CTX.prove(eq(num(va), num(vb)), what, kind)

# ------------------------------------------------------------------ heap snapshots
SKIP = {"_parameters", "training", "vc_"}
def leaves(o, path="", out=None, seen=None):
    if out is None: out, seen = {}, set()
    if isinstance(o, Tensor):
        out[path] = ("T", o, o.st, o.st.version, o.dims, o.fwd, o.reader()); return out
    if isscalar(o) or o is None or isinstance(o, (str, T.DType)):
        out[path] = ("V", o); return out
    if id(o) in seen: return out
    if isinstance(o, (storch.Module, dict)) or type(o).__module__.startswith("UnarySim"):
        seen.add(id(o))
        for k, v in (o.items() if isinstance(o, dict) else vars(o).items()):
            if k in SKIP: continue
            leaves(v, path + "." + str(k) if path else str(k), out, seen)
        return out
    if isinstance(o, (list, tuple)):
        seen.add(id(o))
        for k, v in enumerate(o): leaves(v, "%s.%d" % (path, k), out, seen)
        return out
    out[path] = ("V", o)
    return out
def changed(a, b, skip=()):
    out = []
    for k in (set(a) | set(b)) - set(skip):
        if k not in a or k not in b: out.append(k); continue
        x, y = a[k], b[k]
        if x[0] != y[0]: out.append(k); continue
        if x[0] == "T":
            if x[2] is y[2] and x[3] == y[3] and x[5] is y[5] and x[4] == y[4]: continue
            if len(x[4]) == len(y[4]) and x[2].dtype is y[2].dtype and CTX.entails(dims_goal(x[4], y[4])):
                i = gidx(x[4])
                if CTX.entails(eq(num(x[6](i)), num(y[6](i)))): continue
            out.append(k)
        else:
            p, q = x[1], y[1]
            if p is q: continue
            if isscalar(p) and isscalar(q) and type(p) is type(q):
                if native(p, q) and p == q: continue
                if isinstance(p, SV) and p.z.eq(q.z): continue
            elif type(p) is type(q) and isinstance(p, str) and p == q: continue
            out.append(k)
    return sorted(out)

def snap(v):
    """structure snapshot of configuration values (dicts, lists, scalars)"""
    if isinstance(v, dict): return ("d", {k: snap(x) for k, x in v.items()})
    if isinstance(v, (list, tuple)): return ("l", [snap(x) for x in v])
    if isinstance(v, Tensor): return ("t", v.st.uid, v.st.version, id(v.st.fn))
    return v
def snap_eq(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, tuple) and a and a[0] == "d": return a[1].keys() == b[1].keys() and all(snap_eq(a[1][k], b[1][k]) for k in a[1])
    if isinstance(a, tuple) and a and a[0] == "l": return len(a[1]) == len(b[1]) and all(snap_eq(x, y) for x, y in zip(a[1], b[1]))
    if isinstance(a, SV): return a is b or a.z.eq(b.z)
    try: return a is b or bool(a == b)
    except BaseException: return False

def world(L):
    """module globals, class attributes and default arguments of the loaded repository modules"""
    out = {}
    for mn, m in L.mods.items():
        for k, v in m.__dict__.items():
            if k.startswith("__") or isinstance(v, types.ModuleType): continue
            if isinstance(v, types.FunctionType): out[mn, k] = snap([v.__defaults__, v.__kwdefaults__] if v.__defaults__ else None)
            elif isinstance(v, type):
                if getattr(v, "__module__", "").startswith("UnarySim"):
                    for a, x in vars(v).items():
                        if isinstance(x, types.FunctionType): out[mn, k, a] = snap([x.__defaults__] if x.__defaults__ else None)
                        elif not a.startswith("__") and not callable(x): out[mn, k, a] = snap(x)
            else: out[mn, k] = snap(v) if isinstance(v, (dict, list, tuple, int, float, str, Tensor)) else id(v)
    return out

class ReadOnly(dict): pass

# ------------------------------------------------------------------ stubs: callee contracts instead of callee bodies
def make_stub(u, log):
    def init(self, *a, **k):
        storch.Module.__init__(self)
        log.add(u.name)
        P = u.parse(*a, **k)
        d = self.__dict__
        d["vc_"] = P
        for n, v in u.expose(P).items(): d[n] = v
        st = u.init(P)
        for nm, path in u.state_of(P).items(): put(self, path, st[nm], u, nm)
        for nm, c in u.pre(P): CTX.prove(c, "precondition of %s: %s" % (u.path, nm), "pre")
    def put(self, path, a, u, nm):
        storch.ATTR_LOG("the state of a %s" % u.name)
        h, *rest = path.split(".")
        if rest:
            if h not in self.__dict__: self.__dict__[h] = storch.Module()
            return put(self.__dict__[h], ".".join(rest), a, u, nm)
        if nm in u.pyscalar: self.__dict__[h] = a.at(())
        else:
            self.__dict__[h] = Parameter(T.mk(a.dims, lambda i: num(a.at(i)), u.dtypes.get(nm, T.float32)), requires_grad=False)
    def forward(self, *ins, **kw):
        P = self.vc_
        ins = u.bind(*ins, **kw)
        arrs = [obs(x) if isinstance(x, Tensor) else x for x in ins]
        for nm, dims, f in u.requires(P, arrs):
            i = gidx(dims)
            CTX.prove(f(i), "precondition of %s: %s" % (u.path, nm), "pre")
        st = {nm: obs(getp(self, path)) for nm, path in u.state_of(P).items()}
        if st: storch.ATTR_LOG("the state of " + u.path)
        outs, nst = u.step(P, st, arrs)
        for nm, path in u.state_of(P).items(): put(self, path, nst[nm], u, nm)
        # the invariant and range of the state and the postconditions hold for the callee's results
        rs = []
        for a, dt in outs: rs.append(T.mk(a.dims, (lambda a: lambda i: num(a.at(i)))(a), dt))
        return None if not rs else rs[0] if len(rs) == 1 else tuple(rs)
    return type(u.path.rsplit(".", 1)[1], (storch.Module,), {"__init__": init, "forward": forward, "__module__": "stub"})

def make_fn_stub(u, log):
    def f(*a, **k):
        log.add(u.name)
        P = u.parse(*a, **k)
        for nm, c in u.pre(P): CTX.prove(c, "precondition of %s: %s" % (u.path, nm), "pre")
        return u.result(P)
    return f

def load(u, log):
    L = loader.Loader()
    names = {}
    for c in u.callees:
        v = U.REG[c]
        special = u.stub_for(c, log)
        if special is not None: names[tuple(v.path.rsplit(".", 1))] = special; continue
        names[tuple(v.path.rsplit(".", 1))] = make_stub(v, log) if v.kind == "class" else make_fn_stub(v, log)
    L.contract = names
    return L

class Res:
    def __init__(s): s.obls, s.unsup, s.paths, s.undeclared, s.inexact, s.stubs, s.sources, s.exc = [], [], 0, set(), [], set(), set(), []

def prove_unit(u, cfg, only=None):
    """-> Res. Explores every path; repeats with undeclared changing attributes havoced until none is left out"""
    res = Res()
    extra = set()
    for rounds in range(4):
        r = Res(); r.undeclared = set(extra)
        CTX.reset_all()
        CTX.func = u.path
        CUR.env = SymEnv()
        loader.LOOP_UNIT[:] = [u]
        new = set()
        def path():
            CTX.inexact = []
            U.ALIAS.clear()
            try:
                (u.custom or default_path)(u, cfg, r, extra, new)
            except (Infeasible, Unsupported): raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((("%s:%d" % (f.filename.replace(loader.REPO + "/", ""), f.lineno)) for f in reversed(tb) if f.filename.startswith(loader.REPO)), None)
                if where is None: raise Unsupported("contract machinery: %s: %s %s" % (type(e).__name__, e, [ (f.filename.split("/")[-1], f.lineno) for f in tb[-4:]]))
                if CTX.check([])[0] == z3.unsat: raise Infeasible()
                r.exc.append("%s: %s at %s" % (type(e).__name__, e, where))
            r.paths += 1
            if CTX.inexact: r.inexact += CTX.inexact
        try:
            CTX.explore(path)
        except Unsupported as e:
            r.unsup.append(str(e)); 
        r.obls = CTX.obls
        r.secs, r.queries = CTX.solver_secs, CTX.queries
        res = r
        if not (new - extra): break
        extra |= new
    return res

def construct(u, L, args, kw):
    cls = L.name(u.path)
    return cls(*args, **kw)

def default_path(u, cfg, r, extra, new):
    E = CUR.env
    L = load(u, r.stubs)
    cls = L.name(u.path)
    r.sources |= set(L.sources)
    args, kw = u.args(E, cfg)
    w0 = world(L)
    P = u.parse(*args, **kw)
    for nm, c in u.pre(P): CTX.assume(c)
    s0 = snap([args, kw])
    if not CTX.cover("constructor precondition is satisfiable"): raise Unsupported("cover check undecided")
    CTX.func = u.path + (".__init__" if u.kind == "class" else "")
    obj = u.make(cls, args, kw, L.name)
    CTX.prove(snap_eq(s0, snap([args, kw])), "constructor leaves its arguments unchanged", "frame")
    CTX.prove(all(snap_eq(w0.get(k), v) for k, v in world(L).items() if k in w0), "constructor leaves globals and defaults unchanged", "frame")
    st0 = u.init(P)
    rename(u, P, obj, st0)
    for nm, path in u.state_of(P).items():
        try: v = getp(obj, path)
        except (AttributeError, IndexError, KeyError): raise Unsupported("state %s: no attribute %s" % (nm, path))
        same(obs(v), st0[nm], "initial %s" % nm, bcast=True)
    for nm, dims, f in u.post_init(P, obj): CTX.prove(f(gidx(dims)), nm)
    other = None
    if u.kind == "class" and u.twin_proof:
        before = leaves(obj)
        other = u.make(cls, args, kw, L.name)
        CTX.prove(not changed(before, leaves(obj)), "constructing another instance leaves this one unchanged", "frame")
    CTX.func = u.path + ".forward"
    # first call
    held = []
    apart = lambda b, tag: other is None or CTX.prove(not changed(b, leaves(other)), tag + ": another instance unchanged", "frame")
    before = leaves(other) if other is not None else None
    st1 = one_call(u, P, obj, st0, cfg, 0, held, s0, args, kw, "first call", L)
    apart(before, "first call")
    if not u.stateful: return
    # any later call: the declared state is arbitrary up to the invariant
    paths = set(U.ALIAS.get(p, p) for p in u.state_of(P).values())
    stw = havoc(u, P, obj, extra)
    before = leaves(obj); before2 = leaves(other) if other is not None else None
    s0 = snap([args, kw])            # the arbitrary state may be shared with an argument (a weight handed over by reference)
    st2 = one_call(u, P, obj, stw, cfg, 1, held, s0, args, kw, "later call", L)
    after = leaves(obj)
    apart(before2, "later call")
    new |= set(changed(before, after, paths | set(u.free) | extra))
    # third call: results already handed out are not touched again
    CTX.noprove = True
    try: one_call(u, P, obj, None, cfg, 2, held, s0, args, kw, "third call", L)
    finally: CTX.noprove = False

def rename(u, P, obj, st0):
    """a declared state attribute the code does not have: the only other attribute of its owner with that initial value stands for it
    (every clause is then proved of that attribute, so a wrong guess can only fail)"""
    def has(path):
        try: getp(obj, path); return True
        except (AttributeError, IndexError, KeyError): return False
    sts = u.state_of(P)
    lost = [(nm, p) for nm, p in sts.items() if not has(p)]
    if not lost: return
    taken = set(sts.values())
    for nm, p in lost:
        owner = p.rpartition(".")[0]
        cands = []
        for k, x in leaves(obj).items():
            if k in taken or k.rpartition(".")[0] != owner or x[0] != "T": continue
            a, b = obs(x[1]), st0[nm]
            if len(a.dims) != len(b.dims): continue
            i = gidx(a.dims)
            if CTX.entails(dims_goal(a.dims, b.dims)) and CTX.entails(eq(num(a.at(i)), num(b.at(conv_idx(i, a.dims, b.dims))))): cands.append(k)
        if cands:
            pick = cands[0] if len(lost) == 1 or len(cands) == 1 else cands[min(lost.index((nm, p)), len(cands) - 1)]
            U.ALIAS[p] = pick; taken.add(pick); CTX.inexact.append("attribute %s stands for %s" % (pick, p))

def one_call(u, P, obj, st, cfg, t, held, s0, args, kw, tag, L):
    E = CUR.env
    ins = u.inputs(E, P, cfg, t)
    arrs = [obs(x) if isinstance(x, Tensor) else x for x in ins]
    marks = [(x, x.st, x.st.writes, x.dims) for x in ins if isinstance(x, Tensor)]
    if not getattr(CTX, "noprove", False) and not CTX.cover(tag): raise Unsupported("cover check undecided")
    w0 = world(L)
    outs = aslist(u.call(obj, ins))
    for x, s, n, d in marks:
        CTX.prove(x.st is s and s.writes == n and x.dims is d, tag + ": inputs unchanged", "frame")
    CTX.prove(snap_eq(s0, snap([args, kw])), tag + ": configuration arguments unchanged", "frame")
    CTX.prove(all(snap_eq(w0.get(k), v) for k, v in world(L).items() if k in w0), tag + ": globals and defaults unchanged", "frame")
    for x, s, n, d in held:
        CTX.prove(x.st is s and s.writes == n and x.dims is d, tag + ": results of earlier calls unchanged", "frame")
    if u.stateful:
        for nm, path in u.state_of(P).items():
            v = getp(obj, path)
            if isinstance(v, Tensor): CTX.prove(not any(v.st is s for _, s, _, _ in marks), "%s: %s is not kept by reference to an input" % (tag, nm), "frame")
    held += marks
    held += [(x, x.st, x.st.writes, x.dims) for x in outs if isinstance(x, Tensor) and not u.live_output]
    if st is None: return None
    eouts, nst = u.step(P, st, arrs)
    CTX.prove(len(outs) == len(eouts), tag + ": number of results")
    for k, (o, (a, dt)) in enumerate(zip(outs, eouts)):
        nm = u.outnames[k] if k < len(u.outnames) else "output"
        if isinstance(o, Tensor):
            if dt is not None: CTX.prove(o.dtype is dt, "%s: %s dtype" % (tag, nm), "post")
            same(obs(o), a, "%s: %s" % (tag, nm))
        else: same(obs(o), a, "%s: %s" % (tag, nm))
    now = {}
    for nm, path in u.state_of(P).items():
        v = obs(getp(obj, path)); now[nm] = v
        same(v, nst[nm], "%s: next %s" % (tag, nm), bcast=True)
    for nm, dims, f in u.post(P, st, arrs, [a for a, _ in eouts], nst):
        CTX.prove(f(gidx(dims)), "%s: %s" % (tag, nm), "lemma")
    for nm in u.state_of(P):
        a = nst[nm]; i = gidx(a.dims); v = a.at(i)
        srt = u.sort_of(P, nm)
        if srt[0] == "i" and sortof(num(v)) == "r": CTX.prove(eq(v, floor(v)), tag + ": %s is an integer" % nm, "inv")
        g = []
        if srt[1] is not None: g.append(le(srt[1], num(v)))
        if srt[2] is not None: g.append(le(num(v), srt[2]))
        g.append(u.inv(P, nst, i, nm))
        CTX.prove(andv(*g), tag + ": invariant of %s" % nm, "inv")
    return now

class AnyStr(str):
    """a text attribute whose value at entry must not matter"""
    def __eq__(s, o): raise Unsupported("reads a stale text attribute")
    __ne__ = __eq__; __hash__ = str.__hash__
    def lower(s): raise Unsupported("reads a stale text attribute")
def havoc(u, P, obj, extra):
    stw, done = {}, {}
    for nm, path in list(u.state_of(P).items()) + [(k, k) for k in sorted(set(extra) | set(u.free))]:
        decl = nm in u.state_of(P)
        try: v = getp(obj, path)
        except (AttributeError, KeyError, IndexError):
            if decl: raise Unsupported("state %s: no attribute %s" % (nm, path))
            continue
        srt, lo, hi = u.sort_of(P, nm) if decl else (None, None, None)
        fact = (lambda nm: lambda idx, val: u.inv(P, stw, tuple(idx), nm))(nm) if decl else None
        if isinstance(v, str) and not decl: setp(obj, path, AnyStr()); continue
        if isinstance(v, Tensor):
            if id(v.st) in done and not decl: continue             # another name of a declared state tensor
            done[id(v.st)] = v
            s = srt or ("r" if v.dtype.cat == 2 else "i")
            f = CTX.uf("st_" + nm.replace(".", "_").replace("/", "_"), len(v.dims), s, lo, hi, fact)
            g = (lambda f: lambda i: f([iscal(x) for x in i]))(f)
            if v.fwd is not None:                                    # a view of a tensor nothing else refers to
                if sum(1 for x in leaves(obj).values() if x[0] == "T" and x[2] is v.st) > 1: raise Unsupported("state attribute %s is a view" % path)
                setp(obj, path, T.mk(v.dims, g, v.dtype))
            else: v.st.write(g)
            stw[nm] = A(v.dims, g)
        elif isinstance(v, bool) or (isinstance(v, SV) and v.sort == "b"):
            b = CTX.boolean("st_" + nm); stw[nm] = const(b)
            if decl:
                f = u.inv(P, stw, (), nm)
                if not native(f): CTX.assume(f)
                for val in (True, False):           # a flag the invariant decides is that very constant
                    if CTX.entails(b if val else notv(b)): b = val; stw[nm] = const(b); break
            setp(obj, path, b)
        elif isscalar(v):
            s = srt or sortof(v)
            x = (CTX.int if s == "i" else CTX.real)("st_" + nm.replace(".", "_").replace("/", "_"), lo, hi)
            setp(obj, path, x); stw[nm] = const(x)
            if decl: CTX.assume(u.inv(P, stw, (), nm))
        else: raise Unsupported("attribute %s of type %s changes between calls" % (path, type(v).__name__))
    return stw
