"""Executes the real source files of the repository (read on every run) against the symbolic torch.
What the extraction changes (nothing is dropped):
  * a list comprehension with one generator and no filter becomes a call that yields a symbolic list when its range is symbolic;
  * `for x in E` iterates over Loop(E), which passes concrete iterables through and applies the rules of loops.py to symbolic ranges and lists;
  * `while v < N: ...; v += 1` becomes `for v in range(v, N)` when the body changes neither v nor N;
  * `while True:` gets the loop rule for partial correctness: the state at the head is the initial one, or the result of executing the body
    once from arbitrary values of the carried variables (same shape and type); one generic iteration follows, and the path ends at the back
    edge after checking that shape and type were kept and nothing else was written;
  * the object of an item assignment is checked to be a tensor inside a loop over a symbolic range;
  * `while C:` gets the same rule when C is open on entry, else it is unrolled;
  * builtins len/range/int/float/min/max/abs/sum/round/isinstance/list/enumerate/zip accept symbolic values."""
import ast, builtins, copy, os, types
from fractions import Fraction
import z3
from .sym import *
from . import sym, sums, tensor as T, storch, loops
from .loops import LOOP_UNIT
from .tensor import Tensor, Storage, iscal

REPO = os.environ.get("VERIF_REPO", "/repo")

class Rewrite(ast.NodeTransformer):
    def __init__(self): self.k = 0; self.infn = 0
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            bound = {g.target.id} | {x.arg for x in ast.walk(n.elt) if isinstance(x, ast.arg)} | {x.id for x in ast.walk(n.elt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            cap = sorted({x.id for x in ast.walk(n.elt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound) if self.infn else []     # the values at this point
            mk = lambda v: ast.copy_location(ast.Name(id=v, ctx=ast.Load()), n)
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in [g.target.id]], kwonlyargs=[ast.arg(arg=v) for v in cap], kw_defaults=[mk(v) for v in cap], defaults=[]), body=n.elt)
            return ast.copy_location(ast.Call(func=ast.Name(id="vc_map_", ctx=ast.Load()), args=[lam, g.iter], keywords=[]), n)
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Store):
            n.value = ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="vc_sub_", ctx=ast.Load()), n), args=[n.value], keywords=[]), n)
        return n
    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n
    def visit_For(self, n):
        names, aug, hard, soft = loops.analyse(n)
        self.generic_visit(n)
        self.k += 1; k = "vc_l%d_" % self.k
        tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        names = [v for v in names if not v.startswith("vc_")]
        pre = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=ast.Call(func=ast.Name(id="vc_loop_", ctx=ast.Load()),
               args=[n.iter] + [ast.Constant(value=x) for x in (tuple(names), tuple(aug), hard, soft, n.lineno)], keywords=[]))]
        def each(f, vs): return [x for v in vs for x in ast.parse("if '%s' in vars(): %s = %s.%s('%s', %s)" % (v, v, k, f, v, v)).body]
        pre += each("carry", names)
        head, end, post = each("head", [v for v in names if v not in tgt]), ast.parse("%s.back(vars())" % k).body, each("done", names)
        n.iter = ast.Name(id=k, ctx=ast.Load())
        for x in pre + head + end + post + [n.iter]:
            for y in ast.walk(x): ast.copy_location(y, n)
        if hard is None: n.body = head + n.body + end
        return pre + [n] + (post if hard is None else [])

    def visit_While(self, n):
        w = loops.counting_while(n)
        if w is not None:
            v, bound, body = w
            self.k += 1; b = "vc_b%d_" % self.k
            pre = ast.parse("%s = vc_bound_(%s, 0)" % (b, v)).body
            pre[0].value.args[1] = bound
            loop = ast.parse("for %s in range(%s, %s): pass" % (v, v, b)).body[0]
            loop.body = body or loop.body
            post = ast.parse("%s = %s" % (v, b)).body
            for x in pre + [loop] + post:
                for y in ast.walk(x):
                    if not hasattr(y, "lineno") or y not in n.body: ast.copy_location(y, n)
            return pre + self.visit_For(loop) + post
        self.generic_visit(n)
        always = isinstance(n.test, ast.Constant) and n.test.value
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Continue, ast.Yield)) : return n
        if not always:
            if n.orelse: return n
            for x in ast.walk(n.test):
                if isinstance(x, (ast.NamedExpr, ast.Await)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr.endswith("_") or x.func.attr in loops.MUTATORS): return n
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x.id.startswith("vc_")})
        self.k += 1; k = "vc_w%d_" % self.k
        new = ast.parse("%s = vc_head_()" % k).body
        once = [Never().visit(copy.deepcopy(x)) for x in n.body]          # an earlier iteration that came back to the head
        if not always: once.insert(0, ast.copy_location(ast.If(test=copy.deepcopy(n.test), body=[ast.copy_location(ast.Pass(), n)], orelse=ast.parse("vc_never_()").body), n))
        arm = []
        for v in names: arm += ast.parse("if '%s' in vars(): %s = vc_havoc_(%s, '%s', %s)" % (v, v, k, v, v)).body
        arm += ast.parse("vc_start_(%s)" % k).body
        again = ast.parse("if vc_later_(%s): pass" % k).body[0]
        again.body = once
        arm.append(again)
        if always: pre = new + arm
        else:
            cond = ast.parse("if vc_undecided_(0): pass").body[0]
            cond.test.args = [n.test]; cond.body = arm
            pre = new + [cond]
        end = ast.parse("vc_back_(%s, vars())" % k).body
        post = ast.parse("vc_exit_(%s)" % k).body
        for x in pre + end + post:
            for y in ast.walk(x):
                if not hasattr(y, "lineno") or y.lineno == 1: ast.copy_location(y, n)
        n.body = n.body + end
        return pre + [n] + post

class Never(ast.NodeTransformer):
    """a copy of a loop body in an iteration known to reach the back edge: its `break` is not taken"""
    def visit_Break(self, n): return ast.copy_location(ast.parse("vc_never_()").body[0], n)
    def visit_For(self, n): return n
    def visit_While(self, n): return n
    def visit_FunctionDef(self, n): return n
    def visit_Return(self, n): return ast.copy_location(ast.parse("vc_never_()").body[0], n)

def vc_map(f, it):
    if not isinstance(it, (SymRange, SymList)): return [f(x) for x in it]
    return loops.Loop(it, (), (), None, None, 0).map(f)

def vc_sub(x):
    """the object of an item assignment: inside a loop over a symbolic range, a tensor"""
    if CTX.__dict__.get("wlog") is not None and not isinstance(x, Tensor): raise Unsupported("the loop changes %s" % type(x).__name__)
    return x
def vc_bound(v, b):
    """the value of a counter after  while v < b: ...; v += 1"""
    if isinstance(v, Tensor) or not isscalar(v): raise Unsupported("loop counter %r" % (v,))
    if isinstance(b, Tensor): b = b.item()
    if native(v, b): return max(v, v + -((v - b) // 1))
    if sortof(v) != "i" or sortof(b) != "i": raise Unsupported("loop counter")
    return maxv(v, b)
def attr_log(what):
    log = CTX.__dict__.get("wlog")
    if log is not None: log.append((None, what, None))
storch.ATTR_LOG = attr_log
class Head:
    """the head of a while loop: its state is the initial one, or the result of one iteration from an arbitrary state"""
    def __init__(self): self.vars, self.log, self.prev, self.on, self.later = {}, [], None, False, None
def vc_never(): raise Infeasible()
def vc_later(h): return h.later
def vc_undecided(v):
    """is the condition of a while loop open on this path"""
    if isinstance(v, Tensor):
        if not native(v.numel()) or v.numel() != 1: return False
        v = v.item()
    if not isinstance(v, SV): return False
    c = truth(v)
    return not (native(c) or CTX.entails(c) or CTX.entails(notv(c)))
def vc_havoc(h, name, v):
    if h.later is None: h.later = truthc(CTX.boolean("later_iteration"))
    if not h.later: h.vars[name] = (v, v); return v
    CTX.inexact.append("loop variable %s" % name)
    if isinstance(v, Tensor):
        f = CTX.uf("loop_" + name, len(v.dims), "r" if v.dtype.cat == 2 else "i")
        r = T.mk(v.dims, lambda i: f([iscal(x) for x in i]), v.dtype)
    elif isinstance(v, bool) or not isscalar(v): raise Unsupported("loop variable %s" % name)
    else: r = (CTX.int if sortof(v) == "i" else CTX.real)("loop_" + name)
    h.vars[name] = (v, r); return r
def vc_start(h): h.on = True; h.prev = CTX.__dict__.get("wlog"); h.born = next(T._uid); CTX.wlog = h.log
def vc_exit(h):
    if h.on: CTX.wlog = h.prev
def vc_back(h, now):
    if not h.on: return
    CTX.wlog = h.prev
    for s, old, dims in h.log:
        if s is None or s.uid < h.born: raise Unsupported("the loop writes a tensor from outside in place")
    for n, (v, r) in h.vars.items():
        x = now[n]
        if isinstance(r, Tensor):
            ok = isinstance(x, Tensor) and x.dtype is r.dtype and len(x.dims) == len(r.dims)
            CTX.prove(ok and andv(*[eq(T.dsize(a), T.dsize(b)) for a, b in zip(x.dims, r.dims)]), "loop keeps the shape and type of %s" % n, "inv")
        elif isinstance(x, Tensor) or sortof(x) != sortof(r): raise Unsupported("loop variable %s changes type" % n)
    raise Infeasible()

# ------------------------------------------------------------------ builtins
class IntMeta(type):
    def __instancecheck__(cls, o): return builtins.isinstance(o, int) or (builtins.isinstance(o, SV) and o.sort == "i")
    def __call__(cls, x=0, *a):
        if a: return int(x, *a)
        if builtins.isinstance(x, Tensor): x = x.item()
        if builtins.isinstance(x, SV): return trunc(x)
        if builtins.isinstance(x, Fraction): return int(x)
        return int(x)
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)
class vint(metaclass=IntMeta): pass
class FloatMeta(type):
    def __instancecheck__(cls, o): return builtins.isinstance(o, (float, Fraction)) or (builtins.isinstance(o, SV) and o.sort == "r")
    def __call__(cls, x=0.0):
        if builtins.isinstance(x, Tensor): x = x.item()
        if builtins.isinstance(x, SV): return SV(Z(x, "r"))
        if builtins.isinstance(x, str): return float(x)
        return x
class vfloat(metaclass=FloatMeta): pass
def vlen(x):
    if hasattr(type(x), "vc_len"): return x.vc_len()
    return len(x)
def vrange(*a):
    a = [x.item() if isinstance(x, Tensor) else x for x in a]
    if native(*a): return range(*[int(x) for x in a])
    b = [CTX.const_of(x) for x in a]
    if all(x is not None for x in b): return range(*b)
    return SymRange(0, a[0]) if len(a) == 1 else SymRange(*a)
def _mm(f, tf):
    def g(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k: raise Unsupported("min/max with keywords")
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, Tensor) or isinstance(r, Tensor): raise Unsupported("python min/max of tensors")
            r = f(r, x)
        return r
    return g
def vabs(x): return T.t_abs(x) if isinstance(x, Tensor) else absv(x)
def vsum(xs, start=0):
    if isinstance(xs, Tensor): return xs.sum(0)
    if isinstance(xs, SymList):
        from .sums import Sum
        return add(start, Sum(xs.n, lambda k: xs.fn(k)))
    r = start
    for x in xs: r = r + x
    return r
def vround(x, n=None):
    if isinstance(x, Tensor): return x.round()
    return x.__round__() if isinstance(x, SV) else (round(x) if n is None else round(x, n))
def visinstance(o, c):
    cs = c if builtins.isinstance(c, tuple) else (c,)
    out = False
    for k in cs:
        if k in (int, vint): out |= builtins.isinstance(o, int) or (builtins.isinstance(o, SV) and o.sort == "i")
        elif k in (float, vfloat): out |= builtins.isinstance(o, (float, Fraction)) or (builtins.isinstance(o, SV) and o.sort == "r")
        else: out |= builtins.isinstance(o, k)
    return out
def aslist(x):
    if isinstance(x, SymRange): return SymList(x.vc_len(), lambda i: add(x.lo, i))
    return x
def venumerate(x, start=0):
    x = aslist(x)
    return SymList(x.n, lambda i: (add(start, i), x.fn(i))) if isinstance(x, SymList) else enumerate(x, start)
def vzip(*xs):
    xs = [aslist(x) for x in xs]
    if not any(isinstance(x, SymList) for x in xs): return zip(*xs)
    if not all(isinstance(x, SymList) for x in xs): raise Unsupported("zip of a symbolic and a concrete list")
    n = xs[0].n
    for x in xs[1:]: n = minv(n, x.n)
    return SymList(n, lambda i: tuple(x.fn(i) for x in xs))
def vreversed(x):
    x = aslist(x)
    return SymList(x.n, lambda i: x.fn(sub(sub(x.n, 1), i))) if isinstance(x, SymList) else reversed(x)
def vbool(x=False):
    if isinstance(x, Tensor): x = x.item()
    return truthc(truth(x)) if isinstance(x, SV) else bool(x)
def vprint(*a, **k): pass
BUILTINS = dict(vars(builtins))
BUILTINS.update(len=vlen, range=vrange, int=vint, float=vfloat, min=_mm(minv, None), max=_mm(maxv, None), abs=vabs, sum=vsum, round=vround,
                isinstance=visinstance, bool=vbool, enumerate=venumerate, zip=vzip, reversed=vreversed, print=vprint, open=None, exec=None, eval=None, compile=None)

class Loader:
    """modules: dotted path under the repository -> executed module; stubs: {module path or '*': {name: object}}"""
    def __init__(self, stubs=None):
        self.mods, self.stubs = {}, stubs or {}
        self.sources = {}
        self.contract = {}
    def std(self, name):
        m = {"torch": storch.torch, "torch.nn": storch.nn, "torch.nn.functional": storch.F, "torch.cuda.amp": storch.amp, "torch.cuda": storch.cuda,
             "torch.autograd": storch.autograd, "torch.nn.init": storch.init, "torch.amp": storch.amp, "math": storch.math, "numpy": storch.np, "pylfsr": storch.pylfsr}
        return m.get(name)
    def imp(self, mod):
        """hook for __import__ inside module `mod`"""
        def __import__(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                pkg = mod["__package__"]
                for _ in range(level - 1): pkg = pkg.rsplit(".", 1)[0]
                full = pkg + ("." + name if name else "")
                return self.get(full, fromlist)
            if name == "UnarySim" or name.startswith("UnarySim."):
                return self.get(name, fromlist)
            s = self.std(name)
            if s is not None:
                return s if fromlist or "." not in name else self.std(name.split(".")[0])
            if name in ("copy", "typing", "functools", "itertools", "collections", "operator", "warnings", "enum", "dataclasses", "abc", "__future__", "numbers", "contextlib"):
                return builtins.__import__(name, None, None, fromlist, 0)
            raise Unsupported("import of %s" % name)
        return __import__
    def path_of(self, full):
        rel = full.split(".")[1:]
        p = os.path.join(REPO, *rel)
        if os.path.isdir(p): return os.path.join(p, "__init__.py"), True
        return p + ".py", False
    def get(self, full, fromlist=()):
        if full == "UnarySim":
            m = types.ModuleType("UnarySim")
            for n in fromlist or (): setattr(m, n, self.get("UnarySim." + n))
            return m
        if full in self.mods: return self.mods[full]
        parent = full.rsplit(".", 1)[0]
        if parent != "UnarySim" and parent not in self.mods:
            self.get(parent)
            if full in self.mods: return self.mods[full]
        path, pkg = self.path_of(full)
        if not os.path.exists(path): raise Unsupported("no module %s" % full)
        m = types.ModuleType(full)
        m.__file__ = path; m.__package__ = full if pkg else full.rsplit(".", 1)[0]
        self.mods[full] = m
        src = open(path, newline=None).read()
        self.sources[path] = src
        tree = Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        g = m.__dict__
        b = dict(BUILTINS); b["__import__"] = self.imp(g)
        g["__builtins__"] = b; g.update(vc_head_=Head, vc_havoc_=vc_havoc, vc_start_=vc_start, vc_back_=vc_back, vc_undecided_=vc_undecided, vc_later_=vc_later, vc_never_=vc_never, vc_exit_=vc_exit); g.update(vc_sub_=vc_sub, vc_map_=vc_map, vc_loop_=loops.Loop, vc_bound_=vc_bound)
        exec(compile(tree, path, "exec"), g)
        short = full.split(".", 1)[1]
        for (mp, n), o in self.contract.items():
            if mp == short and n in g: g[n] = o          # callers see the callee's contract
        return m
    def name(self, path):
        """'kernel.add.FSUAdd' or 'kernel.FSUAdd' -> object"""
        mod, n = path.rsplit(".", 1)
        return getattr(self.get("UnarySim." + mod), n)
    def stub(self, modpath, **names):
        """replace names in the namespace of a module (the callee's contract instead of its body)"""
        g = self.get("UnarySim." + modpath).__dict__
        for n, o in names.items():
            if n in g: g[n] = o
