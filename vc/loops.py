"""Loop rules.  Every `for` loop of the code under verification runs through a Loop object; over a concrete iterable it is the python loop.
Over a symbolic range or list it is verified with an invariant that is inferred from two runs of the body and then proved:
  * the first iteration runs as it is and shows what the loop writes;
  * one generic iteration (an arbitrary index c, every carried variable and every written tensor an arbitrary value) yields the loop's step;
  * an integer, float or tensor variable is an accumulator (step proved to be  old + D(c)  with D free of carried values: final = entry + sum of D),
    or is overwritten (the step does not read it: final = the last iteration's value);
  * a tensor written in place is written row by row (iteration c proved to write only row c, from values it does not write), is an accumulator, or is overwritten;
  * a list that is only appended to becomes the symbolic list of the appended values.
Everything else (an early exit, a branch that depends on the index, other objects changed, a value no rule describes) is outside the rules: Unsupported."""
import ast
import z3
from .sym import *
from . import sums, tensor as T
from .tensor import Tensor, Storage, iscal

LOOP_UNIT = []
MUTATORS = ("append", "extend", "insert", "update", "pop", "next", "setdefault", "remove", "clear")

# ------------------------------------------------------------------ syntax
def analyse(n):
    """(names carried through the loop or lists it appends to, reason why only a concrete iterable will do or None, reason why it is not a plain map loop or None)"""
    names, lists, aug, plain, hard, soft = set(), set(), set(), set(), None, None
    for x in ast.walk(n.target):
        if isinstance(x, ast.Name): names.add(x.id)
    tgt = set(names)
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.Await)): hard = hard or "leaves early"
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Delete, ast.NamedExpr, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)): hard = hard or "contains %s" % type(x).__name__
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): aug.add(x.target.id); soft = soft or "accumulates %s" % x.target.id
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store): soft = soft or "assigns %s" % ast.unparse(x)
            if isinstance(x, (ast.Assign, ast.AnnAssign)) or isinstance(x, ast.For):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): plain.add(y.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                soft = soft or "mutates %s" % ast.unparse(x.func.value)
                if isinstance(x.func.value, ast.Name) and x.func.attr == "append": lists.add(x.func.value.id)
                else: hard = hard or "mutates %s" % ast.unparse(x.func.value)
    if n.orelse: hard = hard or "has an else branch"
    if soft is None and hard is None:
        defined = set(tgt)
        for b in n.body:
            for x in ast.walk(b.value if isinstance(b, ast.Assign) else b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x.id not in defined: soft = soft or "carries %s" % x.id
            if isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name): defined.add(t.id)
                    elif isinstance(t, ast.Tuple): defined |= {x.id for x in t.elts if isinstance(x, ast.Name)}
    return sorted(names | lists), sorted(aug - plain), hard, hard or soft

def counting_while(n):
    """(variable, bound expression, body) of  while v < N: ...; v += 1,  else None"""
    t = n.test
    if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1): return None
    l, r = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt): l, r = r, l
    elif not isinstance(t.ops[0], ast.Lt): return None
    if not isinstance(l, ast.Name) or not n.body: return None
    e = n.body[-1]
    if not (isinstance(e, ast.AugAssign) and isinstance(e.op, ast.Add) and isinstance(e.target, ast.Name) and e.target.id == l.id and isinstance(e.value, ast.Constant) and e.value.value == 1):
        if not (isinstance(e, ast.Assign) and len(e.targets) == 1 and isinstance(e.targets[0], ast.Name) and e.targets[0].id == l.id
                and ast.unparse(e.value) in ("%s + 1" % l.id, "1 + %s" % l.id)): return None
    stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id == l.id for b in n.body[:-1] for x in ast.walk(b)): return None
    if any(isinstance(x, (ast.Continue, ast.Break)) for b in n.body for x in ast.walk(b)): return None
    for x in ast.walk(r):
        if isinstance(x, ast.Name) and x.id in stored: return None
        if isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.UnaryOp, ast.unaryop, ast.expr_context)): continue
        if isinstance(x, ast.Attribute) and not any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.attr for b in n.body for y in ast.walk(b)): continue
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and not any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) for b in n.body for y in ast.walk(b)): continue
        return None
    return l.id, r, n.body[:-1]

# ------------------------------------------------------------------ symbolic execution
class Lost:
    """the value of a variable that no rule describes"""
    def __init__(self, why): self.__dict__["why"] = why
    def bad(self, *a, **k): raise Unsupported(self.why)
    __getattr__ = bad
for _m in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg abs lt le gt ge eq ne getitem setitem len iter call bool index int float "
           "and or xor invert lshift rshift rlshift rrshift rand ror").split(): setattr(Lost, "__%s__" % _m, Lost.bad)
Lost.__hash__ = object.__hash__

class Appender(list):
    """a list the loop appends to"""
    def __init__(self): list.__init__(self); self.__dict__["got"] = []
    def append(self, v): self.got.append(v)
    def bad(self, *a, **k): raise Unsupported("the loop reads a list that it builds")
    vc_len = bad
for _m in ("getitem setitem iter len add iadd mul contains eq ne bool reversed").split(): setattr(Appender, "__%s__" % _m, Appender.bad)
for _m in ("extend insert pop remove clear sort reverse index count copy").split(): setattr(Appender, _m, Appender.bad)
Appender.__hash__ = object.__hash__

def kind(v):
    if isinstance(v, bool): return None
    if isinstance(v, Tensor): return ("T", v.dims, v.dtype)
    if isscalar(v): return (sortof(v),) if sortof(v) in ("i", "r") else None
    return None

class Loop:
    def __init__(self, it, names, aug, hard, soft, line):
        self.src = it
        self.plain = not isinstance(it, (SymRange, SymList))
        self.custom, self.mode = None, None
        if self.plain: return
        self.names, self.aug = names, aug
        if LOOP_UNIT and line:
            self.custom = LOOP_UNIT[-1].loop(it, soft, line)
            if self.custom is not None: self.defined = {}; return
        if hard: raise Unsupported("loop over a symbolic range that %s" % hard)
        self.lo, self.hi = (it.lo, it.hi) if isinstance(it, SymRange) else (0, it.n)
        self.at = (lambda c: c) if isinstance(it, SymRange) else it.fn
        self.entry, self.now, self.unk, self.lists, self.state = {}, None, {}, {}, 0

    # -- hooks in the rewritten code
    def carry(self, name, v):
        if not self.plain: (self.defined if self.custom is not None else self.entry)[name] = v
        return v
    def head(self, name, v):
        if self.plain or self.custom is not None: return v
        return self.start.get(name) if name in self.start else Lost("%s is read before the loop assigns it" % name)
    def back(self, now):
        if not (self.plain or self.custom is not None): self.now = {n: now[n] for n in self.names if n in now}
    def done(self, name, v):
        if self.plain: return v
        if self.custom is not None: return v if name in self.defined else Lost("%s is left over from a loop" % name)
        if self.state == "empty": return v
        return self.final[name]
    def __iter__(self):
        if self.plain: return iter(self.src)
        return iter(self.custom) if self.custom is not None else self.run()

    def run(self):
        if truthc(le(self.hi, self.lo)): self.state = "empty"; return
        prev = CTX.__dict__.get("wlog")
        # the first iteration, as it is
        self.start = {}
        for n, v in self.entry.items():
            if isinstance(v, list) and not isinstance(v, Appender): self.lists[n] = v; self.start[n] = Appender()
            else: self.start[n] = v
        self.entryt = {n: T.mk(v.dims, v.reader(), v.dtype) for n, v in self.entry.items() if isinstance(v, Tensor)}
        born, log = next(T._uid), []
        CTX.wlog = log
        yield self.at(self.lo)
        self.checklog(log)
        first, now1 = {}, self.now
        for s, old, dims in log:
            if s.uid < born and id(s) not in first: first[id(s)] = (s, old, dims)
        after1 = {k: (s.fn, s.dims) for k, (s, _, _) in first.items()}
        # a generic iteration
        c = CTX.int("loop")
        CTX.assume(andv(le(self.lo, c), lt(c, self.hi)))
        if native(self.lo): CTX.declb[c.z.decl().name()] = (self.lo, None)
        self.c = c
        ufs, self.start, unk, self.first1 = {}, {}, {}, {}
        CTX.weak = CTX.__dict__.get("weak", 0) + 1
        for k, (s, old, dims) in first.items():
            f = CTX.uf("carried", len(dims), "r" if s.dtype.cat == 2 else "i"); ufs[k] = f
            s.fn = (lambda f: lambda i: f([iscal(x) for x in i]))(f); s.memo = {}; s.version += 1
            s.dims = after1[k][1]
        for n, v in self.entry.items():
            if n in self.lists:
                self.start[n] = Appender() if now1.get(n).__class__ is Appender else Lost("list %s is replaced in the loop" % n); continue
            w = now1.get(n, v)
            kd = kind(w)
            if w is v and (isinstance(v, Tensor) or kd is None): self.start[n] = v; continue          # the same object: unchanged, or written in place
            if isinstance(w, (bool, str, tuple)) and type(w) is type(v) and not hasshape(w) and w == v: self.start[n] = v; continue
            if kd is None or kind(v) is None: self.start[n] = Lost("loop variable %s" % n); continue
            if kd[0] == "T":
                f = CTX.uf("loop_" + n, len(w.dims), "r" if w.dtype.cat == 2 else "i")
                u = T.mk(w.dims, (lambda f: lambda i: f([iscal(x) for x in i]))(f), w.dtype)
                unk[n] = ("T", f, u)
            else:
                u = (CTX.int if kd[0] == "i" else CTX.real)("loop_" + n); unk[n] = (kd[0], u, u)
            self.start[n] = u
            if retyped(v, u):                    # the first iteration started from another type: its result is compared separately
                if first or self.lists: raise Unsupported("loop variable %s changes type in the first iteration" % n)
                if isinstance(v, Tensor) and kd[0] != "T": raise Unsupported("loop variable %s becomes a number" % n)
                self.first1[n] = T.mk(w.dims, w.reader(), w.dtype) if kd[0] == "T" else w
        ustores = {id(u[2].st): n for n, u in unk.items() if u[0] == "T"}
        born2, npc, decl, log2 = next(T._uid), len(CTX.pc), set(CTX.declb), []
        self.born2 = born2
        CTX.wlog = log2
        x = self.at(c)
        yield x
        CTX.wlog = prev
        self.checklog(log2)
        self.news = self.newnames(decl)
        self.ufdecls = [f([0] * len(after1[k][1])).z.decl() for k, f in ufs.items()]
        self.noforks(npc, unk)
        for s, _, _ in log2:
            if id(s) in ustores: raise Unsupported("the loop writes %s in place and also replaces it" % ustores[id(s)])
            if s.uid < born2 and id(s) not in first: raise Unsupported("a later iteration writes another tensor than the first")
        self.unknowns = unk
        self.finish(first, ufs, after1)
        CTX.weak -= 1
        if prev is not None: prev += [(s, old, dims) for s, old, dims in first.values()]
        self.state = "done"

    def map(self, f):
        """[f(x) for x in E]"""
        if truthc(le(self.hi, self.lo)): return []
        prev, log, npc, decl, born = CTX.__dict__.get("wlog"), [], len(CTX.pc), set(CTX.declb), next(T._uid)
        c = self.c = CTX.int("loop")
        CTX.assume(andv(le(self.lo, c), lt(c, self.hi)))
        if native(self.lo): CTX.declb[c.z.decl().name()] = (self.lo, None)
        self.unknowns, self.ufdecls = {}, []
        CTX.wlog = log
        v = f(self.at(c))
        CTX.wlog = prev
        self.checklog(log)
        if any(s.uid < born for s, _, _ in log): raise Unsupported("a comprehension writes a tensor")
        self.news = self.newnames(decl) | {c.z.decl().name()}
        self.noforks(npc, {})
        self.news.discard(c.z.decl().name())
        return self.symlist(v, sub(self.hi, self.lo), lambda v, what: self.clean(v, what))
    def newnames(self, decl): return {n for n in CTX.declb if n not in decl and not n.startswith(("k!", "SUM!", "LFSR", "pow2"))}
    def noforks(self, npc, unk):
        for z in CTX.pc[npc:]:
            fz = sums.free(z) | decls(z)
            if self.c.z.decl().name() in fz or fz & self.news or any(self.hasunk(z, u) for u in unk.values()) or any(d.name() in fz for d in self.ufdecls):
                raise Unsupported("the loop branches on a value that differs between iterations")
    def checklog(self, log):
        for s, what, _ in log:
            if s is None: raise Unsupported("the loop changes %s" % what)
    def hasunk(self, z, u):
        if u[0] == "T": return uses(z, u[1]([0] * len(u[2].dims)).z.decl())
        return u[1].z.decl().name() in sums.free(z)
    def clean(self, v, what):
        """no carried value, written tensor or name made inside the body remains"""
        if native(v): return v
        for n, u in self.unknowns.items():
            if self.hasunk(v.z, u): raise Unsupported("%s depends on %s of the previous iteration" % (what, n))
        for d in self.ufdecls:
            if uses(v.z, d): raise Unsupported("%s depends on a tensor the loop writes" % what)
        self.nonew(v, what)
        return v
    def nonew(self, v, what):
        if not native(v) and self.news and (sums.free(v.z) | decls(v.z)) & self.news: raise Unsupported("%s depends on an unspecified choice made in the loop" % what)
    def sub(self, v, t):
        """value at iteration t"""
        if native(v): return v
        return S(z3.simplify(sums.subst(v.z, self.c.z, Z(t, "i"))))
    def zero(self, v, term):
        return S(z3.simplify(sums.subst(v.z, term.z, z3.IntVal(0) if term.z.is_int() else z3.RealVal(0)))) if z3.is_const(term.z) else \
            S(z3.simplify(z3.substitute(v.z, (term.z, z3.IntVal(0) if term.z.is_int() else z3.RealVal(0)))))

    def finish(self, first, ufs, after1):
        n, last = sub(self.hi, self.lo), sub(self.hi, 1)
        fin = self.final = {}
        prefix = {}                                   # scalar accumulators: value before iteration c
        todo = []
        for nm, (k, f, u) in self.unknowns.items():
            if k != "T": todo.append(nm)
        step = {nm: self.now[nm] for nm in todo}
        for nm in todo:
            if kind(step[nm]) is None or kind(step[nm])[0] != self.unknowns[nm][0]: raise Unsupported("loop variable %s changes type" % nm)
        resolve = lambda v: v if native(v) else S(z3.simplify(self.presub(v.z, prefix)))
        while todo:
            left = []
            for nm in todo:
                u, v, e = self.unknowns[nm][1], num(step[nm]), self.entry[nm]
                d = sub(v, u) if native(v) else S(z3.simplify(Z(v) - u.z))
                others = [m for m in todo if m != nm and not native(v) and self.hasunk(v.z, self.unknowns[m])]
                if native(v) or not self.hasunk(v.z, self.unknowns[nm]):
                    if others: left.append(nm); continue
                    v = self.clean(resolve(v), "loop variable %s" % nm)
                    fin[nm] = self.sub(v, last)
                    if nm in self.first1: CTX.prove(eq(num(self.first1[nm]), self.sub(v, self.lo)), "loop: first value of %s" % nm, "inv")
                    prefix[nm] = ite(eq(self.c, self.lo), e, self.sub(v, sub(self.c, 1)))
                    continue
                if others: left.append(nm); continue
                d = resolve(self.zero(v, u))
                if not CTX.entails(eq(resolve(v), add(u, d)), 5000): raise Unsupported("loop variable %s is no accumulator" % nm)
                d = self.clean(d, "the increment of %s" % nm)
                if nm in self.first1: CTX.prove(eq(num(self.first1[nm]), add(e, self.sub(d, self.lo))), "loop: first value of %s" % nm, "inv")
                tot = lambda t, d=d, e=e: add(e, sums.Sum(t, lambda j: self.sub(d, add(self.lo, j))))
                fin[nm] = tot(n); prefix[nm] = tot(sub(self.c, self.lo))
                if len(self.now) > 2: CTX.assume(eq(fin[nm], add(tot(sub(n, 1)), self.sub(d, last))))        # n >= 1: a sum of n terms is the sum of n - 1 and the last
            if len(left) == len(todo): raise Unsupported("loop variables %s depend on each other" % ", ".join(left))
            todo = left
        value = lambda v, what: self.clean(resolve(v), what)
        for nm, (k, f, u) in self.unknowns.items():
            if k != "T": continue
            w, e = self.now[nm], self.entry[nm]
            if not isinstance(w, Tensor) or w.dtype is not u.dtype or len(w.dims) != len(u.dims): raise Unsupported("loop variable %s changes type" % nm)
            CTX.prove(andv(*[eq(T.dsize(a), T.dsize(b)) for a, b in zip(w.dims, u.dims)]), "loop keeps the shape of %s" % nm, "inv")
            self.depc_dims(w.dims)
            fin[nm] = self.tensor(w, "loop variable %s" % nm, lambda gi: f([iscal(x) for x in gi]), f([0] * len(u.dims)).z.decl(),
                                  (lambda i, e=self.entryt.get(nm, e), w=w: T.bcast(e, w.dims).at(i) if isinstance(e, Tensor) else num(e)), n, last, value, self.first1.get(nm))
        for nm in self.names:
            if nm in fin: continue
            if nm in self.lists:
                a = self.now.get(nm)
                if not isinstance(a, Appender): fin[nm] = Lost("list %s is replaced in the loop" % nm); continue
                if not a.got: fin[nm] = self.lists[nm]; continue
                if len(a.got) != 1 or self.lists[nm]: raise Unsupported("the loop appends more than one element a time")
                fin[nm] = self.symlist(a.got[0], n, value)
                continue
            w = self.now.get(nm)
            s0 = self.start.get(nm)
            if s0 is not None and w is s0: fin[nm] = w; continue
            if nm in self.start and isinstance(w, (bool, str, tuple)) and type(w) is type(self.start[nm]) and not hasshape(w) and w == self.start[nm]: fin[nm] = w; continue
            if nm in self.start and not isinstance(s0, Lost): raise Unsupported("loop variable %s is replaced only in later iterations" % nm)
            # overwritten: the value of the last iteration
            try:
                if kind(w) is None: fin[nm] = Lost("%s is left over from a loop" % nm)
                elif isinstance(w, Tensor):
                    if w.st.uid < self.born2 or w.fwd is not None: fin[nm] = Lost("%s is left over from a loop" % nm); continue
                    self.depc_dims(w.dims)
                    rd = w.reader()
                    fin[nm] = T.mk(w.dims, (lambda rd, nm: lambda i: self.sub(value(num(rd(i)), nm), last))(rd, nm), w.dtype)
                else: fin[nm] = self.sub(value(num(w), nm), last)
            except Unsupported as x: fin[nm] = Lost(str(x))
        # tensors written in place
        for k, (s, old, dims) in first.items():
            f, new, nd = ufs[k], s.fn, s.dims
            if len(nd) != len(after1[k][1]) or not all(T.dim_eq(a, b) for a, b in zip(nd, after1[k][1])): raise Unsupported("the loop resizes a tensor")
            self.depc_dims(nd)
            s.fn = self.storage(s, new, f, old, dims, nd, n, last, value, resolve); s.memo = {}; s.version += 1

    def depc_dims(self, dims):
        for d in dims:
            v = T.dsize(d)
            if not native(v): self.clean(v, "a shape"); 
            if not native(v) and self.c.z.decl().name() in sums.free(v.z): raise Unsupported("a shape that differs between iterations")
    def presub(self, z, prefix):
        for nm, p in prefix.items():
            u = self.unknowns[nm][1]
            if u.z.decl().name() in sums.free(z): z = sums.subst(z, u.z, Z(p, "r" if u.z.is_real() else "i"))
        return z
    def tensor(self, w, what, unk, decl, entry, n, last, value, first):
        gi = tuple(T.fresh_indices(w.dims, "w"))
        rd = w.reader()
        val = num(rd(gi))
        if native(val) or not uses(val.z, decl):
            value(val, what)
            if first is not None: CTX.prove(eq(num(first.at(gi)), self.sub(val, self.lo)), "loop: first value of %s" % what, "inv")
            return T.mk(w.dims, lambda i: self.sub(value(num(rd(i)), what), last), w.dtype)
        u = unk(gi)
        d = self.zero(val, u)
        if not native(d) and uses(d.z, decl): raise Unsupported("%s is no accumulator" % what)
        if not CTX.entails(eq(val, add(u, d)), 5000): raise Unsupported("%s is no accumulator" % what)
        value(d, what)
        delta = lambda i: value(self.zero(num(rd(i)), unk(i)) if not native(num(rd(i))) else num(rd(i)), what)
        if first is not None:
            CTX.prove(eq(num(first.at(gi)), add(entry(gi), self.sub(delta(gi), self.lo))), "loop: first value of %s" % what, "inv")
        return T.mk(w.dims, lambda i: add(entry(i), sums.Sum(n, lambda j: self.sub(delta(i), add(self.lo, j)))), w.dtype)
    def storage(self, s, new, f, old, dims, nd, n, last, value, resolve):
        gi = tuple(T.fresh_indices(nd, "w"))
        u = f([iscal(x) for x in gi]); decl = u.z.decl()
        val = num(new(gi))
        own = [x for x in self.ufdecls if x.eq(decl)]
        what = "a tensor the loop writes"
        if native(val) or not uses(val.z, decl):                     # overwritten as a whole
            value(val, what)
            return lambda i: self.sub(value(num(new(i)), what), last)
        if len(dims) != len(nd) or not all(T.dim_eq(a, b) for a, b in zip(dims, nd)): raise Unsupported("the loop resizes a tensor")
        d = self.zero(val, u)
        if (native(d) or not uses(d.z, decl)) and CTX.entails(eq(val, add(u, d)), 3000):
            try: value(d, what); acc = True
            except Unsupported: acc = False
            if acc:
                return lambda i: add(old(i), sums.Sum(n, lambda j: self.sub(value(self.zero(num(new(i)), f([iscal(x) for x in i])), what) if not native(num(new(i))) else num(new(i)), add(self.lo, j))))
        if not nd: raise Unsupported("%s: no rule" % what)
        i0 = iscal(gi[0])
        c = self.c
        CTX.prove(implies(ne(i0, c), eq(val, u)), "map loop: iteration c writes only row c", "inv")       # cells with another first index keep their contents
        v2 = self.sub(val, i0)
        if not native(v2):
            if uses(v2.z, decl): raise Unsupported("loop body depends on contents it also writes")
            value(v2, what)
        lo, hi = self.lo, self.hi
        def fin(idx):
            i0 = iscal(idx[0])
            v = resolve(num(new(idx)))
            if not native(v): v = S(z3.simplify(sums.subst(v.z, c.z, Z(i0, "i"))))
            inside = andv(le(lo, i0), lt(i0, hi))
            if inside is True or CTX.entails(inside, 500): return v
            return ite(inside, v, old(idx))
        return fin
    def symlist(self, v, n, value):
        lo = self.lo
        if isinstance(v, Tensor):
            self.depc_dims(v.dims)
            rd = v.reader()
            value(num(rd(tuple(T.fresh_indices(v.dims, "w")))), "an appended value")
            return SymList(n, lambda j: T.mk(v.dims, lambda i: self.sub(value(num(rd(i)), "an appended value"), add(lo, j)), v.dtype))
        if isinstance(v, tuple):
            return SymList(n, (lambda parts: lambda j: tuple(p.fn(j) for p in parts))([self.symlist(x, n, value) for x in v]))
        if v is None or isinstance(v, (bool, str)) : return SymList(n, lambda j: v)
        if kind(v) is None: raise Unsupported("element of a symbolic list")
        v = value(num(v), "an appended value")
        return SymList(n, lambda j: self.sub(v, add(lo, j)))

def hasshape(w): return isinstance(w, tuple) and any(isinstance(x, (SV, Tensor)) for x in w)
def retyped(v, u):
    if isinstance(u, Tensor): return not isinstance(v, Tensor) or v.dtype is not u.dtype or len(v.dims) != len(u.dims) or not all(T.dim_eq(a, b) for a, b in zip(v.dims, u.dims))
    return isinstance(v, Tensor) or sortof(v) != sortof(u)
def decls(z):
    out, seen, st = set(), set(), [z]
    tab = sums.byname()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        r = tab.get(x.decl().name()) if z3.is_const(x) else None
        if r is not None: st += [r["body"], Z(r["n"])]
        st += x.children()
    return out
def uses(z, decl):
    tab = sums.byname()
    seen, st = set(), [z]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl): return True
        r = tab.get(x.decl().name()) if z3.is_const(x) else None
        if r is not None: st += [r["body"], Z(r["n"])]
        st += x.children()
    return False
