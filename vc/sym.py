"""Symbolic scalars, facts, path exploration and proof obligations (z3, then cvc5)."""
import os, subprocess, tempfile, time
from fractions import Fraction
import z3

class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for (never a violation)."""
class Infeasible(BaseException):
    """The current path condition is contradictory."""

NUM = (int, Fraction, bool)

def norm(v):
    """native number -> bool/int/Fraction"""
    if isinstance(v, bool): return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")): raise Unsupported("non-finite constant")
        v = Fraction(v)
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else v
    return v

class SV:
    """symbolic int / real / bool"""
    __slots__ = ("z", "sort")
    def __init__(self, z):
        self.z = z
        self.sort = "b" if z3.is_bool(z) else ("i" if z.is_int() else "r")
    def __repr__(self): return "SV(%s)" % self.z
    def __hash__(self): return self.z.hash()
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    # python protocol used by the code under verification
    def __bool__(self):
        return CTX.decide(truth(self))
    def __add__(s, o): return NotImplemented if not isscalar(o) else add(s, o)
    def __radd__(s, o): return NotImplemented if not isscalar(o) else add(o, s)
    def __sub__(s, o): return NotImplemented if not isscalar(o) else sub(s, o)
    def __rsub__(s, o): return NotImplemented if not isscalar(o) else sub(o, s)
    def __mul__(s, o):
        if isinstance(o, (list, tuple)): return RepList(list(o), s)
        return NotImplemented if not isscalar(o) else mul(s, o)
    def __rmul__(s, o):
        if isinstance(o, (list, tuple)): return RepList(list(o), s)
        return NotImplemented if not isscalar(o) else mul(o, s)
    def __truediv__(s, o): return NotImplemented if not isscalar(o) else pydiv(s, o)
    def __rtruediv__(s, o): return NotImplemented if not isscalar(o) else pydiv(o, s)
    def __floordiv__(s, o): return NotImplemented if not isscalar(o) else floordiv(s, o)
    def __rfloordiv__(s, o): return NotImplemented if not isscalar(o) else floordiv(o, s)
    def __mod__(s, o): return NotImplemented if not isscalar(o) else mod(s, o)
    def __rmod__(s, o): return NotImplemented if not isscalar(o) else mod(o, s)
    def __pow__(s, o): return NotImplemented if not isscalar(o) else power(s, o)
    def __rpow__(s, o): return NotImplemented if not isscalar(o) else power(o, s)
    def __neg__(s): return sub(0, s)
    def __pos__(s): return s
    def __abs__(s): return absv(s)
    def __lt__(s, o): return NotImplemented if not isscalar(o) else lt(s, o)
    def __le__(s, o): return NotImplemented if not isscalar(o) else le(s, o)
    def __gt__(s, o): return NotImplemented if not isscalar(o) else lt(o, s)
    def __ge__(s, o): return NotImplemented if not isscalar(o) else le(o, s)
    def __eq__(s, o): return NotImplemented if not isscalar(o) else eq(s, o)
    def __ne__(s, o): return NotImplemented if not isscalar(o) else notv(eq(s, o))
    def __and__(s, o): return NotImplemented if not isscalar(o) else bitop("and", s, o)
    def __rand__(s, o): return NotImplemented if not isscalar(o) else bitop("and", o, s)
    def __or__(s, o): return NotImplemented if not isscalar(o) else bitop("or", s, o)
    def __ror__(s, o): return NotImplemented if not isscalar(o) else bitop("or", o, s)
    def __xor__(s, o): return NotImplemented if not isscalar(o) else bitop("xor", s, o)
    def __rxor__(s, o): return NotImplemented if not isscalar(o) else bitop("xor", o, s)
    def __lshift__(s, o): return NotImplemented if not isscalar(o) else mul(s, power(2, o))
    def __rlshift__(s, o): return NotImplemented if not isscalar(o) else mul(o, power(2, s))
    def __rshift__(s, o): return NotImplemented if not isscalar(o) else floordiv(s, power(2, o))
    def __rrshift__(s, o): return NotImplemented if not isscalar(o) else floordiv(o, power(2, s))
    def __floor__(s): return floor(s)
    def __ceil__(s): return ceil(s)
    def __trunc__(s): return trunc(s)
    def __round__(s, n=None):
        if n is not None: raise Unsupported("round(x, n)")
        return rnd(s)
    def __index__(s):
        c = CTX.const_of(s)
        if c is not None: return c
        raise Unsupported("symbolic integer used where python needs a concrete one: %s" % s.z)
    __int__ = __index__
    def __float__(s): raise Unsupported("float() of a symbolic value")
    def is_integer(s): return eq(s, floor(s))
    def item(s): return s

class RepList:
    """[x]*n with symbolic n"""
    def __init__(self, items, n): self.items, self.n = items, n

class SymList:
    """[f(x) for x in <symbolic range>]"""
    def __init__(self, n, fn): self.n, self.fn = n, fn
    def vc_len(self): return self.n
    def __getitem__(self, i):
        if isinstance(i, (int, SV)): return self.fn(i)
        raise Unsupported("slice of symbolic list")
    def __iter__(self): raise Unsupported("iteration over a symbolic list")

class SymRange:
    def __init__(self, lo, hi, step=1):
        if step != 1: raise Unsupported("symbolic range with a step")
        self.lo, self.hi = lo, hi
    def vc_len(self): return maxv(0, sub(self.hi, self.lo))
    def __iter__(self): raise Unsupported("iteration over a symbolic range")

def isscalar(v): return isinstance(v, (int, float, Fraction, SV, bool))

def S(z):
    """z3 term -> scalar (native when constant)"""
    if z3.is_int_value(z): return z.as_long()
    if z3.is_rational_value(z): return norm(Fraction(z.numerator_as_long(), z.denominator_as_long()))
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SV(z)

def Z(v, sort=None):
    """scalar -> z3 term"""
    if isinstance(v, SV): z = v.z
    else:
        v = norm(v)
        if isinstance(v, bool):
            z = z3.BoolVal(v) if sort in (None, "b") else z3.IntVal(int(v))
        elif isinstance(v, int): z = z3.IntVal(v)
        elif isinstance(v, Fraction): z = z3.RealVal(v)
        else: raise Unsupported("not a scalar: %r" % (v,))
    if sort == "b" and not z3.is_bool(z): return z != 0
    if sort in ("i", "r") and z3.is_bool(z): z = z3.If(z, z3.IntVal(1), z3.IntVal(0))
    if sort == "r" and z.is_int(): z = z3.ToReal(z)
    if sort == "i" and not z.is_int(): raise Unsupported("real used as integer")
    return z

def native(*vs): return all(not isinstance(v, SV) for v in vs)

def sortof(v):
    if isinstance(v, SV): return v.sort
    v = norm(v)
    return "b" if isinstance(v, bool) else ("i" if isinstance(v, int) else "r")

def num(v):
    """bool -> int"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, SV) and v.sort == "b": return S(z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
    return norm(v) if not isinstance(v, SV) else v

def pair(a, b):
    a, b = num(a), num(b)
    s = "r" if "r" in (sortof(a), sortof(b)) else "i"
    return Z(a, s), Z(b, s)

def add(a, b):
    a, b = num(a), num(b)
    if native(a, b): return norm(a + b)
    if native(a) and a == 0: return b
    if native(b) and b == 0: return a
    x, y = pair(a, b); return S(z3.simplify(x + y))
def sub(a, b):
    a, b = num(a), num(b)
    if native(a, b): return norm(a - b)
    if native(b) and b == 0: return a
    x, y = pair(a, b); return S(z3.simplify(x - y))
def isbit(v):
    lo, hi = bounds(v)
    return lo is not None and hi is not None and lo >= 0 and hi <= 1 and sortof(v) != "r"
def mul(a, b):
    a, b = num(a), num(b)
    if native(a, b): return norm(a * b)
    for p, q in ((a, b), (b, a)):
        if native(p):
            if p == 0: return 0
            if p == 1: return q
    x, y = pair(a, b)
    for u, v in ((x, y), (y, x)):       # (p/q)*q = p  (q nonzero is a safety obligation where the quotient was formed)
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_DIV and unreal(u.arg(1)).eq(unreal(v)): return S(unreal(u.arg(0)))
    if not native(a, b) and not (native(a) or native(b)):
        # keep products of a bit and something linear
        if isbit(a): return ite(eq(a, 1), b, 0)
        if isbit(b): return ite(eq(b, 1), a, 0)
    return S(z3.simplify(x * y))
def unreal(z):
    return z.arg(0) if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_TO_REAL else z
def divr(a, b):
    """exact division (divisor known nonzero by the caller)"""
    a, b = num(a), num(b)
    if native(a, b):
        if b == 0: raise ZeroDivisionError("division by zero")
        return norm(Fraction(a) / Fraction(b))
    if native(b): return mul(a, norm(Fraction(1) / Fraction(b))) if b != 0 else _zde()
    return S(Z(a, "r") / Z(b, "r"))
def _zde(): raise ZeroDivisionError("division by zero")
def pydiv(a, b):
    if not native(b):
        if truthc(eq(b, 0)): raise ZeroDivisionError("division by zero")
    return divr(a, b)
def truthc(c):
    return c if isinstance(c, bool) else bool(c)
def floordiv(a, b):
    a, b = num(a), num(b)
    if native(a, b):
        if b == 0: _zde()
        return norm(Fraction(a) / Fraction(b)).__floor__()
    if sortof(a) == "i" and sortof(b) == "i":
        if native(b):
            if b == 0: _zde()
            if b == 1: return a
            if b > 0: return S(z3.simplify(Z(a) / Z(b)))
        return symdiv(a, b)
    return floor(pydiv(a, b))
def mod(a, b):
    a, b = num(a), num(b)
    if native(a, b):
        if b == 0: _zde()
        return norm(a - b * (Fraction(a) / Fraction(b)).__floor__())
    if sortof(a) == "i" and sortof(b) == "i":
        if native(b) and b > 0:
            lo, hi = bounds(a)
            if lo is not None and hi is not None and lo >= 0 and hi < b: return a
            return S(z3.simplify(Z(a) % Z(b)))
        return sub(a, mul(b, symdiv(a, b))) if False else symmod(a, b)
    raise Unsupported("real modulus")

DIVF = z3.Function("DIV", z3.IntSort(), z3.IntSort(), z3.IntSort())
MODF = z3.Function("MOD", z3.IntSort(), z3.IntSort(), z3.IntSort())
def _divmod(a, b):
    x, y = Z(a), Z(b)
    x = z3.simplify(x)
    q, r = DIVF(x, y), MODF(x, y)
    CTX.fact_once(("divmod", x.get_id(), y.get_id()), lambda: z3.Implies(y > 0, z3.And(x == y * q + r, r >= 0, r < y,
        z3.Implies(z3.And(x >= 0, x < y), z3.And(q == 0, r == x)), z3.Implies(x >= 0, q >= 0))), keep=(x, y))
    reg = CTX.uf_apps.setdefault("MOD", [])
    if not any(a2.eq(x) and b2.eq(y) for a2, b2 in reg):
        for a2, b2 in reg:                      # (a + b) mod b = a mod b
            if b2.eq(y):
                d = z3.simplify(x - a2)
                if d.eq(y) or z3.simplify(d - y).eq(z3.IntVal(0)): CTX.facts.append(z3.Implies(y > 0, z3.And(r == MODF(a2, y), q == DIVF(a2, y) + 1)))
                elif z3.simplify(d + y).eq(z3.IntVal(0)): CTX.facts.append(z3.Implies(y > 0, z3.And(r == MODF(a2, y), q == DIVF(a2, y) - 1)))
        reg.append((x, y))
    return q, r
def symdiv(a, b):
    if isinstance(b, SV) and not CTX.entails(lt(0, b)): raise Unsupported("division by a possibly non-positive symbol")
    return S(_divmod(a, b)[0])
def symmod(a, b):
    if isinstance(b, SV) and not CTX.entails(lt(0, b)): raise Unsupported("modulus by a possibly non-positive symbol")
    return S(_divmod(a, b)[1])

POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
POW2R = z3.Function("pow2r", z3.RealSort(), z3.RealSort())
def power(a, b):
    a, b = num(a), num(b)
    if native(a, b):
        return norm(Fraction(a) ** b) if isinstance(b, int) else norm(float(a) ** float(b))
    if native(b) and isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b): r = mul(r, a)
        return r
    if native(a) and a == 2:
        return pow2(b)
    raise Unsupported("power %r ** %r" % (a, b))
def pow2(e):
    """2**e; an integer when e is an integer known to be >= 0, a positive real otherwise"""
    if native(e): return norm(Fraction(2) ** e)
    if e.sort == "i":
        if CTX.entails(le(0, e)):
            z = z3.simplify(e.z)
            t = POW2(z)
            CTX.reg_pow2(z, t)
            return SV(t)
        z = z3.simplify(z3.ToReal(e.z))
    else: z = z3.simplify(e.z)
    t = POW2R(z); CTX.reg_pow2r(z, t)
    return SV(t)

def absv(a):
    if native(a): return abs(norm(a))
    return ite(le(0, a), a, sub(0, a))
def lt(a, b):
    if native(a, b): return bool(norm(a) < norm(b))
    x, y = pair(a, b)
    la, ha = bounds(a); lb, hb = bounds(b)
    if ha is not None and lb is not None and ha < lb: return True
    if la is not None and hb is not None and la >= hb: return False
    return S(z3.simplify(x < y))
def le(a, b):
    if native(a, b): return bool(norm(a) <= norm(b))
    x, y = pair(a, b)
    la, ha = bounds(a); lb, hb = bounds(b)
    if ha is not None and lb is not None and ha <= lb: return True
    if la is not None and hb is not None and la > hb: return False
    return S(z3.simplify(x <= y))
def eq(a, b):
    if native(a, b): return bool(norm(a) == norm(b))
    if sortof(a) == "b" and sortof(b) == "b": return S(z3.simplify(Z(a) == Z(b)))
    x, y = pair(a, b)
    if x.eq(y): return True
    la, ha = bounds(a); lb, hb = bounds(b)
    if ha is not None and lb is not None and ha < lb: return False
    if la is not None and hb is not None and la > hb: return False
    return S(z3.simplify(x == y))
def ne(a, b): return notv(eq(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def truth(v):
    """scalar -> bool scalar (python truthiness)"""
    if native(v): return bool(v)
    return v if v.sort == "b" else notv(eq(v, 0))
def notv(a):
    a = truth(a)
    if native(a): return not a
    return S(z3.simplify(z3.Not(a.z)))
def andv(*cs):
    out = []
    for c in cs:
        c = truth(c)
        if native(c):
            if not c: return False
        else: out.append(c.z)
    if not out: return True
    return S(z3.simplify(z3.And(*out))) if len(out) > 1 else S(out[0])
def orv(*cs):
    return notv(andv(*[notv(c) for c in cs]))
def implies(a, b): return orv(notv(a), b)
def iff(a, b): return eq(truth(a), truth(b))
def ite(c, a, b):
    c = truth(c)
    if native(c): return a if c else b
    if sortof(a) == "b" and sortof(b) == "b":
        return S(z3.simplify(z3.If(c.z, Z(a), Z(b))))
    x, y = pair(a, b)
    if x.eq(y): return a
    return S(z3.If(c.z, x, y))
def maxv(a, b):
    if native(a, b): return norm(max(num(a), num(b)))
    return ite(le(a, b), b, a)
def minv(a, b):
    if native(a, b): return norm(min(num(a), num(b)))
    return ite(le(a, b), a, b)
def clampv(x, lo, hi):
    if lo is not None: x = maxv(x, lo)
    if hi is not None: x = minv(x, hi)
    return x
def floor(a):
    a = num(a)
    if native(a): return int(Fraction(a).__floor__())
    if a.sort == "i": return a
    z = z3.simplify(a.z)
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_TO_REAL: return S(z.arg(0))
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_DIV:
        u, v = intlike(z.arg(0)), intlike(z.arg(1))
        if u is not None and v is not None and not z3.is_int_value(v) and CTX.entails(lt(0, S(v))): return symdiv(S(u), S(v))
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ADD:      # floor(i + x) = i + floor(x)
        ints, rest = [], []
        for c in z.children():
            i = intlike(c)
            (ints if i is not None else rest).append(i if i is not None else c)
        if ints and len(rest) == 1:
            r = floor(S(rest[0]))
            for i in ints: r = add(r, S(i))
            return r
    return S(z3.simplify(z3.ToInt(z)))
def intlike(z):
    """integer term equal to the real term z, if syntactically evident"""
    if z.is_int(): return z
    if z3.is_rational_value(z): return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if not z3.is_app(z): return None
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return z.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [intlike(c) for c in z.children()]
        if any(c is None for c in cs): return None
        if k == z3.Z3_OP_ADD: return z3.Sum(*cs)
        if k == z3.Z3_OP_MUL: return z3.Product(*cs)
        if k == z3.Z3_OP_SUB: return cs[0] - cs[1] if len(cs) == 2 else None
        return -cs[0]
    return None
def ceil(a): return sub(0, floor(sub(0, a)))
def trunc(a):
    a = num(a)
    if native(a): return int(Fraction(a).__trunc__())
    if a.sort == "i": return a
    return ite(le(0, a), floor(a), ceil(a))
def rnd(a):
    """round half to even"""
    a = num(a)
    if native(a): return int(round(Fraction(a)))
    if a.sort == "i": return a
    f = floor(a); d2 = mul(2, sub(a, f))
    return ite(lt(d2, 1), f, ite(lt(1, d2), add(f, 1), ite(eq(mod(f, 2), 0), f, add(f, 1))))
def sign(a):
    return ite(lt(0, a), 1, ite(lt(a, 0), -1, 0))
def bitop(op, a, b):
    if sortof(a) == "b" and sortof(b) == "b":
        return {"and": andv, "or": orv, "xor": lambda x, y: notv(iff(x, y))}[op](a, b)
    a, b = num(a), num(b)
    if native(a, b): return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if op == "and":                      # x & (2^k - 1) = x mod 2^k
        for x, m in ((a, b), (b, a)):
            if native(m) and isinstance(m, int) and m >= 0 and (m & (m + 1)) == 0 and not (m == 1 and isbit(x)): return mod(x, m + 1)
    for v in (a, b):
        if not isbit(v) and not CTX.entails(andv(le(0, v), le(v, 1))):
            raise Unsupported("bitwise operation on values not known to be bits")
    if op == "and":
        return ite(eq(a, 1), b, 0)
    if op == "or": return ite(eq(a, 1), 1, b)
    return ite(eq(a, 1), sub(1, b), b)

# ---------------------------------------------------------------- interval analysis
_B = {}
def bounds(v):
    if not isinstance(v, SV):
        n = num(v); return (n, n)
    return _bz(v.z)
def _bz(z):
    k = z.get_id()
    r = _B.get(k)
    if r is not None and r[0].eq(z): return r[1]
    b = _bz0(z)
    _B[k] = (z, b)
    return b
def _bz0(z):
    if z3.is_int_value(z) or z3.is_rational_value(z):
        n = S(z); return (n, n)
    if not z3.is_app(z): return (None, None)
    d = z.decl(); kd = d.kind()
    if kd == z3.Z3_OP_UNINTERPRETED:
        return CTX.declb.get(d.name(), (None, None))
    ch = z.children()
    if kd == z3.Z3_OP_TO_REAL: return _bz(ch[0])
    if kd == z3.Z3_OP_ITE:
        a, b = _bz(ch[1]), _bz(ch[2])
        return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
    if kd == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in ch:
            l, h = _bz(c)
            lo = None if lo is None or l is None else norm(lo + l)
            hi = None if hi is None or h is None else norm(hi + h)
        return (lo, hi)
    if kd == z3.Z3_OP_MUL and len(ch) == 2:
        (a, b), (c, e) = _bz(ch[0]), _bz(ch[1])
        if None not in (a, b, c, e):
            ps = [norm(x * y) for x in (a, b) for y in (c, e)]
            return (min(ps), max(ps))
        if a is not None and a == b:
            l, h = (c, e) if a >= 0 else (e, c)
            return (None if l is None else norm(l * a), None if h is None else norm(h * a))
        if a is not None and c is not None and a >= 0 and c >= 0: return (norm(a * c), None)
    if kd == z3.Z3_OP_MOD and z3.is_int_value(ch[1]): return (0, ch[1].as_long() - 1)
    if kd == z3.Z3_OP_TO_INT:
        l, h = _bz(ch[0])
        return (None if l is None else int(Fraction(l).__floor__()), None if h is None else int(Fraction(h).__floor__()))
    return (None, None)

# ---------------------------------------------------------------- context
class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "detail", "func", "model", "kind")
    def __init__(self, name, func, kind="post"):
        self.name, self.func, self.kind = name, func, kind
        self.status = self.backend = self.detail = self.model = None
        self.secs = 0.0

class Context:
    TIMEOUT = 10000
    def __init__(self):
        self.reset_all()
    def reset_all(self):
        self.obls = []
        self.func = "?"
        self.solver_secs = 0.0
        self.queries = 0
        self.reset_run()
    def reset_run(self):
        self.facts = []          # always true
        self.pc = []             # path condition of this run
        self.declb = {}          # bounds of uninterpreted symbols
        self.counter = {}
        self.once = {}
        self.pow2s = []; self.pow2rs = []
        self.uf_apps = {}
        self.sums = []
        self.seen_axioms = set()
        self.entcache = {}
        self.havoc_undeclared = False
        self.inexact = []
        self.no_grad = 0; self.wlog = None; self.nofork = 0; self.weak = 0; self.noprove = False
        _B.clear()
    # -- symbols
    def name(self, base):
        n = self.counter.get(base, 0); self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)
    def int(self, base, lo=None, hi=None):
        n = self.name(base); self.declb[n] = (lo, hi)
        v = SV(z3.Int(n))
        if lo is not None: self.facts.append(v.z >= lo)
        if hi is not None: self.facts.append(v.z <= hi)
        return v
    def real(self, base, lo=None, hi=None):
        n = self.name(base); self.declb[n] = (lo, hi)
        v = SV(z3.Real(n))
        if lo is not None: self.facts.append(v.z >= Z(lo, "r"))
        if hi is not None: self.facts.append(v.z <= Z(hi, "r"))
        return v
    def boolean(self, base): return SV(z3.Bool(self.name(base)))
    def uf(self, base, arity, sort="i", lo=None, hi=None, fact=None):
        """uninterpreted function of integer indices; fact(idx, val) is instantiated at every use"""
        n = self.name(base); self.declb[n] = (lo, hi)
        rs = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[sort]
        f = z3.Function(n, *([z3.IntSort()] * arity + [rs])) if arity else z3.Const(n, rs)
        def app(idx):
            t = f(*[Z(i, "i") for i in idx]) if arity else f
            v = SV(t)
            def mk():
                fs = []
                if lo is not None: fs.append(Z(le_raw(lo, v)))
                if hi is not None: fs.append(Z(le_raw(v, hi)))
                return z3.And(*fs) if fs else z3.BoolVal(True)
            key = (n, t.get_id())
            if key not in self.once:
                self.once[key] = t
                if lo is not None or hi is not None: self.facts.append(mk())
                if fact is not None:
                    g = fact(idx, v)
                    if g is not None and g is not True: self.facts.append(Z(truth(g)))
            return v
        return app
    def assume(self, c):
        c = truth(c)
        if native(c):
            if not c: raise Infeasible()
            return
        self.facts.append(c.z)
    def fact_once(self, key, mk, keep=None):
        if key in self.once: return
        self.once[key] = keep
        self.facts.append(mk())
    def reg_pow2(self, e, t):
        if any(x.eq(e) for x, _ in self.pow2s): return
        self.facts += [t >= 1, t >= e + 1]
        self.declb.setdefault("pow2", (1, None))
        for x, u in self.pow2s:
            d = z3.simplify(e - x)
            if z3.is_int_value(d):
                k = d.as_long()
                if abs(k) <= 200:
                    self.facts.append(t == u * (2 ** k) if k >= 0 else u == t * (2 ** -k))
            else:
                self.facts += [z3.Implies(e <= x, t <= u), z3.Implies(x <= e, u <= t), z3.Implies(e < x, 2 * t <= u), z3.Implies(x < e, 2 * u <= t)]
            for y, w in self.pow2s:      # 2^(a+b) = 2^a 2^b
                if z3.is_true(z3.simplify(e == x + y)): self.facts.append(t == u * w)
                if z3.is_true(z3.simplify(x == e + y)): self.facts.append(u == t * w)
        for x, u in self.pow2rs: self._link_pow2(z3.simplify(z3.ToReal(e)), z3.ToReal(t), x, u)
        self.pow2s.append((e, t))
        lo, hi = bounds(SV(e))
        if lo is not None and hi is not None and hi - lo <= 64:
            for k in range(max(0, int(lo)), int(hi) + 1): self.facts.append(z3.Implies(e == k, t == 2 ** k))
        else: self.facts.append(z3.Implies(e == 0, t == 1))
    def _link_pow2(self, e, t, x, u):
        d = z3.simplify(e - x)
        if z3.is_rational_value(d) and d.denominator_as_long() == 1:
            k = d.numerator_as_long()
            self.facts.append(t == u * (2 ** k) if k >= 0 else u == t * (2 ** -k))
        s = z3.simplify(e + x)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1:
            k = s.numerator_as_long()
            self.facts.append(t * u == Z(norm(Fraction(2) ** k), "r"))
    def reg_pow2r(self, e, t):
        if any(x.eq(e) for x, _ in self.pow2rs): return
        self.facts.append(t > 0)
        self.declb.setdefault("pow2r", (0, None))
        allp = self.pow2rs + [(z3.simplify(z3.ToReal(x)), z3.ToReal(u)) for x, u in self.pow2s]
        for x, u in allp:
            self._link_pow2(e, t, x, u)
            self.facts += [z3.Implies(e <= x, t <= u), z3.Implies(x <= e, u <= t)]
            for y, w in allp:
                if z3.is_true(z3.simplify(e == x + y)): self.facts.append(t == u * w)
                if z3.is_true(z3.simplify(x == e + y)): self.facts.append(u == t * w)
                if z3.is_true(z3.simplify(e + x + y == 0)): self.facts.append(t * u * w == 1)
        self.pow2rs.append((e, t))
    # -- queries
    def _solver(self, timeout=None):
        s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        s.set("timeout", timeout or self.TIMEOUT)
        return s
    def axioms(self, goal, wide=False):
        """derived facts over the terms created so far: about the sums the goal and the path mention, or (wide) about all"""
        from . import sums
        only = None
        if not wide:
            only = sums.free(goal)
            for c in self.pc: only = only | sums.free(c)
        return sums.axioms(only) + sums.instances(goal)
    def check(self, goals, timeout=None):
        """sat/unsat/unknown of facts & pc & goals"""
        t0 = time.time()
        s = self._solver(timeout)
        s.add(*self.facts); s.add(*self.pc); s.add(*goals)
        r = s.check()
        self.queries += 1
        self.solver_secs += time.time() - t0
        return r, s
    def entails(self, c, timeout=1500):
        c = truth(c)
        if native(c): return bool(c)
        key = (c.z.get_id(), len(self.facts), len(self.pc))
        if key in self.entcache: return self.entcache[key][0]
        r, _ = self.check([z3.Not(c.z)], timeout)
        ok = r == z3.unsat
        self.entcache[key] = (ok, c.z)
        return ok
    def const_of(self, v):
        if native(v): return v
        z = z3.simplify(v.z)
        if z3.is_int_value(z): return z.as_long()
        r, s = self.check([], 1500)
        if r == z3.sat:
            m = s.model().eval(v.z, model_completion=True)
            if z3.is_int_value(m) and self.entails(eq(v, m.as_long())): return m.as_long()
        return None
    # -- path exploration
    def decide(self, c):
        if native(c): return bool(c)
        if getattr(self, "nofork", 0): raise Unsupported("branch on a lane-dependent value")
        rt, _ = self.check([c.z], 4000)
        rf, _ = self.check([z3.Not(c.z)], 4000)
        if rt == z3.unsat and rf == z3.unsat: raise Infeasible()
        if rf == z3.unsat: return True
        if rt == z3.unsat: return False
        if self.pos < len(self.trail): d = self.trail[self.pos]
        else:
            d = True; self.trail.append(True)
        self.pos += 1
        if self.pos > 40: raise Unsupported("too many branches")
        self.pc.append(c.z if d else z3.Not(c.z))
        return d
    def explore(self, fn, limit=64):
        """run fn() once per feasible path; returns list of results"""
        self.trail = []
        out = []
        while True:
            self.pos = 0
            self.reset_run()
            try:
                out.append(fn())
            except Infeasible: pass
            if len(out) > limit: raise Unsupported("too many paths")
            self.trail = self.trail[:self.pos]
            while self.trail and self.trail[-1] is False: self.trail.pop()
            if not self.trail: return out
            self.trail[-1] = False
    # -- obligations
    def prove(self, goal, name, kind="post", timeout=None):
        """record and discharge one obligation: facts & pc |= goal"""
        if self.__dict__.get("noprove") and kind not in ("frame",): return True
        o = Obligation(name, self.func, kind)
        self.obls.append(o)
        goal = truth(goal)
        t0 = time.time()
        if native(goal):
            if goal: o.status, o.backend = "proved", "constant folding"
            else:
                r, s = self.check([], timeout)
                o.backend = "z3"
                if r == z3.unsat: o.status = "proved"; o.detail = "unreachable"
                elif r == z3.sat: o.status = "unknown" if self.__dict__.get("weak") else "refuted"; o.model = model_str(s.model())
                else: o.status = "unknown"
            o.secs = time.time() - t0
            return o.status == "proved"
        from . import sums
        neg = z3.Not(goal.z)
        s = self._solver(400); s.add(neg); r = s.check()       # most goals hold without any fact
        self.queries += 1; extra = []
        if r != z3.unsat:
            cz = sums.canon(goal.z)
            if z3.is_true(cz): r = z3.unsat
            else: r, s = self.check([neg], min(2000, timeout or self.TIMEOUT))
        if r != z3.unsat:
            extra = self.axioms(neg)
            r, s = self.check([neg] + extra, timeout)
            if r != z3.unsat and len(self.sums) > 1:
                ex2 = self.axioms(neg, True)
                if len(ex2) > len(extra): extra = ex2; r, s = self.check([neg] + extra, timeout)
        o.backend = "z3 %s" % z3.get_version_string()
        if r == z3.unsat: o.status = "proved"
        elif r == z3.sat and self.once.get("sumunk") and any(v.startswith("SUM!") for v in sums.free(goal.z)):
            o.status = "unknown"; o.detail = "the solver could not decide whether two sums agree"
        elif r == z3.sat:
            o.status = "refuted"; o.model = model_str(s.model())
            if self.__dict__.get("weak"): o.status = "unknown"; o.detail = "inside a loop, from an arbitrary state"
        else:
            r2 = cvc5_check(self.facts + self.pc + [neg] + extra, timeout or self.TIMEOUT)
            if r2 == "unsat": o.status, o.backend = "proved", "cvc5 1.1.2"
            else: o.status = "unknown"; o.detail = "z3: %s; cvc5: %s" % (s.reason_unknown(), r2)
        o.secs = time.time() - t0
        return o.status == "proved"
    def cover(self, name):
        """vacuity guard: the facts and the path condition are satisfiable"""
        from . import sums
        r, s = self.check(sums.axioms(known=True), None)
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat: r, s = self.check([], 4 * self.TIMEOUT)      # the axioms follow from the facts' meaning
        return r == z3.sat

def le_raw(a, b):
    x, y = pair(a, b); return SV(x <= y)

def model_str(m):
    out = {}
    for d in m.decls():
        try:
            if d.arity() == 0: out[d.name()] = str(m[d])
            else: out[d.name()] = str(m[d])[:300]
        except Exception: pass
    return out

def cvc5_check(fs, timeout):
    s = z3.Solver(); s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")
        return out[0] if out and out[0] in ("sat", "unsat", "unknown") else "no answer"
    except Exception as e:
        return "no answer"

CTX = Context()
