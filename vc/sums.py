"""Opaque finite sums  Sum_{0<=k<n} f(k)  with instantiated facts."""
import itertools
from fractions import Fraction
import z3
from .sym import *
from . import sym

def _consts(z, acc, seen):
    if z.get_id() in seen: return
    seen.add(z.get_id())
    if z3.is_app(z):
        if z.num_args() == 0 and z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(z.decl().name())
            dep = CTX.once.get(("sumdep", z.decl().name()))
            if dep: acc |= dep
        for c in z.children(): _consts(c, acc, seen)

def free(z):
    acc = set(); _consts(z, acc, set()); return acc

def _bound(n, depth):
    nz = Z(n)
    key = ("bvar", depth, nz.sexpr())
    if key not in CTX.once:
        k = z3.Int("k!%d!%d" % (depth, len(CTX.once)))
        CTX.once[key] = k
        CTX.facts.append(z3.Implies(nz >= 1, z3.And(k >= 0, k < nz)))
        CTX.declb[k.decl().name()] = (0, None if isinstance(n, SV) else int(n) - 1)
    return CTX.once[key]

_depth = [0]
def Sum(n, f):
    """sum of f(0..n-1); n an int or symbolic int >= 0"""
    n = num(n)
    if native(n) and n <= CTX.__dict__.get("expand", 12):
        r = 0
        for i in range(n): r = add(r, f(i))
        return r
    _depth[0] += 1
    try:
        k = _bound(n, _depth[0])
        body = num(f(SV(k)))
    finally: _depth[0] -= 1
    if native(body): return mul(n, body)
    bz = z3.simplify(body.z)
    fv = free(bz)
    if k.decl().name() not in fv: return mul(n, S(bz))
    for r in CTX.sums:
        if r["body"].eq(bz) and r["k"].eq(k): return SV(r["S"])
    cz = canon(bz)
    if z3.is_int_value(cz) or z3.is_rational_value(cz): return mul(n, S(cz))
    for r in CTX.sums:
        if r["canon"].eq(cz) and r["k"].eq(k): return SV(r["S"])
    nm = "SUM!%d" % len(CTX.sums)
    s = z3.Int(nm) if bz.is_int() else z3.Real(nm)
    fv |= free(Z(n)); fv.discard(k.decl().name())
    CTX.once[("sumdep", nm)] = frozenset(fv)
    lo, hi = bounds(SV(bz))
    rec = {"S": s, "n": n, "k": k, "body": bz, "canon": cz}
    CTX.sums.append(rec)
    if lo is not None: CTX.facts.append(Z(le_raw(mul(n, lo), SV(s))))
    if hi is not None: CTX.facts.append(Z(le_raw(SV(s), mul(n, hi))))
    if native(n): CTX.declb[nm] = (None if lo is None else norm(n * lo), None if hi is None else norm(n * hi))
    elif lo is not None and lo >= 0: CTX.declb[nm] = (0, None)
    top = symhi(bz)
    if top is not None:
        rec["hi"] = mul(n, top)
        if hi is None: CTX.facts.append(Z(le_raw(SV(s), rec["hi"])))
    return SV(s)
def symhi(z):
    """an upper bound that does not depend on the summation index, possibly symbolic: of a bounded term or of a sum"""
    lo, hi = bounds(SV(z))
    if hi is not None: return hi if lo is not None and lo >= 0 else None
    if z3.is_const(z):
        for r in CTX.sums:
            if r["S"].eq(z) and "hi" in r and not any(x.startswith("k!") for x in free(Z(r["hi"]))): return r["hi"]
    return None
def samehi(x, y):
    a, b = symhi(x), symhi(y)
    if a is None or b is None: return None
    return a if Z(a).eq(Z(b)) else None

def axioms(only=None, known=False):
    """extensionality / complement / monotonicity between the recorded sums (those named in only; known: nothing new)"""
    out = []
    rs = CTX.sums
    cache = CTX.once.setdefault("sumax", {})
    pick = [i for i in range(len(rs)) if only is None or rs[i]["S"].decl().name() in only]
    for i in pick:
        for j in pick:
            if j >= i: break
            a, b = rs[i], rs[j]
            if known:
                if cache.get((i, j, len(CTX.pc))) is not None: out.append(cache[i, j, len(CTX.pc)])
                continue
            yb = b["body"]
            if not a["k"].eq(b["k"]):
                # lengths that are sums themselves may be equal without being the same term
                if not (hassum(a["n"]) and hassum(b["n"])) : continue
                if a["k"].decl().name().split("!")[1] != b["k"].decl().name().split("!")[1]: continue
                key = ("n", i, j, len(CTX.pc))
                if key not in cache: cache[key] = CTX.check(out + [Z(a["n"]) != Z(b["n"])], 1000)[0] == z3.unsat
                if not cache[key]: continue
                yb = z3.substitute(yb, (b["k"], a["k"]))
                if depends(yb, b["k"]): continue
            key = (i, j, len(CTX.pc))
            if key not in cache:
                x, y = SV(a["body"]), SV(yb)
                x_, y_ = pair(x, y)
                X, Y = pair(SV(a["S"]), SV(b["S"]))
                r = None
                if eqbody(out, a, b, x_, y_): r = X == Y
                elif CTX.check(out + [x_ + y_ != 1], 1500)[0] == z3.unsat: r = X + Y == (Z(a["n"], "r") if X.is_real() else Z(a["n"]))
                elif CTX.check(out + [x_ + y_ != 0], 1500)[0] == z3.unsat: r = X + Y == 0
                else:
                    top = samehi(a["body"], yb)               # terms that share a bound
                    if top is not None and not (native(top) and top == 0) and CTX.check(out + [x_ + y_ > Z(top, "r" if x_.is_real() else "i")], 1500)[0] == z3.unsat:
                        r = X + Y <= Z(mul(a["n"], top), "r" if X.is_real() else "i")
                cache[key] = r
            if cache[key] is not None: out.append(cache[key])
    return out

def eqbody(out, a, b, x, y):
    if a["k"].eq(b["k"]):
        p, q = pair(SV(a["canon"]), SV(b["canon"]))
        if CTX.check(out + [p != q], 5000)[0] == z3.unsat: return True
    r = CTX.check(out + [x != y], 8000)[0]
    if r == z3.unknown: CTX.once["sumunk"] = True           # the two sums may be equal after all
    return r == z3.unsat
def hassum(n): return isinstance(n, SV) and any(v.startswith("SUM!") for v in free(n.z))
def depends(z, v): return v.decl().name() in free(z)
def byname(): return {r["S"].decl().name(): r for r in CTX.sums}
def subst(z, v, t):
    """z[t/v], through the sums z mentions"""
    nm = v.decl().name()
    if nm not in free(z): return z
    tab = byname()
    def inner(z):
        ps = [(v, t)]
        for c in consts(z):
            r = tab.get(c.decl().name())
            if r is None or nm not in (CTX.once[("sumdep", c.decl().name())]): continue
            n2 = S(z3.simplify(inner(Z(r["n"]))))
            body, k = r["body"], r["k"]
            new = Sum(n2, lambda j: S(z3.substitute(inner(body), (k, Z(j))) if not through(body, k) else subst(inner(body), k, Z(j))))
            ps.append((c, Z(new, "r" if c.is_real() else "i")))
        return z3.substitute(z, *ps)
    return inner(z)
def through(z, k):
    """does a sum constant inside z depend on k"""
    return any(k.decl().name() in (CTX.once.get(("sumdep", c.decl().name())) or ()) for c in consts(z))
def consts(z):
    out, seen, st = [], set(), [z]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st += x.children()
    return out

def instances(goal):
    """a sum of nonnegative terms is at least each of its terms; instantiated at the index constants of the goal"""
    out = []
    cs = sorted(n for n in free(goal) if n == "l" or n.startswith("l!"))
    if not cs: return out
    by = {r["S"].decl().name(): r for r in CTX.sums}
    for r in CTX.sums:
        ks, body, x = [(r["k"], r["n"])], r["body"], r
        while z3.is_const(body) and body.decl().name() in by:
            x = by[body.decl().name()]; ks.append((x["k"], x["n"])); body = x["body"]
        lo, _ = bounds(SV(body))
        if lo is None or lo < 0: continue
        if len(ks) > len(cs): continue
        for t in list(itertools.permutations(cs, len(ks)))[:60]:
            sub = [(k, z3.Int(c)) for (k, _), c in zip(ks, t)]
            rng = [z3.And(z3.Int(c) >= 0, z3.Int(c) < Z(n)) for (_, n), c in zip(ks, t)]
            inst = z3.substitute(body, *sub)
            out.append(z3.Implies(z3.And(*rng), inst <= r["S"]))
    return out

# ------------------------------------------------------------------ canonical form
_OPS = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)
_CMP = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_EQ: lambda a, b: a == b}
def _pull(z):
    """integer term equal to a real term, or None"""
    if z.is_int(): return z
    if z3.is_rational_value(z): return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_TO_REAL: return z.arg(0)
    return None
def _linear(z):
    """[(rational, integer term or None for 1)] with sum equal to z, or None"""
    if z3.is_rational_value(z): return [(Fraction(z.numerator_as_long(), z.denominator_as_long()), None)]
    p = _pull(z)
    if p is not None: return [(Fraction(1), p)]
    if not z3.is_app(z): return None
    k = z.decl().kind()
    if k == z3.Z3_OP_ADD:
        out = []
        for c in z.children():
            l = _linear(c)
            if l is None: return None
            out += l
        return out
    if k == z3.Z3_OP_MUL and z.num_args() == 2 and z3.is_rational_value(z.arg(0)):
        l = _linear(z.arg(1)); q = Fraction(z.arg(0).numerator_as_long(), z.arg(0).denominator_as_long())
        return None if l is None else [(q * a, t) for a, t in l]
    return None
def canon(z):
    """same value: integer subterms computed in integers, powers of two without constant offsets, products distributed over sums"""
    cache = CTX.once.setdefault("canon", {})
    def go(z):
        k = z.get_id()
        if k in cache: return cache[k][1]
        r = z
        if z3.is_app(z) and z.num_args():
            cs = [go(c) for c in z.children()]
            r = z.decl()(*cs) if z.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR) else \
                {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[z.decl().kind()](*cs)
            op = z.decl().kind()
            if op == z3.Z3_OP_ITE and z3.is_arith(r) and r.is_real():
                a, b = _pull(cs[1]), _pull(cs[2])
                if a is not None and b is not None: r = z3.ToReal(z3.If(cs[0], a, b))
            elif op in _OPS and r.is_real():
                ps = [_pull(c) for c in cs]
                if all(p is not None for p in ps):
                    r = z3.ToReal({z3.Z3_OP_ADD: lambda: z3.Sum(*ps), z3.Z3_OP_MUL: lambda: z3.Product(*ps), z3.Z3_OP_SUB: lambda: ps[0] - ps[1], z3.Z3_OP_UMINUS: lambda: -ps[0]}[op]())
            elif op in _CMP and z3.is_arith(cs[0]) and cs[0].is_real():
                ps = [_pull(c) for c in cs]
                if all(p is not None for p in ps): r = _CMP[op](*ps)
            elif op == z3.Z3_OP_TO_INT:
                l = _linear(z3.simplify(cs[0]))
                if l is not None:
                    q = 1
                    for a, _ in l: q = q * a.denominator // __import__("math").gcd(q, a.denominator)
                    s = z3.Sum([z3.IntVal(int(a * q)) * (t if t is not None else z3.IntVal(1)) for a, t in l])
                    r = s / z3.IntVal(q) if q > 1 else s
            elif z.decl().eq(sym.POW2R):
                e = z3.simplify(cs[0])
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and z3.is_rational_value(e.arg(0)) and e.arg(0).denominator_as_long() == 1:
                    c = e.arg(0).numerator_as_long(); rest = z3.simplify(e - e.arg(0))
                    t = sym.POW2R(rest); CTX.reg_pow2r(rest, t)
                    r = z3.RealVal(Fraction(2) ** c) * t
            elif op == z3.Z3_OP_DIV and r.is_real() and z3.is_app(cs[1]):
                # a division by (numeral * term) is a division by the term
                d = z3.simplify(cs[1])
                if d.decl().kind() == z3.Z3_OP_MUL and d.num_args() == 2 and z3.is_rational_value(d.arg(0)):
                    r = z3.simplify(cs[0] / d.arg(0)) / d.arg(1)
            r = z3.simplify(r, som=True)
        cache[k] = (z, r)
        return r
    r = go(z)
    for _ in range(3):
        n = go(r)
        if n.eq(r): break
        r = n
    return r
