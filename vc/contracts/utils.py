import math, z3
from .common import *
from .stream import lanes
from .kernel import isb

def two(v): return v if isinstance(v, tuple) else (v, v)
def flat(x):
    out = []
    for v in x: out += flat(v) if isinstance(v, (tuple, list)) else [v]
    return out
class ShapeFn(Unit):
    """sizes are integers, strides at least one; everything symbolic"""
    kind = "function"
    stateful = False
    props = ("C24",)
    cfgs = [dict(form="int"), dict(form="tuple"), dict(form="mixed"), dict(form="default")]
    outnames = ("height", "width", "height 2", "width 2")
    def num(self, E, n, lo=None): return E.int(n, lo, None, cap=9) if lo is not None else E.int(n, None, 8)
    def val(self, E, c, n, lo=None):
        f = c["form"]
        one = f == "int" or (f == "mixed" and n in ("stride", "dilation", "h_w"))
        if one: return self.num(E, n, lo)
        return (self.num(E, n + "_h", lo), self.num(E, n + "_w", lo))
    def pads(self, E, c):
        f = c["form"]
        if f == "int": return self.num(E, "pad", 0)
        if f == "tuple": return (self.num(E, "pad_h", 0), self.num(E, "pad_w", 0))
        return ((self.num(E, "pt", 0), self.num(E, "pb", 0)), (self.num(E, "pl", 0), self.num(E, "pr", 0)))
    def call(self, obj, ins): return flat(obj())

@register
class Conv2dOutputShape(ShapeFn):
    path = "kernel.utils.conv2d_output_shape"
    def args(self, E, c):
        if c["form"] == "default": return (self.num(E, "h_w", 1), self.num(E, "kernel", 1)), {}
        return (self.val(E, c, "h_w", 1), self.val(E, c, "kernel", 1), self.val(E, c, "stride", 1), self.pads(E, c), self.val(E, c, "dilation", 1)), {}
    def parse(self, h_w, kernel_size=1, stride=1, pad=0, dilation=1): return NS(h=two(h_w), k=two(kernel_size), s=two(stride), p=tuple(two(x) for x in two(pad)), d=two(dilation))
    def pre(self, P): return [("strides are positive", andv(*[le(1, x) for x in P.s]))]
    def sizes(self, P):
        return [floor(add(divr(sub(sub(add(P.h[a], add(*P.p[a])), mul(P.d[a], sub(P.k[a], 1))), 1), P.s[a]), 1)) for a in (0, 1)]
    def step(self, P, st, ins): return [(const(v), None) for v in self.sizes(P)], st
    def result(self, P): return tuple(self.sizes(P))

@register
class ConvT2dOutputShape(ShapeFn):
    path = "kernel.utils.convtransp2d_output_shape"
    def args(self, E, c):
        if c["form"] == "default": return (self.num(E, "h_w", 1), self.num(E, "kernel", 1)), {}
        return (self.val(E, c, "h_w", 1), self.val(E, c, "kernel", 1), self.val(E, c, "stride", 1), self.pads(E, c), self.val(E, c, "dilation", 1), self.val(E, c, "out_pad", 0)), {}
    def parse(self, h_w, kernel_size=1, stride=1, pad=0, dilation=1, out_pad=0):
        return NS(h=two(h_w), k=two(kernel_size), s=two(stride), p=tuple(two(x) for x in two(pad)), d=two(dilation), o=two(out_pad))
    def step(self, P, st, ins):
        v = [add(add(sub(mul(sub(P.h[a], 1), P.s[a]), add(*P.p[a])), mul(P.d[a], sub(P.k[a], 1))), add(P.o[a], 1)) for a in (0, 1)]
        return [(const(x), None) for x in v], st

class PadFn(ShapeFn):
    """a split of the total padding (floor half, ceil half) whose sizes come back when fed to the size function"""
    forward = None
    extra = ()
    outnames = ("top", "bottom", "left", "right", "height from the padding", "width from the padding", "padding is ints")
    def args(self, E, c):
        hi, ho = self.val(E, c, "h_w_in", 1), self.val(E, c, "h_w_out", 1)
        if c["form"] == "default": return (hi, ho, self.num(E, "kernel", 1)), {}
        return (hi, ho, self.val(E, c, "kernel", 1), self.val(E, c, "stride", 1), self.val(E, c, "dilation", 1)) + tuple(self.val(E, c, x, 0) for x in self.extra), {}
    def make(self, target, args, kw, name):
        f = name(self.forward)
        def g():
            p = target(*args, **kw)
            if not (isinstance(p, tuple) and len(p) == 2 and all(isinstance(x, tuple) and len(x) == 2 for x in p)): raise TypeError("padding is not a pair of pairs: %r" % (p,))
            a = list(args) + [1] * (5 - len(args)) if len(args) < 5 else list(args)
            return list(p) + list(f(a[0], a[2], a[3], p, *a[4:]))
        return g
    def step(self, P, st, ins):
        out = []
        for a in (0, 1):
            t = self.total(P, a); out += [floor(divr(t, 2)), sub(0, floor(divr(sub(0, t), 2)))]
        return [(const(v), None) for v in out + list(P.ho)], st
    def pre(self, P): return [("strides are positive", andv(*[le(1, x) for x in P.s]))]

@register
class Conv2dGetPadding(PadFn):
    path = "kernel.utils.conv2d_get_padding"
    forward = "kernel.utils.conv2d_output_shape"
    def parse(self, hi, ho, kernel_size=1, stride=1, dilation=1): return NS(hi=two(hi), ho=two(ho), k=two(kernel_size), s=two(stride), d=two(dilation))
    def total(self, P, a): return add(sub(mul(sub(P.ho[a], 1), P.s[a]), P.hi[a]), add(mul(P.d[a], sub(P.k[a], 1)), 1))

@register
class ConvT2dGetPadding(PadFn):
    path = "kernel.utils.convtransp2d_get_padding"
    forward = "kernel.utils.convtransp2d_output_shape"
    extra = ("out_pad",)
    def parse(self, hi, ho, kernel_size=1, stride=1, dilation=1, out_pad=0): return NS(hi=two(hi), ho=two(ho), k=two(kernel_size), s=two(stride), d=two(dilation), o=two(out_pad))
    def total(self, P, a): return sub(add(add(mul(sub(P.hi[a], 1), P.s[a]), mul(P.d[a], sub(P.k[a], 1))), add(P.o[a], 1)), P.ho[a])

# ------------------------------------------------------------------ fixed-point rounding
_FIX = z3.Function("fixed", z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
def fixed(x, i, f):
    """x rounded to i integer and f fraction bits, as callers of Round see it: a function of x, i and f that keeps
    what is already rounded, and its negation (postconditions of Round)"""
    if native(x, i, f) or ENV().concrete: return fixed_(x, i, f)
    zi, zf = z3.simplify(Z(i, "r")), z3.simplify(Z(f, "r"))
    def known(z, d=0):
        if z3.is_app(z) and z.decl().eq(_FIX): return z.arg(1).eq(zi) and z.arg(2).eq(zf)
        if z3.is_mul(z) and z.num_args() == 2 and z3.is_rational_value(z.arg(0)) and z.arg(0).as_fraction() in (1, -1): return known(z.arg(1), d + 1)
        if z3.is_rational_value(z): return z.as_fraction() == 0
        return d < 6 and z3.is_app_of(z, z3.Z3_OP_ITE) and known(z.arg(1), d + 1) and known(z.arg(2), d + 1)
    zx = z3.simplify(Z(x, "r"))
    if known(zx): return x
    CTX.inexact.append("rounding seen through the contract of Round")
    return S(_FIX(zx, zi, zf))
def fixed_(x, i, f):
    m = sub(pow2(add(i, f)), 1)
    return divr(clampv(rnd(mul(x, pow2(f))), sub(0, m), m), pow2(f))

@register
class Round(Unit):
    path = "kernel.utils.Round"
    props = ("C23",)
    cycles = (3, 8)
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(type="double"), dict(none=True), dict(param=True), dict(default=True)]
    def args(self, E, c):
        if c.get("default"): return (), {}
        return (E.int("intwidth", 0, None, cap=5), E.int("fracwidth", 0, None, cap=5)), {}
    def parse(self, intwidth=3, fracwidth=4): return NS(i=intwidth, f=fracwidth)
    def inputs(self, E, P, c, t=0):
        if c.get("none"): return [None]
        x = E.reals("x", E.dims(*lanes(c)), *((-70, 70) if E.concrete and E.rnd.random() < 0.3 else (-6, 6) if E.concrete else ()), den=E.rnd.choice([1, 4, 32, 128]) if E.concrete else 1)
        P.dt = getattr(E.torch, c.get("type", "float"))
        return [(E.param if c.get("param") else E.tensor)(x, P.dt)]
    def call(self, obj, ins):
        r = obj(*ins)
        if ins[0] is None:
            if r is not None: raise ValueError("a missing input gives %r" % (r,))
            return []
        return r
    def step(self, P, st, ins):
        if ins[0] is None: return [], st
        return [(ins[0].map(lambda x: (fixed_ if "dt" in P else fixed)(x, P.i, P.f)), pk(P, "dt", TT().float))], st
    def post(self, P, st, ins, outs, nst):
        if not outs: return []
        x, o = ins[0], outs[0]; m = divr(sub(pow2(add(P.i, P.f)), 1), pow2(P.f))
        r = [("magnitude within the range", o.dims, lambda i: le(absv(o.at(i)), m)),
             ("a multiple of the step", o.dims, lambda i: eq(mul(o.at(i), pow2(P.f)), floor(mul(o.at(i), pow2(P.f))))),
             ("the nearest multiple within range", o.dims, lambda i: implies(le(absv(x.at(i)), m), le(mul(2, absv(sub(mul(o.at(i), pow2(P.f)), mul(x.at(i), pow2(P.f))))), 1))),
             ("out of range: the limit of the same sign", o.dims, lambda i: implies(lt(m, absv(x.at(i))), eq(o.at(i), ite(lt(0, x.at(i)), m, sub(0, m))))),
             ("idempotent", o.dims, lambda i: eq(fixed_(o.at(i), P.i, P.f), o.at(i))),
             ("zero stays", (), lambda i: eq(fixed_(0, P.i, P.f), 0))]
        return r

@register
class RoundOrder(Unit):
    """lemma: fixed-point rounding is monotone"""
    path = "kernel.utils.Round"
    props = ("C23",)
    name = "Round.order"
    def custom(self, u, cfg, r, extra, new):
        x, y, p, m = CTX.real("x"), CTX.real("y"), CTX.int("p", 1), CTX.int("m", 0)
        CTX.assume(le(x, y))
        a, b = CTX.real("a"), CTX.real("b")
        CTX.prove(le(mul(x, p), mul(y, p)), "scaling preserves order", "lemma")
        CTX.assume(le(a, b))
        ra, rb = rnd(a), rnd(b)
        CTX.prove(le(ra, rb), "rounding preserves order", "lemma")
        k, l = CTX.int("kk"), CTX.int("ll"); CTX.assume(le(k, l))
        ck, cl = clampv(k, sub(0, m), m), clampv(l, sub(0, m), m)
        CTX.prove(le(ck, cl), "clamping preserves order", "lemma")
        c, d = CTX.int("c"), CTX.int("d"); CTX.assume(le(c, d))
        CTX.prove(le(divr(c, p), divr(d, p)), "unscaling preserves order", "lemma")
        # and odd
        CTX.prove(eq(mul(sub(0, x), p), sub(0, mul(x, p))), "scaling is odd", "lemma")
        CTX.prove(eq(rnd(sub(0, a)), sub(0, ra)), "rounding is odd", "lemma")
        CTX.prove(eq(clampv(sub(0, k), sub(0, m), m), sub(0, ck)), "clamping is odd", "lemma")
        CTX.prove(eq(divr(sub(0, c), p), sub(0, divr(c, p))), "unscaling is odd", "lemma")

@register
class RoundSTEGrad(Unit):
    """the straight-through gradient"""
    path = "kernel.utils.RoundSTE"
    props = ("C22", "C23")
    kind = "function"
    stateful = False
    outnames = ("input gradient",)
    cfgs = [dict(), dict(rank=4)]
    def make(self, target, args, kw, name): return target
    def inputs(self, E, P, c, t=0):
        d = E.dims(*lanes(c))
        return [E.tensor(E.reals("x", d), E.torch.float), E.tensor(E.reals("g", d), E.torch.float), E.int("frac", 0, None, cap=6), E.int("m", 1, None, cap=60)]
    def call(self, obj, ins):
        x, g, f, m = ins
        if ENV().concrete:
            x = x.clone().requires_grad_(True)
            obj.apply(x, f, -m, m).backward(g)
            return [x.grad]
        from ..storch import Function, FnCtx
        ctx = FnCtx(); obj.forward(ctx, x, f, sub(0, m), m)
        r = obj.backward(ctx, g)
        if len(r) != 4 or any(v is not None for v in r[1:]): raise ValueError("gradients for configuration arguments")
        return [r[0]]
    def step(self, P, st, ins): return [(ins[1], TT().float)], st

# ------------------------------------------------------------------ weight clipper
class Mod: pass
@register
class WeightClipper(Unit):
    path = "kernel.utils.NN_SC_Weight_Clipper"
    props = ("C25",)
    state = {"freq": "frequency"}
    pyscalar = ("freq",)
    sorts = {"freq": ("i",)}
    free = ("method",)
    cycles = (3, 6)
    cfgs = [dict(mode=m, parts=p) for m in ("unipolar", "bipolar") for p in ("wb", "w", "b", "wNone")] + [dict(mode="bipolar", parts="wb", method="norm"), dict(mode="unipolar", parts="wb", rank=4), dict(mode="bipolar", parts=""), dict(mode="bipolar", parts="None")]
    outnames = ("weight or bias", "bias")
    assumes = ("the tensor clipped in 'norm' fashion has at least two distinct values (otherwise its range is empty)",)
    def args(self, E, c):
        k = {"frequency": E.int("frequency", None, None) if not E.concrete else E.rnd.choice([1, 1, 1, 2, 5, 0]), "mode": c["mode"], "bitwidth": E.int("bitwidth", 1, None, cap=8)}
        if "method" in c: k["method"] = c["method"]
        return (), k
    def parse(self, frequency=1, mode="bipolar", method="clip", bitwidth=8): return NS(freq=frequency, mode=mode, bw=bitwidth, s=pow2(bitwidth) if mode == "unipolar" else divr(pow2(bitwidth), 2))
    def init(self, P): return {"freq": const(P.freq)}
    def inputs(self, E, P, c, t=0):
        nn = E.torch.nn; m = nn.Module()
        P.parts = self.cur = []
        lo = E.rnd.choice([-1, -3, 0]) if E.concrete else None
        hi = E.rnd.choice([1, 2]) if E.concrete else None
        distinct = (lambda n, d: E.reals(n, d, lo, hi, den=E.rnd.choice([7, 16, 64]) if E.concrete else 1))
        w = distinct("w", E.dims(*("ABCD"[:c.get("rank", 2)]))); b = distinct("b", E.dims("N"))
        for n, a, ch in (("weight", w, "w"), ("bias", b, "b")):
            if ch in c["parts"].replace("None", ""):
                p = E.torch.nn.Parameter(E.tensor(a, E.torch.float), requires_grad=not E.concrete and False)
                setattr(m, n, p)
                P.parts.append((n, E.of(p)))
            elif "None" in c["parts"]: setattr(m, n, None)
        if E.concrete:
            for n, a in P.parts:
                a.force()
                v = [a.fn(i) for i in itertools.product(*[range(d) for d in a.dims])]
                if min(v) == max(v): raise Infeasible()
        else:
            from ..storch import QUANT
            for n, a in P.parts: E.assume(lt(QUANT.get(AT(a), 0), QUANT.get(AT(a), 1)))
        return [m]
    def call(self, obj, ins):
        m = ins[0]
        obj(m)
        for n, _ in [(x, 0) for x in ("weight", "bias")]:
            if n not in dict(self.cur) and getattr(m, n, None) is not None: raise ValueError("the clipper created %s" % n)
        return [getattr(m, n) for n, _ in self.cur]
    def step(self, P, st, ins):
        f = st["freq"].at(()); out = []
        s = P.s
        lo = 0 if P.mode == "unipolar" else -1
        for n, a in P.parts:
            mn, mx = quant(AT(a), 0), quant(AT(a), 1)
            def v(i, a=a, mn=mn, mx=mx):
                x = a.at(i)
                u = divr(sub(x, mn), sub(mx, mn))
                if lo: u = sub(mul(2, u), 1)
                y = ite(le(f, 1), u, clampv(x, lo, 1))
                return divr(clampv(rnd(mul(y, s)), mul(lo, s), s), s)
            out.append((A(a.dims, v), TT().float))
        return out, {"freq": const(add(f, 1))}
    def post(self, P, st, ins, outs, nst):
        s = P.s; lo = 0 if P.mode == "unipolar" else -1
        if ENV().concrete:
            return [(n + " in range on the grid", o.dims, (lambda o: lambda i: andv(le(lo, o.at(i)), le(o.at(i), 1), eq(mul(o.at(i), s), floor(mul(o.at(i), s)))))(o)) for (n, _), o in zip(P.parts, outs)]
        # every result is clampv(rnd(x), lo*s, s)/s for some real x (proved above): it lies on the grid because s is an integer
        k = s if P.mode == "unipolar" else pow2(sub(P.bw, 1))
        x = CTX.real("any"); q = clampv(rnd(x), mul(lo, k), k)
        return [("the step is 2 to an integer power", (), lambda i: andv(eq(s, k), le(1, k))),
                ("result in range on the grid", (), lambda i: andv(eq(q, floor(q)), le(mul(lo, k), q), le(q, k)))]
def AT(a): return a

@register
class WeightClipperReject(Unit):
    path = "kernel.utils.NN_SC_Weight_Clipper"
    props = ("C25",)
    name = "NN_SC_Weight_Clipper.reject"
    cfgs = [dict(mode="Bipolar2"), dict(mode="")]
    def go(self, cls, m):
        try: cls(**m["k"])(m["m"])
        except TypeError: return True
        return False
    def custom(self, u, cfg, r, extra, new):
        from ..prove import load
        from ..storch import torch
        L = load(self, r.stubs); cls = L.name(self.path); r.sources |= set(L.sources)
        m = torch.nn.Linear(CTX.int("i", 1), CTX.int("o", 1))
        m.weight.requires_grad = m.bias.requires_grad = False
        CTX.prove(self.go(cls, {"k": dict(frequency=CTX.int("frequency"), mode=cfg["mode"], bitwidth=8), "m": m}), "unknown mode rejected", "post")
    def concrete_check(self, E, cls, cfg):
        for f in (1, 2, 7):
            if not self.go(cls, {"k": dict(frequency=f, mode=cfg["mode"], bitwidth=8), "m": E.torch.nn.Linear(3, 2)}): return "mode %r accepted" % cfg["mode"]

# ------------------------------------------------------------------ truncated normal
@register
class TruncatedNormal(Unit):
    path = "kernel.utils.truncated_normal"
    props = ("C26",)
    kind = "function"
    stateful = False
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(default=True)]
    assumes = ("partial correctness: truncated_normal is shown correct when it returns; termination is probabilistic",)
    outnames = ("sample",)
    def args(self, E, c):
        t = E.tensor(E.reals("t", E.dims(*("ABCD"[:c.get("rank", 2)]))), E.torch.float)
        if c.get("default"): return (t,), {}
        return (t,), {"mean": E.scalar(E.real("mean", *((-2, 2) if E.concrete else ()), den=4)), "std": E.scalar(E.real("std", Fraction(1, 4) if E.concrete else 0, 2 if E.concrete else None, den=4))}
    def parse(self, t, mean=0, std=norm(0.01)):
        return NS(t=t, mean=norm(mean) if native(mean) else mean, std=norm(std) if native(std) else std, dims=tuple(t.shape) if ENV().concrete else t.dims)
    def make(self, target, args, kw, name):
        return lambda: target(args[0].clone(), *args[1:], **kw)
    def call(self, obj, ins):
        if not ENV().concrete: r = obj()
        else:
            E = ENV(); t = E.torch; init = t.nn.init; old = init.normal_; rounds = E.rnd.choice([0, 0, 1, 3, 40, 300]); n = [0]
            def bad(x, mean=0.0, std=1.0, **k):
                n[0] += 1
                with t.no_grad():
                    x.copy_(t.empty_like(x).uniform_(-1.99, 1.99) * std + mean)
                    if n[0] <= rounds: x.reshape(-1)[E.rnd.randrange(x.numel())] = mean + E.rnd.choice([-2.5, 2.5, 40.0, -2.05, 2.05]) * std
                return x
            init.normal_ = bad
            try: r = obj()
            finally: init.normal_ = old
        self.res = r
        return [r]
    def step(self, P, st, ins):
        r = self.res
        return [(ENV().of(r), TT().float)], st
    def bound(self, P, v): return andv(le(sub(P.mean, mul(2, P.std)), v), le(v, add(P.mean, mul(2, P.std))))
    def post(self, P, st, ins, outs, nst):
        return [("requested shape", (), lambda i: len(outs[0].dims) == len(P.dims) and andv(*[eq(dz(a), dz(b)) for a, b in zip(outs[0].dims, P.dims)])),
                ("every element within two standard deviations of the mean", outs[0].dims, lambda i: self.bound(P, outs[0].at(i)))]
    def expect(self, P, t, arrs, outs, eo, st):
        o = outs[0]
        if tuple(o.shape) != tuple(P.dims): return "shape %s for a tensor of shape %s" % (tuple(o.shape), tuple(P.dims))
        e = 1e-4
        lo, hi = float(P.mean) - 2 * float(P.std) - e, float(P.mean) + 2 * float(P.std) + e
        if bool((o < lo).any()) or bool((o > hi).any()): return "element outside two standard deviations: %s for mean %s, std %s" % (o.reshape(-1).tolist()[:12], P.mean, P.std)
    def result(self, P):
        from ..tensor import mk, iscal
        f = CTX.uf("truncnorm", len(P.dims), "r", sub(P.mean, mul(2, P.std)), add(P.mean, mul(2, P.std)))
        return mk(P.dims, lambda i: f([iscal(x) for x in i]), P.t.dtype)
def dz(d):
    if ENV().concrete: return d
    from ..tensor import dsize
    return dsize(d)

# ------------------------------------------------------------------ shift offsets
def log2r(x, mode):
    """rounded log2 of x > 0"""
    if ENV().concrete and native(x):
        x = Fraction(x)
        if mode not in ("round", "floor", "ceil"): return Fraction(math.log2(x))
        f = 0
        while Fraction(2) ** f > x: f -= 1
        while Fraction(2) ** (f + 1) <= x: f += 1
        if mode == "floor": return f
        if mode == "ceil": return f if Fraction(2) ** f == x else f + 1
        return f if x * x < Fraction(2) ** (2 * f + 1) else f + 1
    from ..storch import log2v
    l = log2v(x)
    return {"round": rnd, "floor": floor, "ceil": lambda v: sub(0, floor(sub(0, v)))}.get(mode, lambda v: v)(l)

def bounds_of(a, q):
    """magnitude of the larger quantile bound of a for quantile q"""
    h = divr(q, 2)
    return maxv(absv(quant(a, sub(Fraction(1, 2), h))), absv(quant(a, add(Fraction(1, 2), h))))

@register
class RshiftOffset(Unit):
    path = "kernel.utils.rshift_offset"
    props = ("C33",)
    kind = "function"
    stateful = False
    tol = 1e-4
    cfgs = [dict(r="round"), dict(r="floor"), dict(r="ceil"), dict(r="ceil", rank=4), dict(r="default", rank=1)]
    outnames = ("input shift", "weight shift", "output shift")
    assumes = ("the larger quantile bound of each operand is nonzero (its log2 exists)",)
    def args(self, E, c):
        r = c.get("rank", 2); den = E.rnd.choice([1, 16, 64]) if E.concrete else 1
        x = E.reals("input", E.dims(*("ABCD"[:r])), den=den); w = E.reals("weight", E.dims(*("EFGH"[:r])), den=den)
        if E.concrete and (all(v == 0 for v in vals(x)) or all(v == 0 for v in vals(w))): raise Infeasible()
        a = (E.tensor(x, E.torch.float), E.tensor(w, E.torch.float), E.int("widthi", 1, None, cap=8), E.int("widthw", 1, None, cap=8))
        if c["r"] == "default": return a, {}
        q = lambda n: E.scalar(E.real(n, Fraction(1, 8) if E.concrete else 0, 1, den=8))
        qi, qw = q("qi"), q("qw")
        if not E.concrete: E.assume(andv(lt(0, qi), lt(0, qw)))
        return a, {"rounding": c["r"], "quantilei": qi, "quantilew": qw}
    def parse(self, input, weight, widthi, widthw, rounding="round", quantilei=1, quantilew=1):
        E = ENV(); n = lambda v: norm(v) if native(v) else v
        x, w = E.of(input), E.of(weight)
        return NS(x=x, w=w, wi=widthi, ww=widthw, r=rounding, qi=n(quantilei), qw=n(quantilew), mi=bounds_of(x, n(quantilei)), mw=bounds_of(w, n(quantilew)))
    def pre(self, P): return [("quantile bounds are not both zero", andv(lt(0, P.mi), lt(0, P.mw)))]
    def shifts(self, P):
        li, lw = log2r(P.mi, P.r), log2r(P.mw, P.r)
        return [sub(li, P.wi), sub(lw, P.ww), sub(sub(maxv(P.wi, P.ww), li), lw)]
    def step(self, P, st, ins): return [(const(v), TT().float) for v in self.shifts(P)], st
    def post(self, P, st, ins, outs, nst):
        if P.r != "ceil" or ENV().concrete: return []
        def cover(m, w, s):
            c = log2r(m, "ceil"); pow2(c); pow2(w)
            return le(divr(m, pow2(s)), pow2(w))
        return [("rounding up: the bound fits the input width", (), lambda i: cover(P.mi, P.wi, outs[0].at(()))),
                ("rounding up: the bound fits the weight width", (), lambda i: cover(P.mw, P.ww, outs[1].at(())))]
    def result(self, P):
        from ..tensor import tensor_scalar
        return tuple(tensor_scalar(v, TT().float) for v in self.shifts(P))
def vals(a): return [a.at(i) for i in itertools.product(*[range(d) for d in a.dims])]
