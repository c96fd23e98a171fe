from .common import *
from .stream import lanes

def isb(x): return lambda i: orv(eq(x.at(i), 0), eq(x.at(i), 1))
def bits_req(names, ins): return [(n + " is a bit", x.dims, isb(x)) for n, x in zip(names, ins)]
def T2(E, c): return getattr(E.torch, c.get("btype", "float")), getattr(E.torch, c.get("stype", "float"))
def sw(swcfg, *ks): return tuple((swcfg or {k: TT().float for k in ks})[k] for k in ks)

@register
class FSUAdd(Unit):
    path = "kernel.add.FSUAdd"
    props = ("C07",)
    cfgs = [dict(mode="unipolar"), dict(mode="Bipolar"), dict(mode="bipolar", scale=True, entry=True), dict(mode="unipolar", scale=True, dima=1),
            dict(mode="bipolar", rt=True), dict(mode="bipolar", rt=True, scale=True, entry=True), dict(mode="unipolar", dima=-1, rank=3), dict(mode="bipolar", rank=1, dima=0),
            dict(mode="bipolar", rank=4, dima=2, stype="int8"), dict(mode="unipolar", scale=True, btype="int8", stype="int8"), dict(mode="bipolar", rt="entry"), dict(mode="bipolar", rt="scale")]
    state = {"acc": "accumulator", "scale": "scale_carry", "offset": "offset", "first": "first"}
    pyscalar = ("first",)
    outnames = ("sum bit",)
    @staticmethod
    def lim(P): return pow2(sub(P.depth, 2))
    sorts = {"acc": ("r", lambda P: sub(0, pow2(sub(P.depth, 2))), lambda P: pow2(sub(P.depth, 2))), "scale": ("r",), "offset": ("r",), "first": ("b",)}
    def inv(self, P, st, i, nm):
        if nm == "first": return notv(truth(st["first"].at(())))
        if nm == "scale": return lt(0, st["scale"].at(i))
        if nm == "offset" and P.mode == "unipolar": return eq(st["offset"].at(i), 0)
        return True
    def args(self, E, c):
        half = lambda n: E.scalar(E.real(n, Fraction(1, 2), 8, den=2)) if E.concrete else self._pos(n)
        return ({"mode": c["mode"], "scale": half("scale") if c.get("scale") else None, "dima": c.get("dima", 0), "depth": E.int("depth", 2, None, cap=8),
                 "entry": E.int("entry", 1, None, cap=6) if c.get("entry") else None}, {"btype": T2(E, c)[0], "stype": T2(E, c)[1]}), {}
    def _pos(self, n):
        v = CTX.real(n); CTX.assume(lt(0, v)); return v
    def parse(self, hwcfg=None, swcfg=None):
        hwcfg = hwcfg or {"mode": "bipolar", "scale": None, "dima": 0, "depth": 10, "entry": None}
        b, s = sw(swcfg, "btype", "stype")
        return NS(mode=hwcfg["mode"].lower(), scale=hwcfg["scale"], dima=hwcfg["dima"], depth=hwcfg["depth"], entry=hwcfg["entry"], btype=b, stype=s)
    def init(self, P): return {"acc": const(0, (1,)), "scale": const(1, (1,)), "offset": const(0, (1,)), "first": const(True)}
    def bind(self, input, scale=None, entry=None): return [input, scale, entry]
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        r = [E.tensor(E.ints("input", P.dims, 0, None if not E.concrete else 1), E.torch.float if c.get("stype") != "int8" else E.torch.int8)]
        if c.get("stype") == "int8" and not E.concrete: r = [E.tensor(E.bits("input", P.dims), E.torch.int8)]
        if c.get("rt") in (True, "scale", "entry"):
            r.append((E.scalar(E.real("rscale", Fraction(1, 2), 8, den=2)) if E.concrete else self._pos("rscale")) if c["rt"] != "entry" else None)
            if c["rt"] != "scale": r.append(E.int("rentry", 1, None, cap=6))
        return r
    def call(self, obj, ins): return obj(*ins)
    def red(self, P, x):
        d = P.dima % len(x.dims); n = x.dims[d]
        from ..tensor import dsize, _sum_over
        if ENV().concrete: f = lambda i: Sum(n, lambda k: x.at(i[:d] + (k,) + i[d:]))
        else: f = lambda i: _sum_over([n], lambda ix: x.at(i[:d] + (ix[0],) + i[d:]))
        return A(x.dims[:d] + x.dims[d + 1:], f), (n if ENV().concrete else dsize(n))
    def step(self, P, st, ins):
        x, rs, re = (list(ins) + [None, None])[:3]
        tot, n = self.red(P, x)
        f = truth(st["first"].at(()))
        val = lambda v: v if v is None or not isinstance(v, A) else v.at((0,) * len(v.dims))
        rs, re = val(rs), val(re)
        entry = re if re is not None else (P.entry if P.entry is not None else n)
        scale = rs if rs is not None else (P.scale if P.scale is not None else entry)
        S = A((1,), lambda i: ite(f, nrm(scale), st["scale"].at((0,))))
        O = A((1,), lambda i: ite(f, divr(sub(nrm(entry), S.at((0,))), 2) if P.mode == "bipolar" else st["offset"].at((0,)), st["offset"].at((0,))))
        m = self.lim(P)
        dims = bsh(tot.dims, (1,))
        s, o = S.at((0,)), O.at((0,))
        a = A(dims, lambda i: clampv(add(st["acc"].bat(i), sub(tot.bat(i), o)), sub(0, m), m))
        out = A(dims, lambda i: bit(le(s, a.at(i))))
        acc = A(dims, lambda i: clampv(sub(a.at(i), mul(s, out.at(i))), sub(0, m), m))
        P.total, P.s, P.o = tot, s, o
        return [(out, P.stype)], {"acc": acc, "scale": S, "offset": O, "first": const(False)}
    def post(self, P, st, ins, outs, nst):
        m = self.lim(P); acc, o = st["acc"], outs[0]
        raw = lambda i: add(acc.bat(i), sub(P.total.bat(i), P.o))
        s = P.s
        return [("without saturation: scale*output + accumulator' = accumulator + added", o.dims, lambda i: implies(andv(le(sub(0, m), raw(i)), le(raw(i), m), le(s, m)),
                    implies(le(sub(s, m), m), eq(add(mul(s, o.at(i)), nst["acc"].at(i)), ite(eq(o.at(i), 1), maxv(raw(i), sub(s, m)), raw(i))))))]

def nrm(v): return norm(v) if native(v) else v

@register
class FSUAddScaled(Unit):
    """lemma: in scaled mode the adder has emitted exactly floor(total / entries) ones"""
    path = "kernel.add.FSUAdd"
    props = ("C07",)
    name = "FSUAdd.scaled"
    def custom(self, u, cfg, r, extra, new):
        e, d, dep = CTX.int("entries", 1), CTX.int("ones", 0), CTX.int("depth", 2)
        m = pow2(sub(dep, 2)); CTX.assume(le(sub(mul(2, e), 1), m)); CTX.assume(le(d, e))
        A_ = REG["FSUAdd"]
        for mode in ("unipolar", "bipolar"):
            acc = CTX.int("acc", 0); CTX.assume(lt(acc, e))
            P = NS(mode=mode, scale=None, entry=None, dima=0, depth=dep, stype=None, btype=None)
            st = {"acc": const(acc, (1,)), "scale": const(e, (1,)), "offset": const(0, (1,)), "first": const(False)}
            P2 = A((1,), lambda i: d)
            outs, nst = A_.step(P, st, [A((1, 1), lambda i: d)])
            o, a = outs[0][0].at((0,)), nst["acc"].at((0,))
            CTX.prove(andv(eq(add(mul(e, o), a), add(acc, d)), le(0, a), lt(a, e)), mode + ": entries*output + remainder' = remainder + ones, remainder in [0, entries)", "lemma")

@register
class ShiftReg(Unit):
    path = "kernel.shiftreg.ShiftReg"
    props = ("C10",)
    cfgs = [dict(), dict(mask=True), dict(index=True), dict(mask=True, index=True, rank=1), dict(rank=4), dict(stype="int8"), dict(stype="int8", mask=True, index=True), dict(index="tensor")]
    state = {"sr": "sr", "first": "first"}
    pyscalar = ("first",)
    sorts = {"sr": ("i", 0, 1), "first": ("b",)}
    outnames = ("stored value", "count")
    dtypes = {}
    def inv(self, P, st, i, nm):
        return notv(truth(st["first"].at(()))) if nm == "first" else True
    def args(self, E, c):
        return ({"entry": E.int("entry", 1, None, cap=5)}, {"stype": T2(E, c)[1]}), {}
    def pre(self, P): return [("entry >= 1", le(1, P.n))]
    def parse(self, hwcfg=None, swcfg=None):
        return NS(n=(hwcfg or {"entry": 8})["entry"], stype=sw(swcfg, "stype")[0])
    def init(self, P): return {"sr": A((P.n,), lambda i: mod(i[0], 2)), "first": const(True)}
    def bind(self, input, mask=None, index=0): return [input, mask, index]
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        r = [E.tensor(E.bits("input", P.dims), P.stype), E.tensor(E.bits("mask", P.dims), P.stype) if c.get("mask") else None]
        ix = 0
        if c.get("index"):
            ix = E.int("index", 0, sub(P.n, 1) if E.concrete else None)
            if not E.concrete: CTX.assume(lt(ix, P.n))
            if c["index"] == "tensor": ix = E.tensor(const(ix), E.torch.long)
        return r + [ix]
    def requires(self, P, ins):
        x, mk, ix = (list(ins) + [None, 0])[:3]
        ix = ix.at((0,) * len(ix.dims)) if isinstance(ix, A) else (0 if ix is None else ix)
        return [("input is a bit", x.dims, isb(x)), ("index in range", (), lambda i: andv(le(0, ix), lt(ix, P.n)))] + ([("mask is a bit", mk.dims, isb(mk))] if mk is not None else [])
    def cur(self, P, st, dims):
        f = truth(st["first"].at(()))
        old = st["sr"]
        if len(old.dims) == 1 and len(dims) + 1 != 1 and (f is True or len(dims) > 0): return A((P.n,) + dims, lambda i: mod(i[0], 2)) if f is True else A((P.n,) + dims, lambda i: old.at((i[0],)))
        return A((P.n,) + dims, lambda i: ite(f, mod(i[0], 2), old.at(i)))
    def step(self, P, st, ins):
        x, mk, ix = (list(ins) + [None, 0])[:3]
        if isinstance(ix, A): ix = ix.at((0,) * len(ix.dims))
        if ix is None: ix = 0
        n, dims = P.n, x.dims
        sr = self.cur(P, st, dims)
        out = A(dims, lambda i: sr.at((ix,) + i))
        cnt = A(dims, lambda i: Sum(n, lambda k: sr.at((k,) + i)))
        sh = lambda i: ite(eq(i[0], sub(n, 1)), x.at(i[1:]), sr.at((ite(eq(i[0], sub(n, 1)), 0, add(i[0], 1)),) + i[1:]))
        nx = A((n,) + dims, sh if mk is None else (lambda i: ite(eq(mk.at(i[1:]), 1), sh(i), sr.at(i))))
        return [(out, P.stype), (cnt, P.stype if P.stype.is_floating_point else None)], {"sr": nx, "first": const(False)}
    def post(self, P, st, ins, outs, nst):
        return [("count within [0, entry]", outs[1].dims, lambda i: andv(le(0, outs[1].at(i)), le(outs[1].at(i), P.n)))]

@register
class JKFF(Unit):
    path = "kernel.jkff.JKFF"
    props = ("C11",)
    cfgs = [dict(stype=s) for s in ("float", "int8", "long", "bool")] + [dict(rank=1), dict(rank=4, stype="int8")]
    state = {"q": "jkff"}
    sorts = {"q": ("i", 0, 1)}
    def args(self, E, c): return ({"stype": T2(E, c)[1]},), {}
    def parse(self, swcfg=None): return NS(stype=sw(swcfg, "stype")[0])
    def init(self, P): return {"q": const(0, (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        d = P.stype if c.get("stype") != "bool" else E.torch.int8
        return [E.tensor(E.bits("J", P.dims), d), E.tensor(E.bits("K", P.dims), d)]
    def requires(self, P, ins): return bits_req("JK", ins)
    def step(self, P, st, ins):
        J, K = ins
        q = A(J.dims, lambda i: ite(eq(J.at(i), 1), ite(eq(K.at(i), 1), sub(1, st["q"].bat(i)), 1), ite(eq(K.at(i), 1), 0, st["q"].bat(i))))
        return [(q, P.stype)], {"q": q}

@register
class FSUSignAbs(Unit):
    path = "kernel.signabs.FSUSignAbs"
    props = ("C12",)
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(stype="int8"), dict(btype="int8", dmax=6)]
    state = {"acc": "acc"}
    sorts = {"acc": ("i", 0, lambda P: sub(pow2(P.depth), 1))}
    outnames = ("sign", "magnitude")
    def args(self, E, c):
        b, s = T2(E, c)
        return ({"depth": E.int("depth", 1, c.get("dmax"), cap=4)}, {"btype": b, "stype": s}), {}
    def parse(self, hwcfg=None, swcfg=None):
        b, s = sw(swcfg, "btype", "stype")
        return NS(depth=(hwcfg or {"depth": self.dflt})["depth"], btype=b, stype=s)
    dflt = 3
    def pre(self, P): return [("depth >= 1", le(1, P.depth))]
    def init(self, P): return {"acc": const(pow2(sub(P.depth, 1)), (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("input", P.dims), P.stype)]
    def requires(self, P, ins): return bits_req(["input"], ins)
    def step(self, P, st, ins):
        x = ins[0]
        a = A(x.dims, lambda i: clampv(add(st["acc"].bat(i), sub(mul(2, x.at(i)), 1)), 0, sub(pow2(P.depth), 1)))
        s = A(x.dims, lambda i: bit(lt(a.at(i), pow2(sub(P.depth, 1)))))
        return [(s, P.stype), (pw(lambda s, x: ite(eq(s, 1), sub(1, x), x), s, x), P.stype)], {"acc": a}

@register
class FSUReLU(FSUSignAbs):
    path = "kernel.relu.FSUReLU"
    props = ("C13",)
    sorts = {"acc": ("i", lambda P: sub(pow2(sub(P.depth, 1)), 1), lambda P: sub(pow2(P.depth), 1))}
    outnames = ("output",)
    dflt = 6
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(stype="int8"), dict(btype="int8", dmax=6)]
    def step(self, P, st, ins):
        x = ins[0]; h = pow2(sub(P.depth, 1))
        o = A(x.dims, lambda i: ite(lt(st["acc"].bat(i), h), 1, x.at(i)))
        a = A(x.dims, lambda i: clampv(add(st["acc"].bat(i), sub(mul(2, o.at(i)), 1)), 0, sub(pow2(P.depth), 1)))
        return [(o, P.stype)], {"acc": a}
    def post(self, P, st, ins, outs, nst):
        h = pow2(sub(P.depth, 1))
        return [("the counter never falls below half - 1", outs[0].dims, lambda i: le(sub(h, 1), nst["acc"].at(i))),
                ("below the upper limit the counter equals its start plus ones minus zeros", outs[0].dims, lambda i: implies(lt(st["acc"].bat(i), sub(pow2(P.depth), 1)),
                    eq(sub(nst["acc"].at(i), st["acc"].bat(i)), sub(mul(2, outs[0].at(i)), 1))))]

# ------------------------------------------------------------------ activations
@register
class FSUHardsigmoid(Composite):
    path = "kernel.sigmoid.FSUHardsigmoid"
    props = ("C14",)
    callees = ("FSUAdd",)
    cfgs = [dict(mode="bipolar"), dict(mode="Unipolar"), dict(mode="bipolar", rank=1), dict(mode="unipolar", rank=4, stype="int8"), dict(mode="bipolar", odd=True)]
    def args(self, E, c):
        b, s = T2(E, c)
        h = {"mode": c["mode"], "depth": E.int("depth", 4, None, cap=6)}
        if c.get("odd"): h.update(scale=3, dima=1, entry=5)         # these entries of the configuration are documented but fixed by the unit
        return (h, {"btype": b, "stype": s}), {}
    def pre(self, P): return [("depth >= 4", le(4, P.depth))]
    def parse(self, hwcfg=None, swcfg=None):
        hwcfg = hwcfg or {"mode": "bipolar", "depth": 8}; b, s = sw(swcfg, "btype", "stype")
        ad = REG["FSUAdd"]
        Q = NS(mode=hwcfg["mode"].lower(), scale=2, entry=None, dima=0, depth=hwcfg["depth"], btype=b, stype=s)
        return NS(depth=hwcfg["depth"], stype=s, btype=b, subs={"sadd": (ad, Q)})
    def sort_of(self, P, nm): return ("i", 0, 1) if nm == "sadd/acc" else Composite.sort_of(self, P, nm)
    def inv(self, P, st, i, nm):
        if nm == "sadd/scale": return eq(st[nm].at(i), 2)
        if nm == "sadd/offset": return eq(st[nm].at(i), 0)
        return Composite.inv(self, P, st, i, nm)
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("x", P.dims), P.stype)]
    def requires(self, P, ins): return bits_req(["x"], ins)
    def step(self, P, st, ins):
        x = ins[0]; nst = {}
        o = self.run(P, st, nst, "sadd", A((2,) + x.dims, lambda i: ite(eq(i[0], 0), x.at(i[1:]), 1)), None, None)
        return [(o, P.stype)], nst
    def post(self, P, st, ins, outs, nst):
        o, x = outs[0], ins[0]
        return [("2*emitted + remainder = cycles + ones received, remainder in {0,1}", o.dims, lambda i: andv(eq(add(mul(2, o.at(i)), nst["sadd/acc"].at(i)), add(st["sadd/acc"].bat(i), add(1, x.at(i)))),
                 le(0, nst["sadd/acc"].at(i)), le(nst["sadd/acc"].at(i), 1)))]

class Pure(Unit):
    cycles = (3, 8)
    tol = 1e-5
    cfgs = [dict(rank=2), dict(rank=1), dict(rank=4)]
    def inputs(self, E, P, c, t=0): return [E.tensor(E.reals("x", E.dims(*lanes(c)), den=8), E.torch.float)]
    def f(self, P, x): raise NotImplementedError
    def step(self, P, st, ins): return [(ins[0].map(lambda x: self.f(P, x)), TT().float)], st
@register
class HUBHardsigmoid(Pure):
    path = "kernel.sigmoid.HUBHardsigmoid"
    props = ("C14",)
    cfgs = [dict(rank=2), dict(rank=2, scale=True), dict(rank=1), dict(rank=4)]
    def args(self, E, c): return ((E.scalar(E.real("scale", 0, 8, den=2)),) if c.get("scale") else ()), {}
    def parse(self, scale=3): return NS(s=nrm(scale))
    def f(self, P, x): return clampv(divr(add(mul(P.s, x), 3), 6), 0, 1)
    def post(self, P, st, ins, outs, nst):
        if not native(P.s): return []
        return [("with the default scale: (clip(x,-1,1)+1)/2", outs[0].dims, lambda i: eq(outs[0].at(i), divr(add(clampv(ins[0].at(i), -1, 1), 1), 2)))]
@register
class HUBHardtanh(Pure):
    path = "kernel.tanh.HUBHardtanh"
    props = ("C14",)
    def f(self, P, x): return clampv(x, -1, 1)
@register
class HUBReLU(Pure):
    path = "kernel.relu.HUBReLU"
    props = ("C14",)
    cfgs = [dict(rank=2), dict(rank=2, scale=True), dict(rank=1)]
    def args(self, E, c): return ((E.scalar(E.real("scale", Fraction(1, 2), 8, den=2)) if E.concrete else REG["FSUAdd"]._pos("scale"),) if c.get("scale") else ()), {}
    def parse(self, scale=1, inplace=False): return NS(s=nrm(scale))
    def f(self, P, x): return clampv(x, 0, P.s)
@register
class FSUHardtanh(Pure):
    path = "kernel.tanh.FSUHardtanh"
    props = ("C14",)
    tol = 0
    live_output = True
    cfgs = [dict(stype="float"), dict(stype="int8", rank=3)]
    def inputs(self, E, P, c, t=0): return [E.tensor(E.bits("x", E.dims(*lanes(c))), getattr(E.torch, c["stype"]))]
    def f(self, P, x): return x
    def step(self, P, st, ins): return [(ins[0], None)], st

# ------------------------------------------------------------------ multiplication
@register
class FSUMul(Composite):
    path = "kernel.mul.FSUMul"
    props = ("C08", "C09")
    callees = ("RNG", "BinGen", "BSGen", "ShiftReg")
    outnames = ("product bit",)
    S_ = [dict(static=True, mode=m, rng=r) for m in ("unipolar", "Bipolar") for r in ("Sobol", "race")] + [dict(static=True, mode="bipolar", rng="Sobol", rank=1, stype="int8"), dict(static=True, mode="bipolar", rng="tc10", bc=True)]
    I_ = [dict(static=False, mode=m, rng=r) for m in ("unipolar", "bipolar") for r in ("Sobol", "race10")] + [dict(static=False, mode="bipolar", rng="Sobol", rank=1, stype="int8"), dict(static=False, mode="unipolar", rng="sobol", rank=4)]
    cfgs = S_ + I_
    def cfgs_for(self, prop): return self.S_ if prop == "C08" else (self.I_ if prop == "C09" else self.cfgs)
    def own(self, P):
        d = {"i": "rng_idx"}
        if P.mode == "bipolar": d["j"] = "rng_idx_inv"
        return d
    def args(self, E, c):
        dims = E.dims(*lanes(c))
        w = E.int("width", 0, 3 if c.get("stype") == "int8" else None, cap=4)
        prob = None
        if c["static"]:
            pd = (dims[-1],) if c.get("bc") else dims
            prob = E.param(E.reals("in_1_prob", pd, 0 if c["mode"].lower() == "unipolar" else -1, 1), E.torch.float)
        self._dims = dims
        return (prob, {"width": w, "mode": c["mode"], "static": c["static"], "rng": c["rng"], "dimr": E.int("dimr", 1, None, cap=5)}, {"rtype": E.torch.float, "stype": T2(E, c)[1]}), {}
    def parse(self, in_1_prob=None, hwcfg=None, swcfg=None):
        h = hwcfg or {"width": 8, "mode": "bipolar", "static": False, "rng": "Sobol", "dimr": 1}
        P = NS(mode=h["mode"].lower(), width=h["width"], n=pow2(h["width"]), static=h["static"], stype=sw(swcfg, "rtype", "stype")[1], seq=seqA(h["rng"], h["dimr"], h["width"]), subs={})
        if P.static:
            src = ENV().of(in_1_prob); B = REG["BinGen"]
            P.bin = src.map(lambda x: rnd(B.exact(P, x)))
        else: P.subs = {"sr": (REG["ShiftReg"], NS(n=P.n, stype=P.stype))}
        return P
    def own_init(self, P): return {k: const(0, (1,)) for k in self.own(P)}
    def sort_of(self, P, nm):
        if nm in "ij": return ("i", 0, None) if P.static else ("i", 0, sub(P.n, 1))
        return Composite.sort_of(self, P, nm)
    def bind(self, in_0, in_1=None): return [in_0, in_1]
    def inputs(self, E, P, c, t=0):
        return [E.tensor(E.bits("in_0", self._dims), P.stype), None if P.static else E.tensor(E.bits("in_1", self._dims), P.stype)]
    def requires(self, P, ins): return bits_req(["in_0", "in_1"], [x for x in ins if x is not None])
    def step(self, P, st, ins):
        x = ins[0]; nst = {}
        if P.static:
            src = P.bin; ix = lambda v: mod(v, P.n)
        else:
            _, src = self.run(P, st, nst, "sr", ins[1], None, 0); ix = lambda v: v
        dims = bsh(x.dims, src.dims)
        g = lambda k, i: bit(lt(P.seq.at((ix(st[k].bat(i)),)), src.bat(i)))
        adv = (lambda v, b: add(v, b)) if P.static else (lambda v, b: mod(add(v, b), P.n))
        if P.mode == "bipolar":
            o = A(dims, lambda i: ite(eq(x.bat(i), 1), g("i", i), sub(1, g("j", i))))
            nst["j"] = A(bsh(x.dims, (1,)), lambda i: adv(st["j"].bat(i), sub(1, x.bat(i))))
        else: o = A(dims, lambda i: ite(eq(x.bat(i), 1), g("i", i), 0))
        nst["i"] = A(bsh(x.dims, (1,)), lambda i: adv(st["i"].bat(i), x.bat(i)))
        P.g = g
        return [(o, P.stype)], nst
    def post(self, P, st, ins, outs, nst):
        """ghost counts: F(k) ones among the first k bits of the generator, G(k) zeros among the first k bits of the 0-path copy;
        what has been emitted is F(ones received) + G(zeros received), whatever their order"""
        if not P.static or ENV().concrete: return []
        x, o = ins[0], outs[0]
        F, G = CTX.uf("onesbefore", 1, "i", 0), CTX.uf("zerosbefore", 1, "i", 0)
        def goal(i):
            k = st["i"].bat(i); emitted = sub(F((nst["i"].bat(i),)), F((k,)))
            CTX.assume(eq(F((add(k, 1),)), add(F((k,)), P.g("i", i))))            # definition of F at this k
            if P.mode == "bipolar":
                m = st["j"].bat(i)
                CTX.assume(eq(G((add(m, 1),)), add(G((m,)), sub(1, P.g("j", i)))))
                emitted = add(emitted, sub(G((nst["j"].bat(i),)), G((m,))))
            return eq(o.at(i), emitted)
        cons = lambda i: eq(add(nst["i"].bat(i), nst["j"].bat(i)), add(add(st["i"].bat(i), st["j"].bat(i)), 1)) if P.mode == "bipolar" else eq(nst["i"].bat(i), add(st["i"].bat(i), x.bat(i)))
        return [("emitted so far = ones among the bits used by ones + zeros among the bits used by zeros", o.dims, goal), ("each input bit uses exactly one generator bit", o.dims, cons)]

# ------------------------------------------------------------------ division
@register
class CORDIV(Composite):
    path = "kernel.div.CORDIV_kernel"
    props = ("C15",)
    callees = ("RNG", "ShiftReg")
    cfgs = [dict(rng="Sobol"), dict(rng="race", stype="int8"), dict(rng="Sobol", rank=1), dict(rng="tc10", rank=4)]
    free = ("historic_q",)
    outnames = ("quotient",)
    def own(self, P): return {"idx": "idx"}
    sorts = {"idx": ("i", 0, None)}
    def args(self, E, c):
        return ({"entry": pow2(E.int("k", 0, None, cap=3)), "rng": c["rng"], "dimr": E.int("dimr", 1, None, cap=5)}, {"stype": T2(E, c)[1]}), {}
    def parse(self, hwcfg=None, swcfg=None):
        h = hwcfg or {"entry": 4, "rng": "Sobol", "dimr": 4}
        s = sw(swcfg, "stype")[0]; n = h["entry"]
        return NS(n=n, stype=s, seq=A((n,), lambda i: seqv(h["rng"], h["dimr"], n, i[0])), subs={"sr": (REG["ShiftReg"], NS(n=n, stype=s))})
    def own_init(self, P): return {"idx": const(0, (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("dividend", P.dims), P.stype), E.tensor(E.bits("divisor", P.dims), P.stype)]
    def requires(self, P, ins): return bits_req(["dividend", "divisor"], ins)
    def step(self, P, st, ins):
        a, b = ins; nst = {}
        sr = REG["ShiftReg"].cur(P.subs["sr"][1], self.part(st, "sr"), a.dims)
        k = P.seq.at((mod(st["idx"].at((0,)), P.n),))
        q = A(a.dims, lambda i: ite(eq(b.at(i), 1), a.at(i), sr.at((k,) + i)))
        self.run(P, st, nst, "sr", q, b.map(lambda v: bit(eq(v, 1))), 0)
        nst["idx"] = st["idx"].map(lambda v: add(v, 1))
        return [(q, P.stype)], nst

@register
class FSUDiv(Composite):
    path = "kernel.div.FSUDiv"
    props = ("C15",)
    callees = ("CORDIV", "SkewedSync", "Bi2Uni", "Uni2Bi", "FSUSignAbs")
    cfgs = [dict(mode="unipolar"), dict(mode="Bipolar"), dict(mode="bipolar", rank=1, stype="int8"), dict(mode="unipolar", rank=4, rng="race")]
    outnames = ("quotient",)
    def args(self, E, c):
        b, s = T2(E, c)
        return ({"depth_sa": E.int("depth_sa", 1, None, cap=3), "depth_ss": E.int("depth_ss", 1, None, cap=2), "entry_kn": pow2(E.int("k", 0, None, cap=2)), "mode": c["mode"], "rng": c.get("rng", "Sobol"), "dimr": E.int("dimr", 1, None, cap=5)},
                {"stype": s, "btype": b}), {}
    def parse(self, hwcfg=None, swcfg=None):
        h = hwcfg or {"depth_sa": 3, "depth_ss": 2, "entry_kn": 2, "mode": "bipolar", "rng": "Sobol", "dimr": 4}
        b, s = sw(swcfg, "btype", "stype")
        D = lambda d: NS(depth=d, btype=b, stype=s)
        subs = {"ssync": (REG["SkewedSync"], D(h["depth_ss"])), "cordiv_kernel": (REG["CORDIV"], REG["CORDIV"].parse({"entry": h["entry_kn"], "rng": h["rng"], "dimr": h["dimr"]}, {"stype": s}))}
        if h["mode"].lower() == "bipolar":
            subs.update(abs_dividend=(REG["FSUSignAbs"], D(h["depth_sa"])), abs_divisor=(REG["FSUSignAbs"], D(h["depth_sa"])),
                        bi2uni_dividend=(REG["Bi2Uni"], D(3)), bi2uni_divisor=(REG["Bi2Uni"], D(3)), uni2bi_quotient=(REG["Uni2Bi"], D(4)))
        return NS(mode=h["mode"].lower(), stype=s, subs=subs)
    inputs = CORDIV.inputs
    requires = CORDIV.requires
    def state_of(self, P):
        d = Composite.state_of(self, P)
        return d
    free = ("cordiv_kernel.historic_q",)
    def step(self, P, st, ins):
        a, b = ins; nst = {}
        go = lambda n, *x: self.run(P, st, nst, n, *x)
        if P.mode == "bipolar":
            sa, ma = go("abs_dividend", a); sb, mb = go("abs_divisor", b)
            a, b = go("bi2uni_dividend", ma), go("bi2uni_divisor", mb)
        x, y = go("ssync", a, b)
        q = go("cordiv_kernel", x, y)
        if P.mode == "bipolar":
            u = go("uni2bi_quotient", q)
            q = pw(lambda s, t, v: ite(eq(s, t), v, sub(1, v)), sa, sb, u)
        return [(q, P.stype)], nst

# ------------------------------------------------------------------ square root
@register
class FSUSqrt(Composite):
    path = "kernel.sqrt.FSUSqrt"
    props = ("C16",)
    callees = ("RNG", "ShiftReg", "FSUAdd", "Bi2Uni", "JKFF", "CORDIV")
    cfgs = [dict(mode=m, emit=e, jk=j) for m in ("unipolar", "Bipolar") for e, j in ((True, True), (False, True), (False, False))] + [dict(mode="bipolar", emit=True, jk=False, rank=1, stype="int8"), dict(mode="bipolar", emit=False, jk=False, rank=1, stype="int8"), dict(mode="unipolar", emit=True, jk=True, rng="race10"), dict(mode="bipolar", emit=True, jk=True, rng="tc"), dict(mode="bipolar", emit=False, jk=False, rng="Race10")]
    def args(self, E, c):
        b, s = T2(E, c)
        return ({"mode": c["mode"], "jk_trace": c["jk"], "emit": c["emit"], "entry_kn": pow2(E.int("kk", 0, None, cap=2)), "entry_sr": pow2(E.int("ks", 0, None, cap=3)), "rng": c.get("rng", "Sobol"), "dimr": E.int("dimr", 1, None, cap=5)},
                {"stype": s, "btype": b}), {}
    def own(self, P):
        if P.emit: return {"ins": "emit_out"}
        return {"trace": "trace"} if P.jk else {"trace": "trace", "dff": "dff"}
    sorts = {"ins": ("i", 0, 1), "trace": ("i", 0, 1), "dff": ("i", 0, 1)}
    @property
    def free(self): return ()
    def parse(self, hwcfg=None, swcfg=None):
        h = hwcfg or {"mode": "bipolar", "jk_trace": True, "emit": True, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}
        b, s = sw(swcfg, "btype", "stype"); i8 = TT().int8
        P = NS(mode=h["mode"].lower(), emit=h["emit"], jk=h["jk_trace"], n=h["entry_sr"], stype=s, subs={})
        b2u = (REG["Bi2Uni"], NS(depth=3, btype=b, stype=i8))
        if P.emit:
            P.subs["nsadd"] = (REG["FSUAdd"], NS(mode="unipolar", scale=1, dima=0, depth=10, entry=None, btype=b, stype=i8))
            P.subs["sr"] = (REG["ShiftReg"], NS(n=h["entry_sr"], stype=i8))
            if P.mode == "bipolar": P.subs["bi2uni_emit"] = b2u
        else:
            if P.mode == "bipolar": P.subs["bi2uni"] = b2u
            if P.jk: P.subs["jkff"] = (REG["JKFF"], NS(stype=i8))
            else: P.subs["cordiv_kernel"] = (REG["CORDIV"], REG["CORDIV"].parse({"entry": 4, "rng": h["rng"], "dimr": 4}, {"stype": i8}))
        return P
    def own_init(self, P): return {k: const(0, (1,)) for k in self.own(P)}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("input", P.dims), P.stype)]
    def requires(self, P, ins): return bits_req(["input"], ins)
    def step(self, P, st, ins):
        x = ins[0]; nst = {}
        go = lambda n, *a: self.run(P, st, nst, n, *a)
        if P.emit:
            e = st["ins"].b(x.dims)
            o = go("nsadd", A((2,) + x.dims, lambda i: ite(eq(i[0], 0), x.at(i[1:]), e.at(i[1:]))), None, None)
            old, _ = go("sr", o.map(lambda v: sub(1, v)), None, 0)
            u = go("bi2uni_emit", o) if P.mode == "bipolar" else o
            nst["ins"] = pw(lambda a, b: ite(eq(a, 1), b, 0), old, u)
        else:
            t = st["trace"].b(x.dims)
            o = pw(lambda t, v: ite(eq(t, 1), 1, v), t, x)
            u = go("bi2uni", o) if P.mode == "bipolar" else o
            if P.jk: nst["trace"] = go("jkff", u, const(1, x.dims))
            else:
                d = st["dff"].b(x.dims)
                dd = pw(lambda d, v: ite(eq(d, 1), 0, v), d, u)
                nst["trace"] = go("cordiv_kernel", dd, pw(lambda d, v: add(d, v), d, dd))
                nst["dff"] = st["dff"].map(lambda v: sub(1, v))
        return [(o, P.stype)], nst
