import math
from .common import *
from .stream import lanes
from .kernel import isb, bits_req, sw, nrm, T2
from .utils import log2r, bounds_of

TC = ("race", "tc", "race10", "tc10")

# ------------------------------------------------------------------ streaming linear layer
class PCBase(Unit):
    """the parallel count: sum over inputs of enabled weight bits plus the bias bit"""
    callees = ("RNG", "BinGen", "BSGen")
    outnames = ("count",)
    sorts = {"r1": ("i", 0, None), "r0": ("i", 0, None), "rb": ("i", 0, None)}
    def state_of(self, P):
        d = {"r1": "wrdx_i1"}
        if P.mode == "bipolar" and not P.tc: d["r0"] = "wrdx_i0"
        if P.bias: d["rb"] = "brdx"
        return d
    def weights(self, E, c, wdims, bdims):
        lo = 0 if c["mode"].lower() == "unipolar" else -1
        w = E.param(E.reals("weight", wdims, lo, 1), E.torch.float)
        b = E.param(E.reals("bias", bdims, lo, 1), E.torch.float) if c["bias"] else None
        return w, b
    def hw(self, E, c): return {"width": E.int("width", 0, None, cap=4), "mode": c["mode"], "rng": c["rng"], "dimr": E.int("dimr", 1, None, cap=5) if c["rng"] == "Sobol" else 1}
    def swc(self, E): return {"btype": E.torch.float, "rtype": E.torch.float, "stype": E.torch.float}
    def params(self, bias, weight_ext, bias_ext, h, s):
        E = ENV(); B = REG["BinGen"]
        P = NS(mode=h["mode"].lower(), width=h["width"], n=pow2(h["width"]), tc=h["rng"].lower() in TC, bias=bias, stype=s["stype"], seq=seqA(h["rng"], h["dimr"], h["width"]))
        q = lambda x: rnd(B.exact(P, x))
        P.W = E.of(weight_ext).map(q)
        P.B = E.of(bias_ext).map(q) if bias else None
        return P
    def gbit(self, P, r, w): return bit(lt(P.seq.at((mod(r, P.n),)), w))
    def count(self, P, st, b, o, n, x, w, r1, r0):
        """x(j), w(j), r1(j), r0(j): input bit, weight, generator indices of position j"""
        t = Sum(n, lambda j: ite(eq(x(j), 1), self.gbit(P, r1(j), w(j)), 0))
        if P.mode == "bipolar":
            t = add(t, Sum(n, lambda j: ite(eq(x(j), 1), 0, sub(1, self.gbit(P, (r1 if P.tc else r0)(j), w(j))))))
        if P.bias: t = add(t, self.gbit(P, st["rb"].at((o,)), P.B.at((o,))))
        return t

@register
class FSULinearPC(PCBase):
    path = "kernel.linear.FSULinearPC"
    props = ("C17",)
    cycles = (24, 200)
    cfgs = [dict(mode=m, rng=r, bias=b) for m in ("unipolar", "Bipolar") for r in ("Sobol", "tc") for b in (True, False)] + [dict(mode="bipolar", rng="Race10", bias=True), dict(mode="bipolar", rng="Sobol", bias=True, itype="int8")]
    def args(self, E, c):
        i, o = E.dims("I", "O"); self._i = i
        w, b = self.weights(E, c, (o, i), (o,))
        return (i, o), dict(bias=c["bias"], weight_ext=w, bias_ext=b, hwcfg=self.hw(E, c), swcfg=self.swc(E))
    def parse(self, in_features, out_features, bias=True, weight_ext=None, bias_ext=None, hwcfg=None, swcfg=None):
        P = self.params(bias, weight_ext, bias_ext, hwcfg, swcfg)
        P.i, P.o = in_features, out_features
        return P
    def init(self, P): return {"r1": const(0, (1, P.o, P.i)), "r0": const(0, (1, P.o, P.i)), "rb": const(0, (P.o,))} if True else None
    def inputs(self, E, P, c, t=0):
        if t == 0: P.b = E.dims("B")[0]
        return [E.tensor(E.bits("input", (P.b, P.i)), getattr(E.torch, c.get("itype", "float")))]
    def requires(self, P, ins): return bits_req(["input"], ins)
    def step(self, P, st, ins):
        x = ins[0]; nb = x.dims[0]; d3 = (nb, P.o, P.i)
        out = A((nb, P.o), lambda i: self.count(P, st, i[0], i[1], P.i, lambda j: x.at((i[0], j)), lambda j: P.W.at((i[1], j)), lambda j: st["r1"].bat((i[0], i[1], j)),
                                                (lambda j: st["r0"].bat((i[0], i[1], j))) if "r0" in st else None))
        nst = {"r1": A(d3, lambda i: add(st["r1"].bat(i), 1 if P.tc else x.at((i[0], i[2]))))}
        if P.mode == "bipolar" and not P.tc: nst["r0"] = A(d3, lambda i: add(st["r0"].bat(i), sub(1, x.at((i[0], i[2])))))
        if P.bias: nst["rb"] = st["rb"].map(lambda v: add(v, 1))
        return [(out, P.stype)], nst
    def post(self, P, st, ins, outs, nst):
        o = outs[0]
        return [("count within [0, entries]", o.dims, lambda i: andv(le(0, o.at(i)), le(o.at(i), add(P.i, 1 if P.bias else 0))))]

class LayerBase(Composite):
    """the parallel counter followed by the streaming adder"""
    cycles = (24, 200)
    outnames = ("output bit",)
    def base(self): return REG[self.pc]
    def adder(self, P, entries, h, s):
        P.entries = entries
        hw = {"mode": h["mode"], "scale": entries if h["scale"] is None else nrm(h["scale"]), "dima": 0, "depth": h["depth"], "entry": entries}
        return (REG["FSUAdd"], REG["FSUAdd"].parse(hw, s))
    def own_init(self, P): return {}
    def requires(self, P, ins): return bits_req(["input"], ins[:1])
    def lhw(self, E, c):
        h = self.base().hw(E, c)
        h["depth"] = E.int("depth", 2, None, cap=8)
        h["scale"] = None
        if c.get("scale"): h["scale"] = E.scalar(E.real("scale", Fraction(1, 2), 8, den=2)) if E.concrete else REG["FSUAdd"]._pos("scale")
        return h
    def rt(self, E, c):
        if not c.get("rt"): return []
        return [E.scalar(E.real("rscale", Fraction(1, 2), 8, den=2)) if E.concrete else REG["FSUAdd"]._pos("rscale"), E.int("rentry", 1, None, cap=6)]
    def call(self, obj, ins): return obj(*ins)
    def step(self, P, st, ins):
        nst = {}
        pc = self.run(P, st, nst, "PC", ins[0])
        o = self.run(P, st, nst, "ACC", A((1,) + tuple(pc.dims), lambda i: pc.at(i[1:])), *(list(ins[1:]) + [None, None])[:2])
        return [(o, P.stype)], nst

@register
class FSULinear(LayerBase):
    path = "kernel.linear.FSULinear"
    props = ("C17",)
    callees = ("FSULinearPC", "FSUAdd")
    pc = "FSULinearPC"
    cfgs = [dict(mode=m, rng=r, bias=b) for m, r, b in (("unipolar", "Sobol", True), ("Bipolar", "Sobol", True), ("bipolar", "tc", False), ("unipolar", "race", False))] + \
           [dict(mode="bipolar", rng="Sobol", bias=True, scale=True), dict(mode="bipolar", rng="Sobol", bias=False, rt=True)]
    def args(self, E, c):
        i, o = E.dims("I", "O")
        w, b = self.base().weights(E, c, (o, i), (o,))
        return (i, o), dict(bias=c["bias"], weight_ext=w, bias_ext=b, hwcfg=self.lhw(E, c), swcfg=self.base().swc(E))
    def parse(self, in_features, out_features, bias=True, weight_ext=None, bias_ext=None, hwcfg=None, swcfg=None):
        P = NS(stype=swcfg["stype"], subs={})
        Q = self.base().parse(in_features, out_features, bias, weight_ext, bias_ext, hwcfg, swcfg)
        P.i, P.mode, P.tc, P.scale = in_features, Q.mode, Q.tc, hwcfg["scale"]
        P.subs["PC"] = (self.base(), Q)
        P.subs["ACC"] = self.adder(P, add(in_features, 1 if bias else 0), hwcfg, swcfg)
        return P
    def bind(self, input, scale=None, entry=None): return [input, scale, entry]
    def pre(self, P):
        c = True
        if P.mode == "bipolar" and P.tc and P.scale is not None: c = eq(P.scale, P.entries)
        return [("temporally coded weights are only used with scaled addition in bipolar mode", c)]
    def inputs(self, E, P, c, t=0):
        return self.base().inputs(E, P.subs["PC"][1], c, t) + self.rt(E, c)

# ------------------------------------------------------------------ quantised layers
class QLayer(Unit):
    """a layer whose result is a function of its input, weight and bias; nothing it stores matters to later calls"""
    callees = ("RshiftOffset",)
    tol = 1e-4
    cycles = (3, 8)
    free = ("rshift_i", "rshift_w", "rshift_o")
    twin = False
    outnames = ("output", "input gradient", "weight gradient", "bias gradient")
    assumes = ("the larger quantile bound of the input and of the weight is nonzero (its log2 exists)",)
    sorts = {"w": ("r",), "b": ("r",)}
    def state_of(self, P): return {"w": "weight", "b": "bias"} if P.bias else {"w": "weight"}
    def wb(self, E, c):
        i, o = E.dims("I", "O"); self._obj = None
        w, b = self.wtensors(E, c, (o, i), (o,))
        return (i, o), dict(bias=c.get("bias", True), weight_ext=w, bias_ext=b)
    def wtensors(self, E, c, wd, bd):
        den = E.rnd.choice([1, 16, 64]) if E.concrete else 1; h = E.rnd.choice([1, 4, 100]) if E.concrete else None
        ext = c.get("ext", True)
        w = E.param(E.reals("weight", wd, -h if h else None, h, den=den), E.torch.float) if ext else None
        b = E.param(E.reals("bias", bd, den=4), E.torch.float) if c.get("bias", True) and ext else None
        return w, b
    def make(self, target, args, kw, name):
        o = target(*args, **kw)
        if self._obj is None: self._obj = o
        return o
    def base(self, bias, weight_ext, bias_ext):
        E = ENV()
        return NS(bias=bool(bias), w0=None if weight_ext is None else E.of(weight_ext), b0=None if bias_ext is None else E.of(bias_ext))
    def init(self, P):
        E = ENV()
        return {"w": P.w0 or E.of(self._obj.weight), "b": (P.b0 or E.of(self._obj.bias)) if P.bias else None}
    def quantile(self, E, n):
        if E.concrete: return E.scalar(E.rnd.choice([1, 1, Fraction(1, 2), Fraction(3, 4)]))
        q = CTX.real(n, 0, 1); CTX.assume(lt(0, q)); return q
    def xdims(self, E, P): return (P.nb, self.nin)
    def inputs(self, E, P, c, t=0):
        if t == 0: P.nb = E.dims("B")[0]
        den = E.rnd.choice([1, 8, 64]) if E.concrete else 1; h = E.rnd.choice([1, 5, 200]) if E.concrete else None
        x = E.reals("input", self.xdims(E, P), -h if h else None, h, den=den)
        self.assume(E, P, x)
        return [E.tensor(x, E.torch.float)]
    def assume(self, E, P, x):
        w = E.of(self._obj.weight)
        E.assume(andv(lt(0, bounds_of(x, P.qi)), lt(0, bounds_of(w, P.qw))))
    def shifts(self, P, x, w, wi, ww):
        Q = NS(wi=wi, ww=ww, r=P.r, mi=bounds_of(x, P.qi), mw=bounds_of(w, P.qw))
        return REG["RshiftOffset"].shifts(Q)
    def magnitude(self, P, st, ins):
        x, w = ins[0], st["w"]
        return [A((x.dims[0], w.dims[0]), lambda i: Sum(x.dims[1], lambda j: absv(mul(x.at((i[0], j)), w.at((i[1], j))))))]
    def step(self, P, st, ins):
        x, w = ins[0], st["w"]
        term, fin = self.product(P, x, w)                # product of two operands; what happens to the sum of products
        out = A((x.dims[0], w.dims[0]), lambda i: add(fin(Sum(x.dims[1], lambda j: term(x.at((i[0], j)), w.at((i[1], j))))), st["b"].at((i[1],)) if P.bias else 0))
        return [(out, None)], st

class HUBQ(QLayer):
    """hybrid unary product of two quantised operands"""
    callees = ("RNG", "RshiftOffset")
    outnames = ("output",)
    def hub(self, E, c):
        w = E.int("width", 3 if "lfsr" in (c["rngi"].lower(), c["rngw"].lower()) else 2, None, cap=4)
        return {"widthi": w, "rngi": c["rngi"], "quantilei": self.quantile(E, "qi"), "widthw": w, "rngw": c["rngw"], "quantilew": self.quantile(E, "qw"),
                "cycle": E.int("cycle", 1, None, cap=30), "rounding": c.get("r", "round"), "signmag": True}
    def hubP(self, P, h):
        P.m = sub(h["widthi"], 1); P.N = pow2(P.m); P.C = minv(h["cycle"], P.N)
        P.qi, P.qw, P.r = nrm(h["quantilei"]), nrm(h["quantilew"]), h["rounding"].lower()
        si, sw_ = self.seq(h["rngi"], P.m), self.seq(h["rngw"], P.m)
        P.ctler, P.ctlee = (sw_, si) if h["rngw"].lower() in TC else (si, sw_)
        return P
    def seq(self, kind, m):
        if kind.lower() != "lfsr": return seqA(kind, 1, m)
        if not ENV().concrete: return REG["RNG"].seq(NS(kind="lfsr", width=m))
        self._seqs = {}
        return A((pow2(m),), lambda i: self._seqs["lfsr"][i[0]])
    def make(self, target, args, kw, name):
        h = kw["hwcfg"]
        if not ENV().concrete or "lfsr" not in (h["rngi"].lower(), h["rngw"].lower()): return QLayer.make(self, target, args, kw, name)
        import sys
        mod = sys.modules[target.__module__]; real = getattr(mod, "RNG", None); got = []
        if real is None: raise Infeasible()
        class Recorder(real):                       # an LFSR starts anywhere: the replay needs to know the sequence in use
            def __init__(s, *a, **k):
                real.__init__(s, *a, **k)
                if s.rng == "lfsr": got.append([int(x) for x in s().detach().reshape(-1).tolist()])
        mod.RNG = Recorder
        try: o = QLayer.make(self, target, args, kw, name)
        finally: mod.RNG = real
        if len(got) != 1: raise Infeasible()
        if self._obj is o: self._seqs = {"lfsr": got[0]}
        return o
    def P_(self, P, a, b):
        """ones among the first A bits of the stream of b, A the number of ones in a full stream of a"""
        n = Sum(P.N, lambda j: bit(lt(P.ctler.at((j,)), a)))
        return Sum(n, lambda j: bit(lt(P.ctlee.at((j,)), b)))
    def product(self, P, x, w):
        ri, rw, ro = self.shifts(P, x, w, P.m, P.m)
        q = lambda v, r: clampv(absv(rnd(divr(v, pow2(r)))), 0, sub(P.C, 1))
        so = pow2(ro)
        return lambda a, b: mul(sign(a), mul(sign(b), self.P_(P, q(a, ri), q(b, rw)))), lambda s: divr(s, so)

HUBC = [dict(rngi="Sobol", rngw="Sobol"), dict(rngi="Race", rngw="Sobol"), dict(rngi="sobol", rngw="tc"), dict(rngi="tc10", rngw="Sobol", bias=False), dict(rngi="Sobol", rngw="Sobol", bias=False, r="floor"), dict(rngi="Sobol", rngw="Sobol", r="ceil", ext=False), dict(rngi="lfsr", rngw="Sobol"), dict(rngi="LFSR", rngw="tc", r="floor")]
@register
class HUBLinear(HUBQ):
    path = "kernel.linear.HUBLinear"
    props = ("C19",)
    cfgs = HUBC
    def args(self, E, c):
        a, k = self.wb(E, c); self.nin = a[0]
        return a, dict(k, hwcfg=self.hub(E, c))
    def parse(self, in_features, out_features, bias=True, weight_ext=None, bias_ext=None, hwcfg=None):
        return self.hubP(self.base(bias, weight_ext, bias_ext), hwcfg)

class FXPQ(QLayer):
    outnames = ("output",)
    def fxp(self, E, c):
        return {"widthi": E.int("widthi", 2, None, cap=6), "quantilei": self.quantile(E, "qi"), "widthw": E.int("widthw", 2, None, cap=6), "quantilew": self.quantile(E, "qw"), "rounding": c.get("r", "round")}
    def fxpP(self, P, h):
        P.wi, P.ww, P.qi, P.qw, P.r = h["widthi"], h["widthw"], nrm(h["quantilei"]), nrm(h["quantilew"]), h["rounding"].lower()
        return P
    def product(self, P, x, w):
        ri, rw, _ = self.shifts(P, x, w, sub(P.wi, 1), sub(P.ww, 1))
        q = lambda v, r, wd: clampv(rnd(divr(v, pow2(r))), sub(1, pow2(wd)), sub(pow2(wd), 1))
        so = pow2(sub(sub(0, ri), rw))
        return lambda a, b: mul(q(a, ri, P.wi), q(b, rw, P.ww)), lambda s: divr(s, so)

FXPC = [dict(), dict(bias=False, r="floor"), dict(r="ceil"), dict(ext=False)]
@register
class FXPLinear(FXPQ):
    path = "kernel.linear.FXPLinear"
    props = ("C20",)
    cfgs = FXPC
    def args(self, E, c):
        a, k = self.wb(E, c); self.nin = a[0]
        return a, dict(k, hwcfg=self.fxp(E, c))
    def parse(self, in_features, out_features, bias=True, weight_ext=None, bias_ext=None, hwcfg=None):
        return self.fxpP(self.base(bias, weight_ext, bias_ext), hwcfg)

FPW = {"bfloat16": 8, "float16": 11, "float32": 24}
class TLUTQ(QLayer):
    """temporal look-up layer: one operand is split into digits, limited per digit and rebuilt"""
    outnames = ("output",)
    free = ()
    def tlut(self, E, c):
        fi, fw, wi, ww, t = c["fi"], c["fw"], c.get("wi", 8), c.get("ww", 8), c.get("t", 4)
        cy = None if c.get("full") else E.int("cycle", 1, None, cap=min(2 ** t + 2, 20))
        return {"temporal": c["temporal"], "widtht": t, "formati": fi, "widthi": wi, "quantilei": self.quantile(E, "qi"), "formatw": fw, "widthw": ww, "quantilew": self.quantile(E, "qw"),
                "cycle": cy, "rounding": c.get("r", "round"), "signmag": True}
    def tlutP(self, P, h):
        P.qi, P.qw, P.r, P.t = nrm(h["quantilei"]), nrm(h["quantilew"]), h["rounding"].lower(), h["widtht"]
        P.onx = h["temporal"].lower() in ("i", "input")
        P.B = 2 ** P.t
        P.C = P.B if h["cycle"] is None else minv(h["cycle"], P.B)
        fi, fw = h["formati"].lower(), h["formatw"].lower()
        P.mode = "fxp" if fi == fw == "fxp" else "fp" if "fxp" not in (fi, fw) else "mixed"
        f, w = (fi, h["widthi"]) if P.onx else (fw, h["widthw"])
        P.W = w - 1 if f == "fxp" else FPW[f]
        P.wi, P.ww = h["widthi"] - 1, h["widthw"] - 1
        P.full = h["cycle"] is None
        P.nd = -(-P.W // P.t)                                         # number of digits
        return P
    def assume(self, E, P, x):
        if P.mode != "fp": QLayer.assume(self, E, P, x)
    def rebuilt(self, P, v):
        """v with each base-B digit limited to C-1"""
        out, p = 0, 1
        for _ in range(P.nd):
            n = trunc(divr(v, P.B))
            out = add(out, mul(p, clampv(sub(v, mul(P.B, n)), sub(1, P.C), sub(P.C, 1))))
            v, p = n, p * P.B
        return out
    def product(self, P, x, w):
        top = lambda W: 2 ** W - 1
        fix = lambda v, r, W: trunc(clampv(divr(v, pow2(r)), -top(W), top(W)))
        idn = lambda v: v
        if P.mode == "fp":
            def t(v):
                m, e = frexp(v)
                return mul(divr(self.rebuilt(P, mul(m, 2 ** P.W)), 2 ** P.W), pow2(e))
            tx, tw = (t, idn) if P.onx else (idn, t)
        else:
            wi, ww = (P.wi, P.ww) if P.mode == "fxp" else (P.W, P.W)
            ri, rw, _ = self.shifts(P, x, w, wi, ww)
            tx = lambda v: mul(self.rebuilt(P, fix(v, ri, wi)) if P.onx else fix(v, ri, wi), pow2(ri))
            tw = lambda v: mul(fix(v, rw, ww) if P.onx else self.rebuilt(P, fix(v, rw, ww)), pow2(rw))
            if P.mode == "mixed":
                if P.onx: tw = idn
                else: tx = idn
        return lambda a, b: mul(tx(a), tw(b)), lambda s: s
    def post(self, P, st, ins, outs, nst):
        if ENV().concrete or not P.full: return []
        v, m = CTX.int("digits"), CTX.real("mantissa", -1, 1)
        return [("full cycles rebuild every operand value exactly", (), lambda i: implies(andv(lt(-2 ** P.W, v), lt(v, 2 ** P.W)), eq(self.rebuilt(P, v), v)))]
def frexp(v):
    if ENV().concrete:
        m, e = math.frexp(float(v)); return norm(m), e
    from ..storch import frexpv
    return frexpv(v)

TLUTC = [dict(temporal=t, fi=a, fw=b, t=n, wi=wi, ww=ww, r=r, bias=bias, full=full) for t, a, b, n, wi, ww, r, bias, full in (
    ("i", "fxp", "fxp", 4, 8, 8, "round", True, False), ("Weight", "fxp", "FXP", 3, 8, 5, "ceil", True, False), ("input", "fxp", "fxp", 3, 6, 4, "Floor", False, True), ("w", "fxp", "fxp", 2, 5, 9, "round", True, True),
    ("i", "fxp", "bfloat16", 4, 8, 8, "round", True, False), ("w", "fxp", "bfloat16", 3, 8, 8, "round", True, False), ("w", "float16", "fxp", 4, 8, 6, "floor", True, True), ("i", "Float32", "fxp", 4, 8, 8, "ceil", False, False),
    ("i", "bfloat16", "float16", 4, 8, 8, "round", True, False), ("w", "float32", "float32", 5, 8, 8, "round", True, True), ("i", "float16", "bfloat16", 3, 8, 8, "round", False, True), ("w", "float32", "bfloat16", 4, 8, 8, "round", True, False))]
@register
class TLUTLinear(TLUTQ):
    path = "kernel.linear.TLUTLinear"
    props = ("C21",)
    cfgs = TLUTC + [dict(temporal="w", fi="fxp", fw="fxp", t=4, wi=8, ww=8, ext=False), dict(temporal="i", fi="fxp", fw="fxp", t=1, wi=4, ww=4, r="round")]
    def args(self, E, c):
        a, k = self.wb(E, c); self.nin = a[0]
        return a, dict(k, hwcfg=self.tlut(E, c))
    def parse(self, in_features, out_features, bias=True, weight_ext=None, bias_ext=None, hwcfg=None):
        return self.tlutP(self.base(bias, weight_ext, bias_ext), hwcfg)

# ------------------------------------------------------------------ training gradients
class Grad:
    """mix-in: the gradients a layer delivers for an arbitrary upstream gradient"""
    props = ("C22",)
    stateful = False
    outnames = ("gradient", "gradient", "gradient")
    tol = 1e-4
    def gdims(self, P): return (P.nb, self.nout)
    def inputs(self, E, P, c, t=0):
        ins = super().inputs(E, P, c, t)
        self.needs = P.needs = c["needs"]
        return ins + [E.tensor(E.reals("upstream", self.gdims(P), den=4), E.torch.float)]
    def args(self, E, c):
        a, k = super().args(E, c); self.nout = a[1]
        return a, k
    def call(self, obj, ins):
        x, g = ins; needs = self.needs; has_b = obj.bias is not None
        if ENV().concrete:
            T_ = ENV().torch
            x = x.clone().requires_grad_("x" in needs); w = obj.weight; b = obj.bias
            w.requires_grad_("w" in needs); w.grad = None
            if has_b: b.requires_grad_("b" in needs); b.grad = None
            obj(x).backward(g)
            out = []
            for n, p in (("x", x), ("w", w), ("b", b)):
                if n in needs and (n != "b" or has_b):
                    if p.grad is None: raise ValueError("no gradient delivered for %s" % n)
                    out.append(p.grad)
            w.requires_grad_(False)
            if has_b: b.requires_grad_(False)
            return out
        from ..storch import Function
        Function.last = None
        obj(x)
        if Function.last is None: raise Unsupported("the layer does not use an autograd function")
        cls, ctx, args = Function.last
        ctx.needs_input_grad = tuple(n in needs for n in "xwb") + (False,) * (len(args) - 3)
        r = aslist(cls.backward(ctx, g))
        if len(r) < len(args): raise ValueError("%d gradients for %d arguments" % (len(r), len(args)))
        out = []
        for n, v in zip("xwb", r):
            if n in needs and (n != "b" or has_b):
                if v is None: raise ValueError("no gradient delivered for %s" % n)
                out.append(v)
            elif v is not None: raise ValueError("a gradient nobody asked for: %s" % n)
        if any(v is not None for v in r[3:]): raise ValueError("gradients for configuration arguments")
        return out
    def step(self, P, st, ins):
        x, g = ins; w = st["w"]; nb = x.dims[0]
        out = []
        if "x" in P.needs: out.append(A(x.dims, lambda i: Sum(w.dims[0], lambda o: mul(g.at((i[0], o)), w.at((o, i[1]))))))
        if "w" in P.needs: out.append(A(w.dims, lambda i: Sum(nb, lambda b: mul(g.at((b, i[0])), x.at((b, i[1]))))))
        if "b" in P.needs and P.bias: out.append(A((w.dims[0],), lambda i: Sum(nb, lambda b: g.at((b, i[0])))))
        return [(o, TT().float) for o in out], st
    def magnitude(self, P, st, ins): return []
    def post(self, P, st, ins, outs, nst): return []
def grads(cs):
    """every subset of requested gradients, spread over the base configurations"""
    out = []
    for k, n in enumerate(("xwb", "w", "x", "b", "xw", "xb", "wb")):
        c = cs[k % len(cs)]
        out.append(dict(c if n != "b" or c.get("bias", True) else cs[0], needs=n))
    return out
@register
class HUBLinearGrad(Grad, HUBLinear): cfgs = grads([HUBC[0], HUBC[3]]) + [dict(HUBC[0], needs="b")]
@register
class FXPLinearGrad(Grad, FXPLinear): cfgs = grads(FXPC[:3]) + [dict(FXPC[0], needs="b"), dict(FXPC[1], needs="xw")]
@register
class TLUTLinearGrad(Grad, TLUTLinear): cfgs = [dict(TLUTC[k], needs=n) for k in (0, 5, 8) for n in ("xwb", "w", "x", "b")] + [dict(TLUTC[k], needs="xwb") for k in (3, 4, 7, 9)]
