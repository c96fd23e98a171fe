from .common import *
from .kernel import isb, bits_req, nrm
from .linear import *
from .linear import QLayer, HUBQ, FXPQ, TLUTQ, HUBC, FXPC, TLUTC, PCBase, LayerBase, TC
from .utils import two

# ------------------------------------------------------------------ geometry
class Geo:
    """mix-in: NCHW images under a 2-d kernel with stride, zero padding and dilation"""
    assumes = ("the image is large enough for at least one kernel position",)
    def geo(self, E, c):
        C, O = (E.dims("C", "O") if not E.concrete else (E.int("C", 1, None, cap=2), E.int("O", 1, None, cap=2)))
        def v(n, lo, cap):
            if c.get("form", "pair") == "pair": return (E.int(n + "_h", lo, None, cap=cap), E.int(n + "_w", lo, None, cap=cap))
            return E.int(n, lo, None, cap=cap)
        k = v("kernel", 1, 2)
        kw = {} if c.get("form") == "default" else {"stride": v("stride", 1, 2), "padding": v("padding", 0, 2), "dilation": v("dilation", 1, 1)}
        kh, kw_ = two(k)
        self.wd, self.bd = (O, C, kh, kw_), (O,)
        return (C, O, k), kw
    def geoP(self, P, in_channels, out_channels, kernel_size, stride, padding, dilation):
        P.Ci, P.O, P.k, P.s, P.p, P.d = in_channels, out_channels, two(kernel_size), two(stride), two(padding), two(dilation)
        return P
    def image(self, E, P):
        self.sized(P, tuple(E.int(n, 1, None, cap=4) for n in ("H", "W")))
        E.assume(andv(le(1, P.o[0]), le(1, P.o[1])))
    def sized(self, P, H):
        P.H = tuple(H)
        P.o = tuple(add(floordiv(sub(sub(add(P.H[a], mul(2, P.p[a])), mul(P.d[a], sub(P.k[a], 1))), 1), P.s[a]), 1) for a in (0, 1))
    def pix(self, P, x, n, c, y, z, a, b, pad=0):
        """what the kernel element (a, b) at output position (y, z) sees of channel c"""
        h = sub(add(mul(y, P.s[0]), mul(a, P.d[0])), P.p[0])
        w = sub(add(mul(z, P.s[1]), mul(b, P.d[1])), P.p[1])
        inside = True if native(*P.p) and P.p == (0, 0) else andv(le(0, h), lt(h, P.H[0]), le(0, w), lt(w, P.H[1]))     # without padding every patch lies inside
        if inside is False: return pad
        return ite(inside, x.at((n, c, h, w)), pad)
    def over(self, P, f): return Sum(P.Ci, lambda c: Sum(P.k[0], lambda a: Sum(P.k[1], lambda b: f(c, a, b))))

# ------------------------------------------------------------------ quantised convolutions
class ConvQ(Geo):
    callees = ("RshiftOffset", "Conv2dOutputShape")
    def wb(self, E, c):
        a, k = self.geo(E, c); self._obj = None
        w, b = self.wtensors(E, c, self.wd, self.bd)
        return a, dict(k, bias=c.get("bias", True), weight_ext=w, bias_ext=b)
    def xdims(self, E, P):
        self.image(E, P)
        return (P.nb, P.Ci) + P.H
    def seen(self, P, x): return x
    def magnitude(self, P, st, ins):
        x, w = ins[0], st["w"]
        return [A((x.dims[0], P.O) + P.o, lambda i: self.over(P, lambda c, a, b: absv(mul(self.pix(P, x, i[0], c, i[2], i[3], a, b), w.at((i[1], c, a, b))))))]
    def step(self, P, st, ins):
        x, w = ins[0], st["w"]
        term, fin = self.product(P, self.seen(P, x), w)
        def at(i):
            n, o, y, z = i
            return add(fin(self.over(P, lambda c, a, b: term(self.pix(P, x, n, c, y, z, a, b), w.at((o, c, a, b))))), st["b"].at((o,)) if P.bias else 0)
        return [(A((x.dims[0], P.O) + P.o, at), None)], st
def conv_parse(fill):
    def parse(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", weight_ext=None, bias_ext=None, hwcfg=None):
        P = self.base(bias, weight_ext, bias_ext)
        self.geoP(P, in_channels, out_channels, kernel_size, stride, padding, dilation)
        return fill(self, P, hwcfg)
    return parse
def forms(cs): return [dict(c, form=("pair", "int", "pair", "default")[k % 4]) for k, c in enumerate(cs)]

@register
class HUBConv2d(ConvQ, HUBQ):
    path = "kernel.conv.HUBConv2d"
    props = ("C19",)
    callees = ("RNG", "RshiftOffset", "Conv2dOutputShape")
    assumes = QLayer.assumes + Geo.assumes
    cfgs = forms(HUBC)
    def args(self, E, c):
        a, k = self.wb(E, c)
        return a, dict(k, hwcfg=self.hub(E, c))
    parse = conv_parse(lambda self, P, h: self.hubP(P, h))

@register
class FXPConv2d(ConvQ, FXPQ):
    path = "kernel.conv.FXPConv2d"
    props = ("C20",)
    assumes = QLayer.assumes + Geo.assumes
    cfgs = forms(FXPC)
    def args(self, E, c):
        a, k = self.wb(E, c)
        return a, dict(k, hwcfg=self.fxp(E, c))
    parse = conv_parse(lambda self, P, h: self.fxpP(P, h))

@register
class TLUTConv2d(ConvQ, TLUTQ):
    path = "kernel.conv.TLUTConv2d"
    props = ("C21",)
    assumes = QLayer.assumes + Geo.assumes
    cfgs = forms(TLUTC)
    def args(self, E, c):
        a, k = self.wb(E, c)
        return a, dict(k, hwcfg=self.tlut(E, c))
    parse = conv_parse(lambda self, P, h: self.tlutP(P, h))
    def seen(self, P, x):
        """the operands the layer multiplies: every kernel position's patch"""
        return A((x.dims[0],) + P.o + (P.Ci,) + P.k, lambda i: self.pix(P, x, i[0], i[3], i[1], i[2], i[4], i[5]))
    def assume(self, E, P, x): TLUTQ.assume(self, E, P, self.seen(P, x))

# ------------------------------------------------------------------ streaming convolution
def merged(dims):
    """one dimension made of several, and the index into it"""
    if ENV().concrete: return math.prod(dims)
    from ..tensor import MDim
    return MDim(dims)
def packed(idx, dims):
    if ENV().concrete:
        r = 0
        for i, n in zip(idx, dims): r = r * n + i
        return r
    from ..tensor import Pack
    return Pack(idx, dims)
def parts(i, dims):
    """the parts of an index into a merged dimension"""
    if ENV().concrete:
        out = []
        for n in reversed(dims): out.append(i % n); i //= n
        return tuple(out[::-1])
    from ..tensor import to_dim_index
    return to_dim_index(i, merged(dims)).idx

@register
class FSUConv2dPC(Geo, PCBase):
    path = "kernel.conv.FSUConv2dPC"
    props = ("C18",)
    callees = ("RNG", "BinGen", "BSGen", "Conv2dOutputShape")
    cycles = (16, 120)
    sorts = dict(PCBase.sorts, ev=("i", 0, 1))
    dtypes = {"ev": None}
    cfgs = [dict(mode=m, rng=r, bias=b, form=f) for m, r, b, f in (("unipolar", "Sobol", True, "pair"), ("Bipolar", "Sobol", True, "pair"), ("bipolar", "tc", False, "int"), ("Unipolar", "race", True, "int"), ("bipolar", "Race10", True, "default"), ("unipolar", "Sobol", False, "default"), ("bipolar", "Sobol", False, "int"))]
    def state_of(self, P): return dict(PCBase.state_of(self, P), ev="even_cycle_flag")
    def inv(self, P, st, i, nm): return eq(st["ev"].at(i), 1) if nm == "ev" and P.mode == "unipolar" else True
    def args(self, E, c):
        a, k = self.geo(E, c)
        w, b = self.weights(E, c, self.wd, self.bd)
        return a, dict(k, bias=c["bias"], weight_ext=w, bias_ext=b, hwcfg=self.hw(E, c), swcfg=self.swc(E))
    def parse(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", weight_ext=None, bias_ext=None, hwcfg=None, swcfg=None):
        P = self.params(bias, weight_ext, bias_ext, hwcfg, swcfg)
        self.geoP(P, in_channels, out_channels, kernel_size, stride, padding, dilation)
        P.win = (P.Ci,) + P.k
        return P
    def init(self, P):
        z = const(0, (1, P.O, merged(P.win)))
        return {"r1": z, "r0": z, "rb": const(0, (P.O,)), "ev": const(1, (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.nb = E.dims("B")[0]; self.image(E, P)
        return [E.tensor(E.bits("input", (P.nb, P.Ci) + P.H), E.torch.float)]
    def requires(self, P, ins): return bits_req(["input"], ins)
    def step(self, P, st, ins):
        x = ins[0]; nb = x.dims[0]; self.sized(P, x.dims[2:]); pos = (nb,) + P.o
        pad = sub(1, st["ev"].at((0,)))
        seen = lambda n, y, z, c, a, b: self.pix(P, x, n, c, y, z, a, b, pad)
        def at(i):
            n, o, y, z = i
            p = packed((n, y, z), pos)
            g = lambda r, j: r.bat((p, o, packed(j, P.win)))
            t = self.over(P, lambda c, a, b: ite(eq(seen(n, y, z, c, a, b), 1), self.gbit(P, g(st["r1"], (c, a, b)), P.W.at((o, c, a, b))), 0))
            if P.mode == "bipolar":
                t = add(t, self.over(P, lambda c, a, b: ite(eq(seen(n, y, z, c, a, b), 1), 0, sub(1, self.gbit(P, g(st["r1" if P.tc else "r0"], (c, a, b)), P.W.at((o, c, a, b)))))))
            if P.bias: t = add(t, self.gbit(P, st["rb"].at((o,)), P.B.at((o,))))
            return t
        d3 = (merged(pos), P.O, merged(P.win))
        bit_at = lambda i: seen(*(parts(i[0], pos) + parts(i[2], P.win)))
        nst = {"r1": A(d3, lambda i: add(st["r1"].bat(i), 1 if P.tc else bit_at(i))), "ev": st["ev"].map(lambda e: sub(1, e)) if P.mode == "bipolar" else st["ev"]}
        if P.mode == "bipolar" and not P.tc: nst["r0"] = A(d3, lambda i: add(st["r0"].bat(i), sub(1, bit_at(i))))
        if P.bias: nst["rb"] = st["rb"].map(lambda v: add(v, 1))
        return [(A((nb, P.O) + P.o, at), P.stype)], nst
    def post(self, P, st, ins, outs, nst):
        o = outs[0]
        return [("count within [0, entries]", o.dims, lambda i: andv(le(0, o.at(i)), le(o.at(i), add(mul(P.Ci, mul(*P.k)), 1 if P.bias else 0))))]

@register
class FSUConv2d(Geo, LayerBase):
    path = "kernel.conv.FSUConv2d"
    props = ("C18",)
    callees = ("FSUConv2dPC", "FSUAdd")
    pc = "FSUConv2dPC"
    cycles = (16, 120)
    cfgs = [dict(mode=m, rng=r, bias=b, form=f) for m, r, b, f in (("unipolar", "Sobol", True, "pair"), ("Bipolar", "Sobol", True, "int"), ("bipolar", "tc", False, "pair"))] + \
           [dict(mode="bipolar", rng="Sobol", bias=True, scale=True, form="int"), dict(mode="bipolar", rng="Sobol", bias=False, rt=True, form="default")]
    def args(self, E, c):
        a, k = self.geo(E, c)
        w, b = self.base().weights(E, c, self.wd, self.bd)
        return a, dict(k, bias=c["bias"], weight_ext=w, bias_ext=b, hwcfg=self.lhw(E, c), swcfg=self.base().swc(E))
    def parse(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", weight_ext=None, bias_ext=None, hwcfg=None, swcfg=None):
        P = NS(stype=swcfg["stype"], subs={})
        Q = self.base().parse(in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode, weight_ext, bias_ext, hwcfg, swcfg)
        P.mode, P.tc, P.scale = Q.mode, Q.tc, hwcfg["scale"]
        P.subs["PC"] = (self.base(), Q)
        P.subs["ACC"] = self.adder(P, add(mul(in_channels, mul(*Q.k)), 1 if bias else 0), hwcfg, swcfg)
        return P
    def bind(self, input, scale=None, entry=None): return [input, scale, entry]
    def pre(self, P): return REG["FSULinear"].pre(P)
    def inputs(self, E, P, c, t=0): return self.base().inputs(E, P.subs["PC"][1], c, t) + self.rt(E, c)
