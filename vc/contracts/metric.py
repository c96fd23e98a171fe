from .common import *
from .stream import lanes
from .kernel import bits_req, isb

@register
class ProgError(Unit):
    path = "metric.metric.ProgError"
    props = ("C29",)
    cfgs = [dict(mode="unipolar"), dict(mode="Bipolar"), dict(mode="bipolar", rank=1, stype="int8"), dict(mode="unipolar", rank=4), dict(mode="bipolar", default=True)]
    state = {"n": "cycle", "ones": "one_cnt"}
    sorts = {"n": ("i", 0, None), "ones": ("i", 0, None)}
    free = ("pp", "pe")
    live_output = True
    tol = 1e-5
    outnames = ("progressive value", "progressive error")
    assumes = ("the monitored values are bits; the metric is read after at least one monitored cycle",)
    def inv(self, P, st, i, nm): return le(st["ones"].bat(i), st["n"].at((0,))) if nm == "ones" else True
    def hw(self, E, c): 
        if E.concrete: s = E.choose(1, 2, 4, 0.5)
        else: s = CTX.real("scale"); CTX.assume(lt(0, s))
        return {"scale": s, "mode": c["mode"]}
    def args(self, E, c):
        src = E.reals("source", E.dims(*lanes(c)))
        if c.get("default"): return (E.tensor(src, E.torch.float),), {}
        return (E.tensor(src, E.torch.float), self.hw(E, c)), {}
    def parse(self, source, hwcfg=None):
        h = hwcfg or {"scale": 1, "mode": "bipolar"}
        return NS(src=ENV().of(source), scale=norm(h["scale"]) if native(h["scale"]) else h["scale"], mode=h["mode"].lower(), dims=tuple(source.shape) if ENV().concrete else source.dims)
    def init(self, P): return {"n": const(0, (1,)), "ones": const(0, (1,))}
    def inputs(self, E, P, c, t=0): return [E.tensor(E.bits("bit", P.dims), getattr(E.torch, c.get("stype", "float")))]
    def requires(self, P, ins): return bits_req(["input"], ins)
    def call(self, obj, ins):
        obj.Monitor(*ins)
        obj()                       # reading twice is reading once
        return obj()
    def vals(self, P, ones, n):
        pp = lambda i: divr(ones.at(i), n) if P.mode == "unipolar" else sub(divr(mul(2, ones.at(i)), n), 1)
        return A(P.dims, pp), A(P.dims, lambda i: sub(pp(i), clampv(divr(P.src.at(i), P.scale), -1, 1)))
    def step(self, P, st, ins):
        n = add(st["n"].at((0,)), 1)
        ones = A(P.dims, lambda i: add(st["ones"].bat(i), ins[0].at(i)))
        pp, pe = self.vals(P, ones, n)
        return [(pp, None), (pe, None)], {"n": const(n, (1,)), "ones": ones}
    def post(self, P, st, ins, outs, nst):
        lo = 0 if P.mode == "unipolar" else -1
        return [("progressive value within range", P.dims, lambda i: andv(le(lo, outs[0].at(i)), le(outs[0].at(i), 1)))]

@register
class Stability(Unit):
    path = "metric.metric.Stability"
    props = ("C31",)
    cfgs = [dict(mode="unipolar"), dict(mode="Bipolar"), dict(mode="bipolar", rank=1, stype="int8"), dict(mode="unipolar", rank=4)]
    state = {"cts": "cycle_to_stable", "n": "progerr.cycle", "ones": "progerr.one_cnt"}
    sorts = {"n": ("i", 0, None), "ones": ("i", 0, None), "cts": ("i", 0, None)}
    free = ("pe", "cycle", "stability", "progerr.pp", "progerr.pe")
    live_output = True
    tol = 1e-5
    outnames = ("stability", "cycle to stable")
    assumes = ProgError.assumes
    def inv(self, P, st, i, nm):
        return le(st[nm].bat(i), st["n"].at((0,))) if nm in ("ones", "cts") else True
    def args(self, E, c):
        src = E.reals("source", E.dims(*lanes(c)), *((0, 1) if c["mode"] == "unipolar" else (-1, 1)) if E.concrete else ())
        h = dict(REG["ProgError"].hw(E, c))
        h["threshold"] = E.scalar(norm(Fraction(E.rnd.choice([1, 3, 10, 20, 31, 51, 100, 200]), 256))) if E.concrete else CTX.real("threshold")
        return (E.tensor(src, E.torch.float), h), {}
    def parse(self, source, hwcfg=None):
        h = hwcfg or {"scale": 1, "mode": "bipolar", "threshold": 0.05}
        P = REG["ProgError"].parse(source, h); P.thr = norm(h["threshold"]) if native(h["threshold"]) else h["threshold"]
        return P
    def init(self, P): return {"n": const(0, (1,)), "ones": const(0, (1,)), "cts": const(0, P.dims)}
    inputs = ProgError.inputs
    requires = ProgError.requires
    def call(self, obj, ins):
        obj.Monitor(*ins)
        obj()
        return [obj(), obj.cycle_to_stable]
    def step(self, P, st, ins):
        n = add(st["n"].at((0,)), 1)
        ones = A(P.dims, lambda i: add(st["ones"].bat(i), ins[0].at(i)))
        _, pe = REG["ProgError"].vals(P, ones, n)
        cts = A(P.dims, lambda i: ite(lt(P.thr, absv(pe.at(i))), n, st["cts"].at(i)))
        out = A(P.dims, lambda i: sub(1, divr(maxv(1, cts.at(i)), n)))
        return [(out, None), (cts, None)], {"n": const(n, (1,)), "ones": ones, "cts": cts}
    def post(self, P, st, ins, outs, nst):
        n = nst["n"].at((0,)); o = outs[0]
        return [("stability in [0, 1 - 1/n]", P.dims, lambda i: andv(le(0, o.at(i)), le(o.at(i), sub(1, divr(1, n))))),
                ("a lane outside the threshold now has stability 0", P.dims, lambda i: implies(eq(nst["cts"].at(i), n), eq(o.at(i), 0)))]

@register
class Correlation(Unit):
    path = "metric.metric.Correlation"
    props = ("C30",)
    cfgs = [dict(two=True), dict(two=False), dict(two=True, rank=1, stype="int8"), dict(two=False, rank=4, stype="int8")]
    state = {"d": "paired_00_d", "c": "paired_01_c", "b": "paired_10_b", "a": "paired_11_a", "n": "len", "last": "in_1_d"}
    sorts = {k: ("i", 0, None) for k in "abcdn"} | {"last": ("i", 0, 1)}
    live_output = True
    tol = 1e-5
    outnames = ("correlation", "count 11", "count 10", "count 01", "count 00", "cycles")
    assumes = ("the monitored values are bits",)
    def inv(self, P, st, i, nm):
        return eq(add(add(st["a"].bat(i), st["b"].bat(i)), add(st["c"].bat(i), st["d"].bat(i))), st["n"].at((0,))) if nm in "abcd" else True
    def init(self, P): return {k: const(0, (1,)) for k in self.state}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        ty = getattr(E.torch, c.get("stype", "float"))
        return [E.tensor(E.bits("in1", P.dims), ty)] + ([E.tensor(E.bits("in2", P.dims), ty)] if c["two"] else [])
    def bind(self, in_1, in_2=None): return [in_1] + ([in_2] if in_2 is not None else [])
    def requires(self, P, ins): return bits_req(["in1", "in2"], ins)
    def call(self, obj, ins):
        obj.Monitor(*ins)
        obj()
        return [obj(), obj.paired_11_a, obj.paired_10_b, obj.paired_01_c, obj.paired_00_d, obj.len]
    @staticmethod
    def scc(a, b, c, d, n):
        x = sub(mul(a, d), mul(b, c)); ab, ac = add(a, b), add(a, c)
        return ite(lt(0, x), divr(x, maxv(sub(mul(minv(ab, ac), n), mul(ab, ac)), 1)), divr(x, maxv(sub(mul(ab, ac), mul(maxv(sub(a, d), 0), n)), 1)))
    def step(self, P, st, ins):
        x = ins[0]; y = ins[1] if len(ins) > 1 else st["last"].b(x.dims)
        N = {}
        for k, p, q in (("a", 1, 1), ("b", 1, 0), ("c", 0, 1), ("d", 0, 0)):
            N[k] = A(x.dims, (lambda k, p, q: lambda i: add(st[k].bat(i), bit(andv(eq(x.at(i), p), eq(y.at(i), q)))))(k, p, q))
        n = add(st["n"].at((0,)), 1)
        N["n"] = const(n, (1,)); N["last"] = st["last"] if len(ins) > 1 else x
        o = A(x.dims, lambda i: self.scc(*[N[k].at(i) for k in "abcd"], n))
        return [(o, None), (N["a"], None), (N["b"], None), (N["c"], None), (N["d"], None), (N["n"], None)], N

@register
class CorrelationSCC(Unit):
    """lemma: the SCC formula of any four counts"""
    path = "metric.metric.Correlation"
    props = ("C30",)
    name = "Correlation.scc"
    def custom(self, u, cfg, r, extra, new):
        a, b, c, d = [CTX.int(x, 0) for x in "abcd"]
        n = add(add(a, b), add(c, d))
        f = REG["Correlation"].scc
        x = sub(mul(a, d), mul(b, c))
        CTX.prove(implies(andv(lt(0, x), le(b, c)), eq(sub(mul(add(a, b), n), mul(add(a, b), add(a, c))), mul(add(a, b), add(b, d)))), "first denominator, b <= c", "lemma")
        CTX.prove(implies(andv(lt(0, x), lt(c, b)), eq(sub(mul(add(a, c), n), mul(add(a, b), add(a, c))), mul(add(a, c), add(c, d)))), "first denominator, c < b", "lemma")
        CTX.prove(implies(le(d, a), eq(sub(mul(add(a, b), add(a, c)), mul(sub(a, d), n)), mul(add(b, d), add(c, d)))), "second denominator, d <= a", "lemma")
        # den >= |num| in every case, from the factored forms
        pos = [mul(p, q) for p, q in ((a, b), (a, c), (a, d), (b, c), (b, d), (c, d), (a, a), (b, b), (c, c), (d, d))]
        for p in pos: CTX.prove(le(0, p), "products of counts are nonnegative", "lemma"); CTX.assume(le(0, p))
        den1 = ite(le(b, c), mul(add(a, b), add(b, d)), mul(add(a, c), add(c, d)))
        den2 = ite(le(d, a), mul(add(b, d), add(c, d)), mul(add(a, b), add(a, c)))
        CTX.prove(implies(lt(0, x), le(x, den1)), "numerator at most the first denominator", "lemma")
        CTX.prove(implies(le(x, 0), le(sub(0, x), den2)), "numerator at least minus the second denominator", "lemma")
        X, D = CTX.int("num"), CTX.int("den")
        CTX.prove(implies(andv(le(X, D), lt(0, X)), andv(le(0, divr(X, maxv(D, 1))), le(divr(X, maxv(D, 1)), 1))), "0 < num <= den: within [0,1]", "lemma")
        CTX.prove(implies(andv(le(sub(0, X), D), le(X, 0)), andv(le(-1, divr(X, maxv(D, 1))), le(divr(X, maxv(D, 1)), 0))), "-den <= num <= 0: within [-1,0]", "lemma")
        CTX.prove(implies(andv(lt(0, a), lt(0, d)), eq(f(a, 0, 0, d, add(a, d)), 1)), "identical streams with both values: +1", "lemma")
        CTX.prove(implies(andv(lt(0, b), lt(0, c)), eq(f(0, b, c, 0, add(b, c)), -1)), "complementary streams with both values: -1", "lemma")
        CTX.prove(eq(f(a, b, c, d, n), f(a, c, b, d, n)), "symmetric", "lemma")
