from .common import *

@register
class RNG(Unit):
    path = "stream.gen.RNG"
    cycles = (3, 8)
    props = ("C01",)
    live_output = True
    cfgs = [dict(kind=k, rtype=r) for k, r in [("Sobol", "float"), ("sobol", "long"), ("RC", "float"), ("Race", "float"), ("tc", "long"), ("RACE10", "float"), ("TC10", "long"), ("sys", "float"), ("Sys", "long")]] + \
           [dict(kind="lfsr", rtype="float", width=w) for w in (3, 4)] + [dict(kind="LFSR", rtype="long", width=3)]
    def args(self, E, c):
        w = c["width"] if "width" in c else E.int("width", 0, None, cap=9)
        if E.concrete and "width" in c: w = E.int("width", 2, None, cap=7)
        d = E.int("dimr", 1, None, cap=7) if "sobol" in c["kind"].lower() or "rc" in c["kind"].lower() else 1
        return ({"width": w, "dimr": d, "rng": c["kind"]}, {"rtype": getattr(E.torch, c["rtype"])}), {}
    def parse(self, hwcfg=None, swcfg=None):
        hwcfg = hwcfg or {"width": 8, "dimr": 1, "rng": "Sobol"}; swcfg = swcfg or {"rtype": TT().float}
        return NS(width=hwcfg["width"], dimr=hwcfg["dimr"], kind=hwcfg["rng"].lower(), rtype=swcfg["rtype"])
    def seq(self, P):
        n = pow2(P.width)
        if P.kind == "lfsr":
            from ..storch import lfsr_bit
            def v(i):
                r = 0
                for j in range(P.width): r = add(r, mul(lfsr_bit(i[0], j), 2 ** (P.width - 1 - j)))
                return r
            if not native(P.width):
                from ..storch import lfsr_val
                return A((n,), lambda i: lfsr_val(i[0], n))
            return A((n,), lambda i: v(i) if native(i[0]) else _sel(i[0], n, v))
        return A((n,), lambda i: seqv(P.kind, P.dimr, n, i[0]))
    def step(self, P, st, ins):
        if ENV().concrete and P.kind in ("sys", "lfsr"): return [(None, P.rtype)], st     # random: see concrete_check
        return [(self.seq(P), P.rtype)], st
    def post(self, P, st, ins, outs, nst):
        n = pow2(P.width); o = outs[0]
        return [("every number lies in [0, 2^width-1]", (n,), lambda i: andv(le(0, o.at(i)), lt(o.at(i), n)))]
    def expose(self, P): return {"seq_len": pow2(P.width), "width": P.width}
    def concrete_check(self, E, cls, cfg):
        (hw, sw), _ = self.args(E, cfg)
        o = cls(hw, sw)()
        n = 2 ** hw["width"]
        if tuple(o.shape) != (n,): return "length %s for width %d" % (tuple(o.shape), hw["width"])
        if o.dtype is not sw["rtype"]: return "dtype %s" % o.dtype
        v = [norm(x) for x in o.double().tolist()]
        k = hw["rng"].lower()
        what = "%s %s: %s" % (hw, sw, v[:40])
        if k == "lfsr":
            if sorted(v[:-1]) != list(range(1, n)): return "not maximal length: " + what
        elif sorted(v) != list(range(n)): return "not a permutation: " + what
        if k in ("race", "tc") and v != list(range(n)): return "not ascending: " + what
        if k in ("race10", "tc10") and v != list(range(n))[::-1]: return "not descending: " + what
        if k in ("sobol", "rc") and v != [seqv(k, hw["dimr"], n, i) for i in range(n)]: return "not the requested Sobol dimension: " + what
        for bad in ("sobo", "raced", "", "lfsr2"):
            try: cls({"width": 3, "dimr": 1, "rng": bad}, {"rtype": E.torch.float})
            except AssertionError: continue
            return "generator name %r accepted" % bad
def _sel(i, n, v):
    r = v((n - 1,))
    for k in reversed(range(n - 1)): r = ite(eq(i, k), v((k,)), r)
    return r

@register
class RNGReject(Unit):
    """any generator name outside the listed ones is rejected"""
    path = "stream.gen.RNG"
    props = ("C01",)
    name = "RNG.reject"
    cfgs = [dict(kind=k) for k in ("halton", "", "sobol1", "tc100")]
    def custom(self, u, cfg, r, extra, new):
        from ..prove import load
        L = load(self, r.stubs); cls = L.name(self.path); r.sources |= set(L.sources)
        try: cls({"width": CTX.int("width", 0), "dimr": 1, "rng": cfg["kind"]}, {"rtype": TT().float})
        except AssertionError: CTX.prove(True, "unsupported name rejected"); return
        CTX.prove(False, "unsupported name rejected")
    def concrete_check(self, E, cls, cfg):
        try: cls({"width": 3, "dimr": 1, "rng": cfg["kind"]}, {"rtype": E.torch.float})
        except AssertionError: return None
        return "generator name %r accepted" % cfg["kind"]

@register
class BinGen(Unit):
    path = "stream.gen.BinGen"
    cycles = (3, 8)
    props = ("C02",)
    live_output = True
    cfgs = [dict(mode=m, rtype=r) for m in ("unipolar", "Bipolar") for r in ("float", "long", "int8")] + [dict(mode="bipolar", rtype="float", rank=1), dict(mode="unipolar", rtype="float", rank=4)]
    def args(self, E, c):
        dims = E.dims(*("ABCD"[:c.get("rank", 2)]))
        w = E.int("width", 0, 6 if c["rtype"] == "int8" else None, cap=12)
        src = E.reals("source", dims, 0 if c["mode"] == "unipolar" else -1, 1, den=64)
        return (E.param(src, E.torch.float), {"width": w, "mode": c["mode"]}, {"rtype": getattr(E.torch, c["rtype"])}), {}
    def parse(self, source, hwcfg=None, swcfg=None):
        hwcfg = hwcfg or {"width": 8, "mode": "bipolar"}; swcfg = swcfg or {"rtype": TT().float}
        return NS(src=ENV().of(source), width=hwcfg["width"], mode=hwcfg["mode"].lower(), rtype=swcfg["rtype"])
    def pre(self, P): return []
    def exact(self, P, x): return mul(x if P.mode == "unipolar" else divr(add(x, 1), 2), pow2(P.width))
    def step(self, P, st, ins):
        return [(P.src.map(lambda x: rnd(self.exact(P, x))), P.rtype)], st
    def post(self, P, st, ins, outs, nst):
        o = outs[0]
        return [("within half a step of the exact value", o.dims, lambda i: le(mul(2, absv(sub(o.at(i), self.exact(P, P.src.at(i))))), 1)),
                ("within [0, 2^width]", o.dims, lambda i: andv(le(0, o.at(i)), le(o.at(i), pow2(P.width))))]

@register
class BSGen(Unit):
    path = "stream.gen.BSGen"
    cycles = (3, 8)
    props = ("C03",)
    cfgs = [dict(stype=s, lane=l) for s in ("float", "int8") for l in (0, 1)] + [dict(stype="float", lane=1, rank=1, itype="float"), dict(stype="long", lane=2)]
    def args(self, E, c):
        dims = E.dims(*("ABCD"[:c.get("rank", 2)]))
        w = E.int("width", 0, None, cap=6); n = pow2(w)
        b = E.ints("binary", dims, 0, n); r = E.ints("rng", (n,), 0, sub(n, 1))
        return (E.param(b, E.torch.float), E.param(r, E.torch.float), {"stype": getattr(E.torch, c["stype"])}), {}
    def parse(self, binary, rng, swcfg=None):
        E = ENV()
        return NS(b=E.live(binary), r=E.live(rng), n=E.of(rng).dims[0], stype=(swcfg or {"stype": TT().float})["stype"])
    def inputs(self, E, P, c, t=0):
        dims = (1,) if c["lane"] == 0 else (P.b.dims if c["lane"] == 1 else ())
        return [E.tensor(E.ints("cycle", dims, 0, None, cap=200), getattr(E.torch, c.get("itype", "long")))]
    def requires(self, P, ins): return [("cycle is a nonnegative integer", ins[0].dims, lambda i: andv(le(0, ins[0].at(i)), eq(ins[0].at(i), floor(ins[0].at(i)))))]
    def step(self, P, st, ins):
        cy = ins[0]
        return [(pw(lambda b, c: bit(lt(P.r(mod(floor(c), P.n)), b)), P.b, cy), P.stype)], st
    def expose(self, P): return {"len": P.n}
    def concrete_check(self, E, cls, cfg):
        t = E.torch
        for n in (3, 5, 6, 7, 12, 24):
            try: cls(t.zeros(2), t.arange(n).float(), {"stype": t.float})
            except AssertionError: continue
            return "sequence of length %d accepted" % n

@register
class BSGenCount(Unit):
    """lemma over the contracts: a full window of a permutation sequence holds exactly 'value' ones"""
    path = "stream.gen.BSGen"
    props = ("C03",)
    name = "BSGen.count"
    cfgs = [{}]
    def custom(self, u, cfg, r, extra, new):
        n = CTX.int("n", 1); b = CTX.int("b", 0)
        CTX.assume(lt(b, n))
        perm = CTX.uf("perm", 1, "i", 0, None); inv = CTX.uf("inv", 1, "i", 0, None, fact=lambda i, v: lt(v, n))
        # perm is a bijection of 0..n-1: perm(k) = v  <=>  k = inv(v)
        def p(k): 
            v = perm((k,)); CTX.facts.append(Z(andv(lt(v, n), eq(inv((v,)), k)))); return v
        ib = inv((b,)); CTX.facts.append(Z(eq(perm((ib,)), b)))
        cnt = lambda v: Sum(n, lambda k: bit(lt(p(k), v)))
        s0, s1 = cnt(b), cnt(add(b, 1))
        sd = Sum(n, lambda k: sub(bit(lt(p(k), add(b, 1))), bit(lt(p(k), b))))
        CTX.facts.append(Z(eq(sd, sub(s1, s0))))                               # a sum of differences is the difference of sums
        one = Sum(n, lambda k: bit(eq(k, ib)))
        CTX.facts.append(Z(eq(one, 1)))                                        # exactly one index equals inv(b)
        CTX.prove(eq(s1, add(s0, 1)), "one more value, one more bit (induction step)", "lemma")
        CTX.prove(eq(Sum(n, lambda k: bit(lt(p(k), 0))), 0), "value 0 gives no ones (induction base)", "lemma")
        s = CTX.int("start", 0)
        k = CTX.int("k", 0)
        CTX.prove(implies(andv(lt(k, n)), iff(lt(k, b), lt(mod(k, n), b))), "ascending sequence: the leading cycles of the period", "lemma")
        mod(k, n)
        CTX.prove(eq(mod(add(k, n), n), mod(k, n)), "periodic with the sequence length", "lemma")

@register
class RawScale(Unit):
    path = "stream.gen.RawScale"
    cycles = (3, 8)
    props = ("C04",)
    tol = 1e-4
    cfgs = [dict(rank=2), dict(rank=1), dict(rank=4)]
    def args(self, E, c):
        return ({"quantile": E.scalar(E.real("q", Fraction(1, 64), 1, den=64)) if E.concrete else self._q()},), {}
    def _q(self):
        q = CTX.real("q"); CTX.assume(andv(lt(0, q), le(q, 1))); return q
    def parse(self, hwcfg=None): return NS(q=(hwcfg or {"quantile": 1})["quantile"])
    def bounds(self, P, raw):
        h = divr(norm(P.q) if native(P.q) else P.q, 2)
        return quant(raw, sub(Fraction(1, 2), h)), quant(raw, add(Fraction(1, 2), h))
    def inputs(self, E, P, c, t=0):
        dims = E.dims(*("ABCD"[:c["rank"]])) if not E.concrete else E.dims(*(["A", 5, "C", 2][:c["rank"]]))
        raw = E.reals("raw", dims)
        lo, hi = self.bounds(P, raw)
        E.assume(lt(0, maxv(absv(lo), absv(hi))))
        return [E.tensor(raw, E.torch.float)]
    def step(self, P, st, ins):
        raw = ins[0]; lo, hi = self.bounds(P, raw)
        return [(raw.map(lambda x: divr(clampv(x, lo, hi), maxv(absv(lo), absv(hi)))), TT().float)], st
    def post(self, P, st, ins, outs, nst):
        raw, o = ins[0], outs[0]
        lo, hi = self.bounds(P, raw)
        from ..prove import gidx
        j = gidx(raw.dims)
        return [("within [-1, 1]", o.dims, lambda i: andv(le(-1, o.at(i)), le(o.at(i), 1))),
                ("order preserved", o.dims, lambda i: implies(le(raw.at(i), raw.at(j)), le(o.at(i), o.at(j)))),
                ("the bound of larger magnitude maps to +1 or -1", o.dims, lambda i: andv(
                    implies(andv(eq(raw.at(i), hi), le(absv(lo), absv(hi))), eq(absv(o.at(i)), 1)),
                    implies(andv(eq(raw.at(i), lo), le(absv(hi), absv(lo))), eq(absv(o.at(i)), 1)))),
                ("zero and sign preserved inside the bounds", o.dims, lambda i: implies(andv(le(lo, raw.at(i)), le(raw.at(i), hi)),
                    andv(iff(lt(0, raw.at(i)), lt(0, o.at(i))), iff(lt(raw.at(i), 0), lt(o.at(i), 0)))))]
    def concrete_check(self, E, cls, cfg):
        for q in (0, -0.5, 1.0001, 2):
            try: cls({"quantile": q})
            except AssertionError: continue
            return "quantile %s accepted" % q

def lanes(c): return "ABCD"[:c.get("rank", 2)]

@register
class SkewedSync(Unit):
    path = "stream.shuffle.SkewedSync"
    props = ("C05",)
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(stype="int8", btype="int8", dmax=6), dict(stype="int8", btype="float"), dict(stype="float", btype="int8", dmax=6)]
    state = {"cnt": "cnt"}
    sorts = {"cnt": ("i", 0, lambda P: sub(pow2(P.depth), 1))}
    def args(self, E, c):
        return ({"depth": E.int("depth", 1, c.get("dmax"), cap=4)}, {"btype": getattr(E.torch, c.get("btype", "float")), "stype": getattr(E.torch, c.get("stype", "float"))}), {}
    def parse(self, hwcfg=None, swcfg=None):
        swcfg = swcfg or {"btype": TT().float, "stype": TT().float}
        return NS(depth=(hwcfg or {"depth": 2})["depth"], stype=swcfg["stype"], btype=swcfg["btype"])
    def init(self, P): return {"cnt": const(0, (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0 or not E.concrete and "dims" not in P: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("in_1", P.dims), P.stype), E.tensor(E.bits("in_2", P.dims), P.stype)]
    def requires(self, P, ins):
        return [("input %d is a bit" % (k + 1), x.dims, (lambda x: lambda i: orv(eq(x.at(i), 0), eq(x.at(i), 1)))(x)) for k, x in enumerate(ins)]
    def step(self, P, st, ins):
        a, b = ins; up = sub(pow2(P.depth), 1); c = st["cnt"].b(a.dims)
        hold = lambda i: andv(eq(a.at(i), 1), eq(b.at(i), 0), lt(c.at(i), up))
        rel = lambda i: andv(eq(a.at(i), 0), eq(b.at(i), 1), lt(0, c.at(i)))
        o = A(a.dims, lambda i: ite(hold(i), 0, ite(rel(i), 1, a.at(i))))
        n = A(a.dims, lambda i: ite(hold(i), add(c.at(i), 1), ite(rel(i), sub(c.at(i), 1), c.at(i))))
        return [(o, P.stype), (b, P.stype)], {"cnt": n}
    def post(self, P, st, ins, outs, nst):
        o, a, b = outs[0], ins[0], ins[1]
        return [("ones in minus ones out equals the change of the held count", o.dims, lambda i: eq(sub(a.at(i), o.at(i)), sub(nst["cnt"].at(i), st["cnt"].bat(i)))),
                ("output is a bit", o.dims, lambda i: orv(eq(o.at(i), 0), eq(o.at(i), 1)))]

@register
class Bi2Uni(Unit):
    path = "stream.shuffle.Bi2Uni"
    props = ("C06",)
    cfgs = [dict(), dict(rank=1), dict(rank=4), dict(stype="int8", btype="float"), dict(stype="float", btype="int8", dmax=7)]
    state = {"acc": "accumulator"}
    sorts = {"acc": ("i", lambda P: sub(0, pow2(sub(P.depth, 2))), 0)}
    lo = 2
    def args(self, E, c):
        return ({"depth": E.int("depth", self.lo, c.get("dmax"), cap=5)}, {"btype": getattr(E.torch, c.get("btype", "float")), "stype": getattr(E.torch, c.get("stype", "float"))}), {}
    def parse(self, hwcfg=None, swcfg=None):
        swcfg = swcfg or {"btype": TT().float, "stype": TT().float}
        return NS(depth=(hwcfg or {"depth": self.dflt})["depth"], stype=swcfg["stype"], btype=swcfg["btype"])
    dflt = 3
    def init(self, P): return {"acc": const(0, (1,))}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.dims = E.dims(*lanes(c))
        return [E.tensor(E.bits("input", P.dims), P.stype)]
    def pre(self, P): return [("depth >= %d" % self.lo, le(self.lo, P.depth))]
    def requires(self, P, ins):
        return [("input is a bit", ins[0].dims, lambda i: orv(eq(ins[0].at(i), 0), eq(ins[0].at(i), 1)))]
    def delta(self, x): return sub(mul(2, x), 1)
    thr = 1
    def step(self, P, st, ins):
        x = ins[0]; m = pow2(sub(P.depth, 2)); acc = st["acc"].b(x.dims)
        a = A(x.dims, lambda i: clampv(add(acc.at(i), self.delta(x.at(i))), sub(0, m), m))
        o = A(x.dims, lambda i: bit(le(self.thr, a.at(i))))
        return [(o, P.stype)], {"acc": A(x.dims, lambda i: sub(a.at(i), mul(self.thr, o.at(i))))}
    def post(self, P, st, ins, outs, nst):
        x, o, acc = ins[0], outs[0], st["acc"]
        return [("ones emitted never fall below the signed input sum (total stays <= 0)", o.dims, lambda i: andv(le(nst["acc"].at(i), 0), le(sub(add(nst["acc"].at(i), o.at(i)), acc.bat(i)), add(1, sub(mul(2, x.at(i)), 1))))),
                ("no saturation: emitted ones plus total track the signed input", o.dims, lambda i: implies(le(sub(0, pow2(sub(P.depth, 2))), sub(acc.bat(i), 1)),
                    eq(add(o.at(i), nst["acc"].at(i)), add(acc.bat(i), sub(mul(2, x.at(i)), 1)))))]

@register
class Uni2Bi(Bi2Uni):
    path = "stream.shuffle.Uni2Bi"
    props = ("C06",)
    sorts = {"acc": ("i", 0, 1)}
    lo = 4
    dflt = 4
    thr = 2
    def delta(self, x): return add(x, 1)
    def post(self, P, st, ins, outs, nst):
        x, o, acc = ins[0], outs[0], st["acc"]
        return [("2*emitted + remainder = cycles + ones received, remainder in {0,1}", o.dims, lambda i: andv(
            eq(add(mul(2, o.at(i)), nst["acc"].at(i)), add(acc.bat(i), add(1, x.at(i)))), le(0, nst["acc"].at(i)), le(nst["acc"].at(i), 1)))]
