import math
from .common import *
from .kernel import bits_req
from .utils import fixed

def sigm(v):
    if ENV().concrete and native(v): return norm(1 / (1 + math.exp(-float(v))))
    from ..storch import sigmoidv
    return sigmoidv(v)
def tanh_(v):
    if ENV().concrete and native(v): return norm(math.tanh(float(v)))
    from ..storch import tanhv
    return tanhv(v)

# ------------------------------------------------------------------ binary gated recurrent cells
CELLC = [dict(), dict(bias=False), dict(hx=False), dict(hard=False), dict(hard=False, bias=False, hx=False)]
@register
class HardMGUCell(Unit):
    path = "kernel.rnn.HardMGUCell"
    props = ("C27",)
    callees = ("TruncatedNormal", "HUBHardtanh", "HUBHardsigmoid")
    cfgs = CELLC
    twin = False
    tol = 2e-5
    cycles = (4, 12)
    free = ("fg_ug_in", "fg_in", "fg", "fg_hx", "ng_ug_in", "ng", "fg_ng", "fg_ng_inv")
    outnames = ("new hidden state",)
    den = 4
    def state_of(self, P): return {n: n for n in (("weight_f", "weight_n", "bias_f", "bias_n") if P.bias else ("weight_f", "weight_n"))}
    def extra(self, E, c): return {}
    def args(self, E, c):
        self._obj = None; self._c = c
        i, h = E.dims("I", "H")
        k = {}
        if not c.get("bias", True): k["bias"] = False
        if not c.get("hard", True): k["hard"] = False
        k.update(self.extra(E, c))
        return (i, h), k
    def parse(self, input_size, hidden_size, bias=True, hard=True): return NS(i=input_size, h=hidden_size, bias=bias, hard=hard)
    def make(self, target, args, kw, name):
        o = target(*args, **kw); E = ENV()
        if self._obj is None: self._obj = o
        if E.concrete:
            if self._obj is not o: return o
            for n in ("weight_f", "weight_n", "bias_f", "bias_n"):
                p = getattr(o, n)
                if p is not None: p.data = E.tensor(E.reals(n, tuple(p.shape), -2, 2, den=self.den), E.torch.float)
        return o
    def init(self, P): return {n: ENV().of(getattr(self._obj, n)) for n in self.state_of(P)}
    def inputs(self, E, P, c, t=0):
        if t == 0: P.b = E.dims("B")[0]
        x = E.tensor(E.reals("input", (P.b, P.i), -2, 2, den=self.den) if E.concrete else E.reals("input", (P.b, P.i)), E.torch.float)
        hx = None if not c.get("hx", True) else E.tensor(E.reals("hx", (P.b, P.h), -2, 2, den=self.den) if E.concrete else E.reals("hx", (P.b, P.h)), E.torch.float)
        return [x, hx]
    def q(self, P, v): return v
    def sig(self, P, v): return clampv(divr(add(mul(3, v), 3), 6), 0, 1) if P.hard else sigm(v)
    def tau(self, P, v): return clampv(v, -1, 1) if P.hard else tanh_(v)
    def lin(self, P, first, x, W, b, dims):
        """rows of W applied to the joined row [first, x]"""
        q = lambda v: self.q(P, v)
        return A(dims, lambda i: add(Sum(add(P.h, P.i), lambda j: mul(ite(lt(j, P.h), first.at((i[0], j)), q(x.at((i[0], sub(j, P.h))))) if not native(j) else (first.at((i[0], j)) if native(P.h) and j < P.h else q(x.at((i[0], sub(j, P.h))))),
                                                                             q(W.at((i[1], j))))), q(b.at((i[1],))) if b is not None else 0))
    def step(self, P, st, ins):
        x = ins[0]; q = lambda v: self.q(P, v)
        dims = (x.dims[0], P.h)
        h = ins[1] if ins[1] is not None else const(0, dims)
        h = A(dims, lambda i, h=h: q(h.at(i)))
        # forget gate
        a = self.lin(P, h, x, st["weight_f"], st.get("bias_f"), dims)
        f = A(dims, lambda i: q(self.sig(P, q(clampv(a.at(i), -1, 1)))))
        fh = A(dims, lambda i: q(mul(f.at(i), h.at(i))))
        # new gate
        z = self.lin(P, fh, x, st["weight_n"], st.get("bias_n"), dims)
        n = A(dims, lambda i: q(self.tau(P, q(z.at(i)))))
        out = A(dims, lambda i: clampv(add(sub(n.at(i), q(mul(f.at(i), n.at(i)))), fh.at(i)), -1, 1))
        return [(out, TT().float)], st
    def post(self, P, st, ins, outs, nst):
        o = outs[0]
        return [("new hidden state within [-1, 1]", o.dims, lambda i: andv(le(-1, o.at(i)), le(o.at(i), 1)))]

@register
class HardMGUCellFXP(HardMGUCell):
    path = "kernel.rnn.HardMGUCellFXP"
    callees = ("TruncatedNormal", "HUBHardtanh", "HUBHardsigmoid", "Round")
    den = 8
    def extra(self, E, c): return {} if c.get("default") else {"intwidth": E.int("intwidth", 0, None, cap=3), "fracwidth": E.int("fracwidth", 0, None, cap=4)}
    cfgs = CELLC + [dict(default=True)]
    def parse(self, input_size, hidden_size, bias=True, hard=True, intwidth=3, fracwidth=4):
        return NS(i=input_size, h=hidden_size, bias=bias, hard=hard, iw=intwidth, fw=fracwidth)
    def q(self, P, v): return fixed(v, P.iw, P.fw)

@register
class HardMGUInit(HardMGUCell):
    """fresh cells: every weight and bias within 2/sqrt(hidden size)"""
    props = ("C26",)
    stateful = False
    cfgs = [dict(), dict(bias=False)]
    def make(self, target, args, kw, name):
        o = target(*args, **kw)
        if self._obj is None: self._obj = o
        return o
    def post_init(self, P, obj):
        out = []
        h2 = (lambda v: le(mul(v, mul(v, P.h)), 4))
        for n in self.state_of(P):
            a = ENV().of(getattr(obj, n))
            want = (P.h, add(P.h, P.i)) if n[0] == "w" else (P.h,)
            out.append(("shape of %s" % n, (), (lambda a, want: lambda i: len(a.dims) == len(want) and andv(*[eq(x, y) for x, y in zip(a.dims, want)]))(a, want)))
            out.append(("fresh %s within 2/sqrt(hidden size)" % n, a.dims, (lambda a: lambda i: h2(a.at(i)))(a)))
        return out
    def concrete_check(self, E, cls, cfg):
        (i, h), k = self.args(E, cfg)
        h = E.choose(1, 2, 4, 9, 64); i = E.choose(1, 3, 40)
        o = cls(i, h, **k)
        for n, p in o.named_parameters():
            want = (h, h + i) if "weight" in n else (h,)
            if tuple(p.shape) != want: return "%s has shape %s for input size %d, hidden size %d" % (n, tuple(p.shape), i, h)
            if float(p.detach().abs().max()) > 2 / math.sqrt(h) + 1e-5: return "fresh %s reaches %s for hidden size %d" % (n, float(p.detach().abs().max()), h)
@register
class HardMGUInitFXP(HardMGUInit):
    path = "kernel.rnn.HardMGUCellFXP"
    callees = ("TruncatedNormal", "HUBHardtanh", "HUBHardsigmoid", "Round")
    parse = HardMGUCellFXP.parse
    q = HardMGUCellFXP.q
    extra = HardMGUCellFXP.extra

# ------------------------------------------------------------------ streaming gated recurrent cell
@register
class FSUMGUCell(Composite):
    path = "kernel.rnn.FSUMGUCell"
    props = ("C28",)
    callees = ("FSULinear", "FSUAdd", "FSUMul")
    cycles = (12, 60)
    outnames = ("hidden bit",)
    free = HardMGUCell.free
    cfgs = [dict(rng="Sobol", bias=True), dict(rng="Sobol", bias=False), dict(rng="RC", bias=True)]
    def wb(self, E, c, i, h):
        r = lambda n, d: E.param(E.reals(n, d, -1, 1), E.torch.float)
        k = dict(bias=c["bias"], weight_ext_f=r("weight_f", (h, add(h, i))), weight_ext_n=r("weight_n", (h, add(h, i))))
        if c["bias"]: k.update(bias_ext_f=r("bias_f", (h,)), bias_ext_n=r("bias_n", (h,)))
        return k
    def hw(self, E, c):
        return {"width": E.int("width", 0, None, cap=4), "mode": "Bipolar", "depth": E.int("depth", 2, None, cap=8), "depth_ismul": E.int("depth_ismul", 0, None, cap=4), "rng": c["rng"], "dimr": E.int("dimr", 1, None, cap=4) if c["rng"] == "Sobol" else 1}
    def args(self, E, c):
        i, h, b = E.dims("I", "H", "B")
        self._b = b
        k = self.wb(E, c, i, h)
        return (i, h), dict(k, hx_buffer=E.param(E.reals("hx_buffer", (b, h), -1, 1), E.torch.float), hwcfg=self.hw(E, c), swcfg=REG["FSULinearPC"].swc(E))
    def parse(self, input_size, hidden_size, bias=True, weight_ext_f=None, bias_ext_f=None, weight_ext_n=None, bias_ext_n=None, hx_buffer=None, hwcfg=None, swcfg=None):
        h, s = hwcfg, swcfg
        P = NS(i=input_size, h=hidden_size, stype=s["stype"], subs={})
        m = h["mode"].lower(); r = h["rng"].lower()
        L = {"width": h["width"], "mode": m, "scale": 1, "depth": h["depth"], "rng": r, "dimr": h["dimr"]}
        for a, w, b in (("fg_ug_tanh", weight_ext_f, bias_ext_f), ("ng_ug_tanh", weight_ext_n, bias_ext_n)):
            P.subs[a] = (REG["FSULinear"], REG["FSULinear"].parse(add(hidden_size, input_size), hidden_size, bias, w, b, L, s))
        P.subs["fg_sigmoid"] = (REG["FSUAdd"], REG["FSUAdd"].parse({"mode": m, "scale": None, "dima": 0, "depth": h["depth"], "entry": None}, s))
        M = {"width": h["width"], "mode": m, "static": True, "rng": r, "dimr": h["dimr"]}
        P.subs["fg_hx_mul"] = (REG["FSUMul"], REG["FSUMul"].parse(hx_buffer, M, s))
        P.subs["fg_ng_mul"] = (REG["FSUMul"], REG["FSUMul"].parse(None, dict(M, static=False, width=h["depth_ismul"]), s))
        P.subs["hy_add"] = (REG["FSUAdd"], REG["FSUAdd"].parse({"mode": m, "scale": 1, "dima": 0, "depth": h["depth"], "entry": 3}, s))
        return P
    def inputs(self, E, P, c, t=0):
        return [E.tensor(E.bits("input", (self._b, P.i)), P.stype), E.tensor(E.bits("hx", (self._b, P.h)), P.stype)]
    def requires(self, P, ins): return bits_req(["input", "hx"], ins)
    def joined(self, P, h, x):
        n = add(P.h, P.i)
        def f(i):
            b, j = i
            if native(j): return h.at((b, j)) if native(P.h) and j < P.h else x.at((b, sub(j, P.h)))
            return ite(lt(j, P.h), h.at((b, j)), x.at((b, sub(j, P.h))))
        return A((x.dims[0], n), f)
    def stack(self, *xs):
        d = xs[0].dims
        def f(i):
            k = i[0]
            if native(k): return xs[k].at(i[1:])
            r = xs[-1].at(i[1:])
            for n in reversed(range(len(xs) - 1)): r = ite(eq(k, n), xs[n].at(i[1:]), r)
            return r
        return A((len(xs),) + tuple(d), f)
    def step(self, P, st, ins):
        x, h = ins; nst = dict(st)
        R = lambda a, *v: self.run(P, st, nst, a, *v)
        f = R("fg_sigmoid", self.stack(*(lambda u: (u, const(1, u.dims)))(R("fg_ug_tanh", self.joined(P, h, x), None, None))), None, None)
        fh = R("fg_hx_mul", f, None)
        n = R("ng_ug_tanh", self.joined(P, fh, x), None, None)
        fn = R("fg_ng_mul", f, n)
        o = R("hy_add", self.stack(n, fn.map(lambda v: sub(1, v)), fh), None, None)
        return [(o, P.stype)], nst
    def post(self, P, st, ins, outs, nst): return [("output is a bit", outs[0].dims, lambda i: orv(eq(outs[0].at(i), 0), eq(outs[0].at(i), 1)))]

@register
class FSUMGUReject(Unit):
    """inputs whose sizes do not fit are rejected"""
    path = "kernel.rnn.FSUMGUCell"
    props = ("C28",)
    name = "FSUMGUCell.reject"
    callees = FSUMGUCell.callees
    stateful = False
    cfgs = [dict(rng="Sobol", bias=True, bad=b) for b in ("input", "batch", "hidden")]
    def custom(self, u, cfg, r, extra, new):
        from ..prove import load
        E = ENV(); F = REG["FSUMGUCell"]
        L = load(self, r.stubs); cls = L.name(self.path); r.sources |= set(L.sources)
        a, k = F.args(E, cfg)
        obj = cls(*a, **k)
        i, h, b = a[0], a[1], F._b
        d = CTX.int("other", 1)
        CTX.assume(ne(d, {"input": i, "batch": b, "hidden": h}[cfg["bad"]]))
        x = E.tensor(E.bits("input", (b, d if cfg["bad"] == "input" else i)), E.torch.float)
        y = E.tensor(E.bits("hx", (d if cfg["bad"] == "batch" else b, d if cfg["bad"] == "hidden" else h)), E.torch.float)
        if not CTX.cover("sizes differ"): raise Unsupported("cover check undecided")
        try: obj(x, y)
        except RuntimeError: CTX.prove(True, "sizes that do not fit are rejected"); return
        CTX.prove(False, "sizes that do not fit are rejected")
    def concrete_check(self, E, cls, cfg):
        F = REG["FSUMGUCell"]
        a, k = F.args(E, cfg); obj = cls(*a, **k); t = E.torch
        b, d = F._b, E.choose(1, 2, 3, 4, 5)
        if d == {"input": a[0], "batch": b, "hidden": a[1]}[cfg["bad"]]: raise Infeasible()
        try: obj(t.zeros(b, d if cfg["bad"] == "input" else a[0]), t.zeros(d if cfg["bad"] == "batch" else b, d if cfg["bad"] == "hidden" else a[1]))
        except RuntimeError: return None
        return "%s of size %d accepted" % (cfg["bad"], d)

@register
class HUBMGUCell(Unit):
    """2^width cycles of the streaming cell on generated streams. The streaming cell is an opaque machine here: the k-th bit it
    returns is OUT(k), and every call is checked to receive the k-th bits of the input and hidden streams."""
    path = "kernel.rnn.HUBMGUCell"
    props = ("C28",)
    callees = ("FSUMGUCell", "BinGen", "RNG", "BSGen", "ProgError")
    cfgs = [dict(rng="Sobol", bias=True), dict(rng="Sobol", bias=False, hx=False), dict(rng="RC", bias=True)]
    cycles = (2, 4)
    tol = 1e-5
    twin = False
    outnames = ("new hidden state",)
    assumes = ("the loop of the hybrid cell is verified with the loop contract: after k cycles the streaming cell and the error metric have seen k cycles",)
    def args(self, E, c):
        i, h = E.dims("I", "H")
        w = REG["FSUMGUCell"].hw(E, c)
        if E.concrete: w["width"] = min(w["width"], 9 if E.stretch else 3)
        return (i, h), dict(REG["FSUMGUCell"].wb(E, c, i, h), hwcfg=w)
    def parse(self, input_size, hidden_size, bias=True, weight_ext_f=None, bias_ext_f=None, weight_ext_n=None, bias_ext_n=None, hwcfg=None):
        return NS(i=input_size, h=hidden_size, bias=bias, ext=(weight_ext_f, bias_ext_f, weight_ext_n, bias_ext_n), hw=dict(hwcfg), n=pow2(hwcfg["width"]),
                  bin=NS(mode="bipolar", width=hwcfg["width"]), seq=seqA(hwcfg["rng"], hwcfg["dimr"], hwcfg["width"]))
    def inputs(self, E, P, c, t=0):
        b = E.dims("B")[0]
        x = E.tensor(E.reals("input", (b, P.i), -1, 1), E.torch.float)
        h = E.tensor(E.reals("hx", (b, P.h), -1, 1), E.torch.float) if c.get("hx", True) else None
        P.x = E.of(x); P.b = b
        P.hx = E.of(h) if h is not None else const(0, (b, P.h))
        self.P, self.cells, self.pes = P, [], []
        return [x, h]
    def stream(self, P, a, k): return a.map(lambda v: bit(lt(P.seq.at((k,)), rnd(REG["BinGen"].exact(P.bin, v)))))
    def step(self, P, st, ins):
        E = ENV(); dims = (P.b, P.h)
        if E.concrete:
            F = REG["FSUMGUCell"]; t = E.torch
            s = {"btype": t.float, "rtype": t.float, "stype": t.float}
            hb = E.tensor(P.hx, t.float)
            Q = F.parse(P.i, P.h, P.bias, P.ext[0], P.ext[1], P.ext[2], P.ext[3], hb, P.hw, s)
            q, ones = F.init(Q), {}
            for k in range(P.n):
                outs, q = F.step(Q, q, [self.stream(P, P.x, k), self.stream(P, P.hx, k)])
                o = outs[0][0].force(); q = {n: v.force() if isinstance(v, A) else v for n, v in q.items()}
                for i in itertools.product(*[range(d) for d in dims]): ones[i] = ones.get(i, 0) + o.at(i)
            cnt = lambda i: ones[tuple(i)]
        else:
            if len(self.cells) != 1: raise Unsupported("the hybrid cell builds %d streaming cells" % len(self.cells))
            cnt = lambda i: Sum(P.n, lambda k: self.cells[0].out((k,) + tuple(i)))
        self.nums = A(dims, cnt)
        return [(A(dims, lambda i: sub(divr(mul(2, cnt(i)), P.n), 1)), None)], st
    def post(self, P, st, ins, outs, nst):
        o = outs[0]
        def rng(i):
            n = self.nums.at(i)
            return andv(le(0, n), le(n, P.n))
        return [("between no ones and all ones", o.dims, rng),
                ("hence within [-1, 1]", (), lambda i: True if ENV().concrete else (lambda n, m: implies(andv(le(0, n), le(n, m)), andv(le(-1, sub(divr(mul(2, n), m), 1)), le(sub(divr(mul(2, n), m), 1), 1))))(CTX.int("ones"), P.n))]
    # -------------------------------------------------------------- opaque callees and the loop contract
    def stub_for(self, callee, log):
        if callee not in ("FSUMGUCell", "ProgError"): return None
        from .. import storch, tensor as T
        from ..prove import same, obs, gidx, dims_goal
        U_ = self
        def put(o, n, v): o.__dict__[n] = v
        class Cell(storch.Module):
            __module__ = "stub"
            def __init__(s, input_size, hidden_size, bias=True, weight_ext_f=None, bias_ext_f=None, weight_ext_n=None, bias_ext_n=None, hx_buffer=None, hwcfg=None, swcfg=None):
                storch.Module.__init__(s); log.add(callee)
                P = U_.P; d = lambda c, w: CTX.prove(c, "precondition of the streaming cell: " + w, "pre")
                d(eq(input_size, P.i), "input size"); d(eq(hidden_size, P.h), "hidden size"); d(bool(bias) == bool(P.bias), "bias")
                for got, want, n in zip((weight_ext_f, bias_ext_f, weight_ext_n, bias_ext_n), P.ext, ("weight_f", "bias_f", "weight_n", "bias_n")):
                    if got is None or want is None: d(got is want, n)
                    else: same(obs(got), obs(want), "the streaming cell receives " + n, kind="pre")
                same(obs(hx_buffer), P.hx, "the streaming cell receives the hidden state", kind="pre")
                for k in ("width", "depth", "depth_ismul", "dimr"): d(eq(hwcfg[k], P.hw[k]), k)
                d(hwcfg["mode"].lower() == P.hw["mode"].lower() and hwcfg["rng"].lower() == P.hw["rng"].lower(), "mode and generator")
                d(all(swcfg[k] is T.float32 for k in ("btype", "rtype", "stype")), "types")
                put(s, "t", 0); put(s, "out", CTX.uf("OUT", 3, "i", 0, 1)); U_.cells.append(s)
            def forward(s, x, h):
                P = U_.P
                CTX.prove(andv(le(0, s.t), lt(s.t, P.n)), "the streaming cell runs for at most 2^width cycles", "pre")
                same(obs(x), U_.stream(P, P.x, s.t), "the streaming cell receives this cycle's input bits", kind="pre")
                same(obs(h), U_.stream(P, P.hx, s.t), "the streaming cell receives this cycle's hidden bits", kind="pre")
                t = s.t; put(s, "t", add(t, 1))
                return T.mk((P.b, P.h), lambda i: s.out((T.iscal(t),) + tuple(T.iscal(v) for v in i)), T.float32)
        class PE(storch.Module):
            __module__ = "stub"
            def __init__(s, source, hwcfg=None):
                storch.Module.__init__(s); log.add(callee)
                put(s, "Q", REG["ProgError"].parse(source, hwcfg)); put(s, "n", 0); put(s, "ones", const(0, (1,))); U_.pes.append(s)
            def Monitor(s, x):
                a = obs(x)
                for nm, dims, f in bits_req(["monitored bit"], [a]): CTX.prove(f(gidx(dims)), "precondition of metric.metric.ProgError: " + nm, "pre")
                CTX.prove(dims_goal(a.dims, s.Q.dims), "precondition of metric.metric.ProgError: shape", "pre")
                o = s.ones
                put(s, "ones", A(s.Q.dims, lambda i: add(o.bat(i), a.at(i)))); put(s, "n", add(s.n, 1))
            def forward(s):
                CTX.prove(le(1, s.n), "precondition of metric.metric.ProgError: read after at least one cycle", "pre")
                return [T.mk(a.dims, (lambda a: lambda i: num(a.at(tuple(T.iscal(v) for v in i))))(a), T.float32) for a in REG["ProgError"].vals(s.Q, s.ones, s.n)]
        return Cell if callee == "FSUMGUCell" else PE
    def loop(self, it, carried, line):
        if carried or len(self.cells) != 1 or len(self.pes) != 1: return None
        return self.loop_(it)
    def loop_(self, it):
        from ..prove import same, gidx
        from ..loader import SymRange
        from .. import tensor as T
        if not isinstance(it, SymRange): raise Unsupported("loop over a symbolic list")
        c0, pe, P = self.cells[0], self.pes[0], self.P
        count = lambda n: A((P.b, P.h), lambda i: Sum(n, lambda k: c0.out((k,) + tuple(i))))
        def at(k):
            c0.__dict__["t"], pe.__dict__["n"], pe.__dict__["ones"] = k, k, count(k)
        def holds(k, what):
            CTX.prove(andv(eq(c0.t, k), eq(pe.n, k)), "loop contract %s: cycles" % what, "inv")
            i = gidx((P.b, P.h)); a, b = pe.ones.bat(i), count(k).at(i)
            if not (native(k) and k == 0):
                m = sub(k, 1)
                CTX.assume(eq(b, add(count(m).at(i), c0.out((m,) + tuple(T.iscal(v) for v in i)))))      # a sum of k terms is the sum of k-1 and the last
            CTX.prove(eq(a, b), "loop contract %s: ones counted" % what, "inv")
        n = sub(it.hi, it.lo)
        CTX.prove(le(1, n), "the loop runs", "inv")
        holds(0, "on entry")
        c = CTX.int("cycle"); CTX.assume(andv(le(it.lo, c), lt(c, it.hi)))
        k = sub(c, it.lo)
        at(k)
        prev, log, born = CTX.__dict__.get("wlog"), [], next(T._uid)
        CTX.wlog = log
        yield c
        CTX.wlog = prev
        for s, what, _ in log:
            if s is None: raise Unsupported("the loop changes %s" % what)
            if s.uid < born: raise Unsupported("the loop writes a tensor from outside in place")
        holds(add(k, 1), "kept")
        at(n)
