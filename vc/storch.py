"""The torch / math / numpy / pylfsr names that the code under verification may use, over symbolic tensors.
Anything not defined here raises Unsupported (never a violation)."""
import types, builtins, math as _math, copy as _copy, functools
from fractions import Fraction
import z3
from .sym import *
from . import sym, tensor as T
from .tensor import *
from .tensor import Tensor, Parameter, Size, DType, mk, full, pointwise, MDim, Pack, iscal, dsize, to_dim_index, fresh_indices, todtype, shape_of

class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, n))

torch = Mod("torch"); nn = Mod("torch.nn"); F = Mod("torch.nn.functional"); init = Mod("torch.nn.init")
quasirandom = Mod("torch.quasirandom"); autograd = Mod("torch.autograd"); cuda = Mod("torch.cuda"); amp = Mod("torch.cuda.amp")
torch.nn, nn.functional, nn.init, torch.quasirandom, torch.autograd, torch.cuda, cuda.amp = nn, F, init, quasirandom, autograd, cuda, amp
cuda.is_available = lambda: False

for d in DTYPES: setattr(torch, d.name, d)
torch.bool, torch.float, torch.double, torch.half, torch.int, torch.long, torch.short = bool_, float32, float64, float16, int32, int64, int16
torch.dtype = DType; torch.Size = Size
torch.device = lambda *a: "cpu"

# ------------------------------------------------------------------ tensor factories
class TensorCtor(type):
    def __instancecheck__(cls, o): return builtins.isinstance(o, Tensor)
    def __call__(cls, *a):
        if len(a) == 1 and builtins.isinstance(a[0], (list, tuple)) and not builtins.isinstance(a[0], Size): return T.tensor(list(a[0]), float32)
        if len(a) == 1 and builtins.isinstance(a[0], Tensor): return a[0].type(float32)
        return uninit(shape_of(a), float32)
class TorchTensor(metaclass=TensorCtor): pass
torch.Tensor = TorchTensor; torch.FloatTensor = TorchTensor

def uninit(dims, dtype):
    f = CTX.uf("uninit", len(dims), "r" if dtype.cat == 2 else "i")
    return mk(tuple(dims), lambda i: f([iscal(x) for x in i]), dtype)
def _kw(k):
    k.pop("device", None); k.pop("requires_grad", None); return k
def _dims(a, k):
    if "size" in k: a = (k.pop("size"),)
    return shape_of(a)
torch.zeros = lambda *a, dtype=float32, **k: full(_dims(a, k), 0, dtype)
torch.ones = lambda *a, dtype=float32, **k: full(_dims(a, k), 1, dtype)
torch.empty = lambda *a, dtype=float32, **k: (lambda d: full(d, 0, dtype) if d == (0,) else uninit(d, dtype))(_dims(a, k))
def _full(size, v, dtype=None, **k):
    v = v.item() if builtins.isinstance(v, Tensor) else v
    return full(shape_of((size,)), norm(v) if native(v) else v, dtype or scalar_dtype(v))
torch.full = _full
torch.zeros_like = lambda t, dtype=None, **k: full(t.dims, 0, dtype or t.dtype)
torch.ones_like = lambda t, dtype=None, **k: full(t.dims, 1, dtype or t.dtype)
torch.empty_like = lambda t, dtype=None, **k: uninit(t.dims, dtype or t.dtype)
torch.full_like = lambda t, v, dtype=None, **k: full(t.dims, v, dtype or t.dtype)
torch.tensor = lambda x, dtype=None, **k: T.tensor(x, dtype)
torch.as_tensor = lambda x, dtype=None, **k: x if builtins.isinstance(x, Tensor) and dtype in (None, x.dtype) else T.tensor(x, dtype)
torch.from_numpy = lambda x: unsup("from_numpy")
torch.arange = lambda *a, dtype=None, **k: T.arange(*a, dtype=dtype)
torch.is_tensor = lambda x: builtins.isinstance(x, Tensor)
torch.numel = lambda t: t.numel()

def outk(f):
    @functools.wraps(f)
    def g(*a, out=None, **k):
        r = f(*a, **k)
        return r if out is None else out._setdata(r)
    return g
for n, f in dict(add=t_add, sub=t_sub, subtract=t_sub, mul=t_mul, multiply=t_mul, div=t_div, divide=t_div, true_divide=t_div, remainder=t_remainder, floor_divide=t_floordiv, pow=t_pow,
                 eq=t_eq, ne=t_ne, not_equal=t_ne, lt=t_lt, less=t_lt, le=t_le, less_equal=t_le, gt=t_gt, greater=t_gt, ge=t_ge, greater_equal=t_ge,
                 bitwise_and=t_and, bitwise_or=t_or, bitwise_xor=t_xor, bitwise_not=t_invert,
                 logical_and=t_logical_and, logical_or=t_logical_or, logical_xor=t_logical_xor, logical_not=t_logical_not,
                 abs=t_abs, absolute=t_abs, neg=t_neg, sign=t_sign, round=t_round, floor=t_floor, ceil=t_ceil, trunc=t_trunc, frac=t_frac, square=t_square,
                 maximum=t_max2, minimum=t_min2, matmul=t_matmul, mm=t_matmul, bmm=t_matmul).items():
    setattr(torch, n, outk(f))
torch.fix = torch.trunc
torch.clamp = outk(lambda a, min=None, max=None: t_clamp(a, min, max)); torch.clip = torch.clamp
torch.where = outk(lambda c, a, b: t_where(c, a, b))
torch.sum = outk(lambda t, dim=None, keepdim=False, dtype=None: t_sum(t, dim, keepdim, dtype))
torch.mean = outk(lambda t, dim=None, keepdim=False: t_mean(t, dim, keepdim))
torch.cat = outk(lambda s, dim=0: t_cat(s, dim)); torch.concat = torch.cat
torch.stack = outk(lambda s, dim=0: t_stack(s, dim))
torch.roll = lambda t, shifts, dims=None: t_roll(t, shifts, dims)
torch.flip = lambda t, dims: t_flip(t, dims)
torch.clone = lambda t: t.clone()
torch.reshape = lambda t, s: t.reshape(s)
torch.transpose = lambda t, a, b: t.transpose(a, b)
torch.t = lambda t: t.t()
torch.permute = lambda t, p: t.permute(p)
torch.unsqueeze = lambda t, d: t.unsqueeze(d)
torch.squeeze = lambda t, d=None: t.squeeze(d)
torch.flatten = lambda t, start_dim=0, end_dim=-1: t.flatten(start_dim, end_dim)
torch.lerp = lambda a, b, w: t_add(a, t_mul(t_sub(b, a), w))
def einsum(*a): raise Unsupported("einsum")
torch.einsum = einsum
def _any(t):
    n = t.numel()
    if not native(n) or n > 64: return _opaque_any(t)
    r = False
    for i in T.concrete_indices(t.dims): r = orv(r, truth(t.at(i)))
    return T.tensor_scalar(num(r), bool_)
def _opaque_any(t): raise Unsupported("any() over a symbolic shape")
torch.any = lambda t: _any(t); Tensor.any = lambda s: _any(s)
def _all(t): return t_logical_not(_any(t_logical_not(t)))
torch.all = _all; Tensor.all = lambda s: _all(s)
def _prod(t, dim=None):
    n = t.numel()
    if dim is not None or not native(n) or n > 16: raise Unsupported("prod")
    r = 1
    for i in T.concrete_indices(t.dims): r = mul(r, t.at(i))
    return T.tensor_scalar(r, int64 if t.dtype.cat < 2 else t.dtype)
torch.prod = _prod; Tensor.prod = lambda s, dim=None: _prod(s, dim)
def _equal(a, b):
    if len(a.dims) != len(b.dims): return False
    raise Unsupported("torch.equal")
torch.equal = _equal

# ------------------------------------------------------------------ further tensor operations (reach for rewritten code)
def t_fmod(a, b):
    d = result_dtype(a, b)
    def f(x, y):
        if sortof(x) == "r" or sortof(y) == "r": return sub(x, mul(y, trunc(divr(x, y))))
        raise Unsupported("integer fmod")
    return pointwise(f, d, a, b)
torch.fmod = outk(t_fmod); Tensor.fmod = lambda s, o: t_fmod(s, o)
torch.is_floating_point = lambda t: t.dtype.cat == 2; Tensor.is_floating_point = lambda s: s.dtype.cat == 2
Tensor.is_complex = lambda s: False
torch.rsub = lambda a, b: t_sub(b, a); Tensor.rsub = lambda s, o: t_sub(o, s)
torch.addcmul = outk(lambda a, b, c, value=1: t_add(a, t_mul(t_mul(b, c), value))); Tensor.addcmul = lambda s, b, c, value=1: torch.addcmul(s, b, c, value=value)
Tensor.addcmul_ = lambda s, b, c, value=1: s._inplace(torch.addcmul(s, b, c, value=value))
torch.addmm = outk(lambda m, a, b: t_add(m, t_matmul(a, b))); torch.baddbmm = torch.addmm; Tensor.addmm = lambda s, a, b: torch.addmm(s, a, b); Tensor.bmm = lambda s, o: t_matmul(s, o)
torch.outer = lambda a, b: t_mul(a.unsqueeze(1), b.unsqueeze(0)); torch.dot = lambda a, b: t_sum(t_mul(a, b))
torch.count_nonzero = lambda t, dim=None: t_sum(t_ne(t, 0), dim); Tensor.count_nonzero = lambda s, dim=None: t_sum(t_ne(s, 0), dim)
torch.broadcast_to = lambda t, sh: t.expand(sh); torch.tile = lambda t, d: t_repeat(t, *d); Tensor.tile = lambda s, *d: t_repeat(s, *shape_of(d)); Tensor.broadcast_to = lambda s, sh: s.expand(sh)
torch.concatenate = torch.cat; torch.exp2 = outk(lambda t: t_pow(2, t.type(t.dtype if t.dtype.cat == 2 else float32))); Tensor.exp2 = lambda s: torch.exp2(s)
torch.relu = lambda t: t_clamp(t, 0, None); Tensor.relu = torch.relu; torch.narrow = lambda t, d, a, n: t.narrow(d, a, n)
torch.logical_and_ = None
torch.swapaxes = torch.swapdims = lambda t, a, b: t.transpose(a, b); Tensor.swapaxes = Tensor.swapdims = lambda s, a, b: s.transpose(a, b)
Tensor.absolute, Tensor.negative, Tensor.fix = Tensor.abs, Tensor.neg, Tensor.trunc; torch.negative = torch.neg
Tensor.mT = property(lambda s: s.transpose(-2, -1))
Tensor.new_ones = lambda s, *sh, **k: full(shape_of(sh), 1, k.get("dtype", s.dtype)); Tensor.new_tensor = lambda s, x, dtype=None, **k: T.tensor(x, dtype or s.dtype)
Tensor.new_full = lambda s, sh, v, dtype=None, **k: full(shape_of((sh,)), v, dtype or s.dtype); Tensor.new_empty = lambda s, *sh, **k: uninit(shape_of(sh), k.get("dtype", s.dtype))
def _narrow(s, d, a, n):
    return s[(slice(None),) * s._nd(d) + (slice(a, add(a, n)),)]
Tensor.narrow = _narrow
def _index_select(t, d, i): return t[(slice(None),) * t._nd(d) + (i,)]
torch.index_select = _index_select; Tensor.index_select = _index_select
def _unbind(t, dim=0):
    d = t._nd(dim); n = dsize(t.dims[d])
    if not native(n): raise Unsupported("unbind over a symbolic size")
    return tuple(t.select(d, k) for k in range(n))
torch.unbind = _unbind; Tensor.unbind = _unbind
torch.select = lambda t, d, i: t.select(d, i)
def _gather(t, d, i):
    d = t._nd(d); ri, rt, n = i.reader(), t.reader(), dsize(t.dims[d])
    if len(i.dims) != len(t.dims): raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    for j in range(len(t.dims)):
        if j != d: CTX.prove(le(dsize(i.dims[j]), dsize(t.dims[j])), "gather index fits", "safety")
    gi = tuple(fresh_indices(i.dims, "ga"))
    CTX.prove(andv(le(0, ri(gi)), lt(ri(gi), n)), "gather index in range", "safety")
    return mk(i.dims, lambda x: rt(tuple(ri(x) if j == d else to_dim_index(x[j], t.dims[j]) for j in range(len(t.dims)))), t.dtype)
torch.gather = _gather; Tensor.gather = _gather
def _mfill(s, m, v):
    if builtins.isinstance(v, Tensor): v = v.item()
    return s._inplace(t_where(T.bcast(m, s.dims), v, s).type(s.dtype))
Tensor.masked_fill_ = _mfill; torch.masked_fill = lambda t, m, v: t.masked_fill(m, v)
def _einsum(eq_, *ops):
    if len(ops) == 1 and builtins.isinstance(ops[0], (list, tuple)): ops = ops[0]
    eq_ = eq_.replace(" ", "")
    if "..." in eq_: raise Unsupported("einsum with an ellipsis")
    ins, _, out = eq_.partition("->")
    ins = ins.split(",")
    if "->" not in eq_: out = "".join(sorted(x for x in set("".join(ins)) if "".join(ins).count(x) == 1))
    if len(ins) != len(ops): raise RuntimeError("einsum(): number of operands")
    dim = {}
    for l, o in zip(ins, ops):
        if len(l) != len(o.dims): raise RuntimeError("einsum(): subscripts do not match the number of dimensions")
        if o.dtype is not ops[0].dtype: raise RuntimeError("expected same dtype")
        for x, d in zip(l, o.dims):
            if x in dim and not T.dim_is1(dim[x]) and not T.dim_is1(d):
                if not T.dim_eq(dim[x], d): raise RuntimeError("einsum(): sizes do not match")
            if x not in dim or T.dim_is1(dim[x]): dim[x] = d
    red = [x for x in dict.fromkeys("".join(ins)) if x not in out]
    rds = [(l, o.reader(), o.dims) for l, o in zip(ins, ops)]
    def fn(i):
        base = dict(zip(out, i))
        def term(ix):
            e = dict(base); e.update(zip(red, ix)); r = 1
            for l, rd, ds in rds: r = mul(r, num(rd(tuple(0 if T.dim_is1(d) else to_dim_index(e[x], d) for x, d in zip(l, ds)))))
            return r
        return T.wrap(T._sum_over([dim[x] for x in red], term), ops[0].dtype)
    return mk(tuple(dim[x] for x in out), fn, ops[0].dtype)
torch.einsum = _einsum
def _lerp(a, b, w): return t_add(a, t_mul(t_sub(b, a), w))
Tensor.lerp = _lerp
F.threshold = lambda x, threshold, value, inplace=False: t_where(t_gt(x, threshold), x, value).type(x.dtype)
def _chunk(t, n, dim=0):
    d = t._nd(dim); k = dsize(t.dims[d])
    if not native(k): raise Unsupported("chunk of a symbolic size")
    c = -(-k // n)
    return tuple(_narrow(t, d, a, min(c, k - a)) for a in range(0, k, c))
torch.chunk = _chunk; Tensor.chunk = _chunk
def _split(t, size, dim=0):
    d = t._nd(dim)
    if builtins.isinstance(size, (list, tuple)):
        out, a = [], 0
        for n in size: out.append(_narrow(t, d, a, n)); a = add(a, n)
        CTX.prove(eq(a, dsize(t.dims[d])), "split sizes cover the dimension", "safety")
        return tuple(out)
    k = dsize(t.dims[d])
    if not native(k, size): raise Unsupported("split of a symbolic size")
    return tuple(_narrow(t, d, a, min(size, k - a)) for a in range(0, k, size))
torch.split = _split; Tensor.split = _split
del torch.logical_and_

# ------------------------------------------------------------------ order statistics
def stat_key(t):
    """contents of t in canonical form: merged/size-1 dims normalised, generic canonical indices"""
    dims = T.flatten_dims(t.dims)
    idx = []
    for j, d in enumerate(dims):
        nm = "canon!%d!%s" % (j, d if native(d) else d.z.sexpr())
        if nm not in CTX.once:
            v = z3.Int(nm); CTX.once[nm] = v
            CTX.facts += [v >= 0]
            CTX.facts.append(Z(lt(SV(v), d)))
            CTX.declb[nm] = (0, None if isinstance(d, SV) else d - 1)
        idx.append(SV(CTX.once[nm]))
    def build(d, it):
        if builtins.isinstance(d, MDim): return Pack([build(x, it) for x in d.dims], [dsize(x) for x in d.dims])
        if T.dim_is1(d): return 0
        return next(it)
    it = iter(idx)
    full_idx = tuple(build(d, it) for d in t.dims)
    v = num(t.at(full_idx))
    stat_key.last = z3.simplify(Z(v, "r"))
    return (tuple(d if native(d) else d.z.sexpr() for d in dims), Z(v, "r").sexpr())
class Quant:
    """Q(t, q): the q-quantile of the elements of t (uninterpreted, monotone in q, between min = Q(.,0) and max = Q(.,1))"""
    def get(self, t, q):
        tab = CTX.once.setdefault("quant", {})
        k = stat_key(t)
        if not hasattr(self, "val") or "quant_val" not in CTX.once: self.val = CTX.once["quant_val"] = {}
        self.val[k] = stat_key.last
        if k not in tab: tab[k] = []
        q = norm(q) if native(q) else q
        for p, v, _ in tab[k]:
            if p is q or (native(p, q) and p == q) or (not native(p) and not native(q) and p.z.eq(q.z)): return v
        v = CTX.real("Q")
        # Q(x + c) = Q(x) + c for a constant c
        for k2, es in list(tab.items()):
            if k2 is k or k2[0] != k[0]: continue
            d = z3.simplify(self.val[k] - self.val[k2])
            from .sums import free as _fv
            if any(n.startswith("canon!") for n in _fv(d)): continue
            for p, u, _ in es:
                if p is q or (native(p, q) and p == q) or (not native(p) and not native(q) and p.z.eq(q.z)): CTX.assume(eq(v, add(u, S(d))))
        for p, u, _ in tab[k]:
            CTX.assume(implies(le(p, q), le(u, v))); CTX.assume(implies(le(q, p), le(v, u)))
        tab[k].append((q, v, t))
        return v
QUANT = Quant()
def quantile(t, q, dim=None, keepdim=False):
    if dim is not None or keepdim: raise Unsupported("quantile along a dimension")
    if t.dtype.cat != 2: raise RuntimeError("quantile() input tensor must be either float or double dtype")
    q = q.item() if builtins.isinstance(q, Tensor) else q
    CTX.prove(andv(le(0, q), le(q, 1)), "quantile argument within [0, 1]", "safety")
    return T.tensor_scalar(QUANT.get(t, q), t.dtype)
torch.quantile = outk(quantile); Tensor.quantile = lambda s, q, dim=None, keepdim=False: quantile(s, q, dim, keepdim)
def _ext(t, other, dim, which):
    if builtins.isinstance(other, Tensor): return (t_max2 if which == 1 else t_min2)(t, other)
    if other is not None or dim is not None: raise Unsupported("max/min along a dimension")
    return T.tensor_scalar(QUANT.get(t, which), t.dtype)
torch.max = outk(lambda t, other=None, dim=None: _ext(t, other, dim, 1)); torch.min = outk(lambda t, other=None, dim=None: _ext(t, other, dim, 0))
torch.amax, torch.amin = lambda t: _ext(t, None, None, 1), lambda t: _ext(t, None, None, 0)
Tensor.max = lambda s, other=None, dim=None: _ext(s, other, dim, 1)
Tensor.min = lambda s, other=None, dim=None: _ext(s, other, dim, 0)
Tensor.amax = lambda s: _ext(s, None, None, 1)
Tensor.amin = lambda s: _ext(s, None, None, 0)
torch.aminmax = lambda t: (_ext(t, None, None, 0), _ext(t, None, None, 1))

# ------------------------------------------------------------------ transcendental functions (uninterpreted, with facts)
_LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())
def log2v(x):
    x = num(x)
    if native(x):
        if x <= 0: raise Unsupported("log2 of a non-positive constant")
        f = Fraction(x)
        for k in range(-200, 201):
            if f == Fraction(2) ** k: return k
    zx = z3.simplify(Z(x, "r"))
    # log2 of a registered power of two
    for e, t in CTX.pow2s:
        if z3.simplify(z3.ToReal(t)).eq(zx): return SV(e)
    for e, t in CTX.pow2rs:
        if t.eq(zx): return SV(e)
    r = _LOG2(zx)
    key = ("log2", zx.get_id())
    if key not in CTX.once:
        CTX.once[key] = zx
        CTX.uf_apps.setdefault("log2", []).append((zx, r))
        v = SV(r)
        p = pow2(v)                                      # 2**log2(x) == x for x > 0
        CTX.facts.append(z3.Implies(zx > 0, Z(p, "r") == zx))
        if not native(x) and x.sort == "i":
            K = CTX.int("K", 0)
            CTX.facts.append(z3.Implies(zx >= 1, z3.And(z3.ToReal(K.z) <= r, r < z3.ToReal(K.z) + 1)))
            P = pow2(K)
            CTX.facts.append(z3.Implies(zx >= 1, z3.And(P.z <= x.z, x.z < 2 * P.z, (r == z3.ToReal(K.z)) == (P.z == x.z))))
    return SV(r)
def t_log2(t):
    gi = tuple(fresh_indices(t.dims, "lg"))
    CTX.prove(lt(0, t.at(gi)), "log2 argument is positive", "safety")
    return pointwise(log2v, t.dtype if t.dtype.cat == 2 else float32, t)
torch.log2 = outk(t_log2); Tensor.log2 = lambda s: t_log2(s)
_SIG, _TANH = z3.Function("sigmoid", z3.RealSort(), z3.RealSort()), z3.Function("tanh", z3.RealSort(), z3.RealSort())
def _mono(fn, lo, hi, nm):
    def f(x):
        zx = z3.simplify(Z(num(x), "r")); r = fn(zx); key = (nm, zx.get_id())
        if key not in CTX.once:
            CTX.once[key] = zx
            CTX.facts += [r >= lo, r <= hi]
        return SV(r)
    return f
sigmoidv, tanhv = _mono(_SIG, 0, 1, "sigmoid"), _mono(_TANH, -1, 1, "tanh")
def _uf1(v): return outk(lambda t: pointwise(v, t.dtype, t))
torch.sigmoid = _uf1(sigmoidv); torch.tanh = _uf1(tanhv)
Tensor.sigmoid = lambda s: pointwise(sigmoidv, s.dtype, s); Tensor.tanh = lambda s: pointwise(tanhv, s.dtype, s)
def sqrtv(x):
    x = num(x)
    if native(x):
        r = _math.isqrt(int(x)) if isinstance(x, int) else None
        if r is not None and r * r == x: return r
    zx = z3.simplify(Z(x, "r"))
    key = ("sqrt", zx.sexpr())
    if key not in CTX.once:
        v = CTX.real("sqrt", 0); CTX.once[key] = v
        CTX.facts.append(z3.Implies(zx >= 0, v.z * v.z == zx))
        CTX.facts.append(z3.Implies(zx > 0, v.z > 0))
    return CTX.once[key]
torch.sqrt = outk(lambda t: pointwise(sqrtv, t.dtype, t))
Tensor.sqrt = lambda s: pointwise(sqrtv, s.dtype, s)
# frexp: x = m * 2^e with 1/2 <= |m| < 1 (0 -> 0, 0)
def frexpv(x):
    x = num(x)
    if native(x):
        m, e = _math.frexp(float(x)); return norm(m), e
    zx = z3.simplify(Z(x, "r")); key = ("frexp", zx.sexpr())
    if key not in CTX.once:
        m, e = CTX.real("mant", -1, 1), CTX.int("expo")
        p = pow2(e)
        CTX.once[key] = (m, e)
        CTX.facts.append(zx == m.z * Z(p, "r"))
        CTX.facts.append(z3.Implies(zx == 0, z3.And(m.z == 0, e.z == 0)))
        CTX.facts.append(z3.Implies(zx > 0, z3.And(m.z >= z3.Q(1, 2), m.z < 1)))
        CTX.facts.append(z3.Implies(zx < 0, z3.And(m.z <= -z3.Q(1, 2), m.z > -1)))
    return CTX.once[key]
def t_frexp(t):
    rd, dims = t.reader(), t.dims
    return mk(dims, lambda i: frexpv(rd(i))[0], t.dtype), mk(dims, lambda i: frexpv(rd(i))[1], int32)
torch.frexp = t_frexp; Tensor.frexp = lambda s: t_frexp(s)
torch.ldexp = outk(lambda a, b: pointwise(lambda x, e: mul(x, pow2r_of(e)), result_dtype(a, b) if result_dtype(a, b).cat == 2 else float32, a, b))
def pow2r_of(e):
    if native(e): return norm(Fraction(2) ** int(e))
    return pow2(e)
class FInfo:
    pass

# ------------------------------------------------------------------ random sources
_SOBOL = {}
class SobolEngine:
    def __init__(self, dimension, scramble=False, seed=None):
        self.dimension, self.scramble, self.seed = dimension, scramble, seed
        self.drawn = 0
    def draw(self, n=1, out=None, dtype=None):
        """column d of an unscrambled engine: n points k/n, k = SOBOL(d, i) in [0, n-1] (a permutation when n is a power of two)"""
        if self.scramble: raise Unsupported("scrambled Sobol engine")
        off = self.drawn; self.drawn = add(self.drawn, n)
        return mk((n, self.dimension), lambda i: divr(sobol_val(iscal(i[1]), add(off, iscal(i[0])), n), n), dtype or float32)
    def fast_forward(self, n): self.drawn = add(self.drawn, n); return self
    def reset(self): self.drawn = 0; return self
def sobol_val(col, i, n):
    f = z3.Function("SOBOL", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    t = f(Z(col), Z(i), Z(n))
    CTX.declb.setdefault("SOBOL", (0, None))
    CTX.fact_once(("sobol", t.get_id()), lambda: z3.And(t >= 0, t < Z(n)), keep=t)
    return SV(t)
quasirandom.SobolEngine = SobolEngine
def lfsr_val(i, n):
    """the i-th number of an LFSR sequence of symbolic width, as callers of RNG see it: anything in range"""
    f = z3.Function("LFSRSEQ", z3.IntSort(), z3.IntSort(), z3.IntSort())
    t = f(Z(i), Z(n))
    CTX.declb.setdefault("LFSRSEQ", (0, None))
    CTX.fact_once(("lfsrseq", t.get_id()), lambda: z3.And(t >= 0, t < Z(n)), keep=t)
    return SV(t)
def randperm(n, **k):
    f = z3.Function("RANDPERM", z3.IntSort(), z3.IntSort(), z3.IntSort())
    CTX.declb.setdefault("RANDPERM", (0, None))
    def at(i):
        t = f(Z(iscal(i[0])), Z(n))
        CTX.fact_once(("rp", t.get_id()), lambda: z3.And(t >= 0, t < Z(n)), keep=t)
        return SV(t)
    return mk((n,), at, int64)
torch.randperm = randperm
def normal_(t, mean=0.0, std=1.0):
    f = CTX.uf("normal", len(t.dims), "r")
    no, t.requires_grad = t.requires_grad, False
    t._assign(lambda i: f([iscal(x) for x in i]), float32)
    t.requires_grad = no
    return t
init.normal_ = normal_
Tensor.normal_ = lambda s, mean=0, std=1: normal_(s, mean, std)
torch.rand = lambda *a, **k: unsup("torch.rand"); torch.randn = lambda *a, **k: unsup("torch.randn")
torch.randn_like = lambda *a, **k: unsup("torch.randn_like")
def unsup(m): raise Unsupported(m)

# ------------------------------------------------------------------ modules
def ATTR_LOG(n): pass
class Module:
    def __init__(self, *a, **k):
        self.__dict__.setdefault("_parameters", {}); self.__dict__.setdefault("training", True)
    def __setattr__(self, n, v):
        ps = self.__dict__.get("_parameters")
        if self.__dict__.get(n) is not v or not isinstance(v, Tensor): ATTR_LOG("attribute %s" % n)
        if ps is not None and builtins.isinstance(v, Parameter): ps[n] = v
        elif ps is not None and n in ps:
            if v is not None: raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v), n))
            ps[n] = None
        self.__dict__[n] = v
    def __getattr__(self, n): raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))
    def __call__(self, *a, **k): return self.forward(*a, **k)
    def __str__(self): return type(self).__name__ + "()"
    __repr__ = __str__
    def register_parameter(self, n, p):
        self._parameters[n] = p; self.__dict__[n] = p
    def register_buffer(self, n, p, persistent=True): self.__dict__[n] = p
    def add_module(self, n, m): self.__dict__[n] = m
    def parameters(self, recurse=True):
        out = [p for p in self._parameters.values() if p is not None]
        for v in self.__dict__.values():
            if builtins.isinstance(v, Module): out += v.parameters()
        return out
    def named_parameters(self): return [(n, p) for n, p in self._parameters.items() if p is not None]
    def modules(self):
        out = [self]
        for v in self.__dict__.values():
            if builtins.isinstance(v, Module): out += v.modules()
        return out
    def children(self): return [v for v in self.__dict__.values() if builtins.isinstance(v, Module)]
    def to(self, *a, **k): return self
    def cpu(self): return self
    def cuda(self): return self
    def eval(self): self.__dict__["training"] = False; return self
    def train(self, m=True): self.__dict__["training"] = m; return self
    def requires_grad_(self, v=True): return self
    def extra_repr(self): return ""
    def apply(self, fn):
        for c in self.children(): c.apply(fn)
        fn(self); return self
nn.Module, nn.Parameter = Module, Parameter
Parameter.__call__ = lambda self, *a: unsup("calling a parameter")
class ParameterMeta(type): pass
class Identity(Module):
    def __init__(self, *a, **k): super().__init__()
    def forward(self, x): return x
class Hardtanh(Module):
    def __init__(self, min_val=-1., max_val=1., inplace=False, **k):
        super().__init__(); self.min_val, self.max_val, self.inplace = min_val, max_val, inplace
        assert native(min_val, max_val) and max_val > min_val or not native(min_val, max_val)
    def forward(self, x):
        r = t_clamp(x, self.min_val, self.max_val).type(x.dtype)
        return x._assign(r.reader(), r.dtype) if self.inplace else r
class Hardsigmoid(Module):
    def __init__(self, inplace=False): super().__init__(); self.inplace = inplace
    def forward(self, x):
        r = t_div(t_clamp(t_add(x, 3), 0, 6), 6)
        return x._assign(r.reader(), r.dtype) if self.inplace else r
class Sigmoid(Module):
    def forward(self, x): return torch.sigmoid(x)
class Tanh(Module):
    def forward(self, x): return torch.tanh(x)
class ReLU(Module):
    def __init__(self, inplace=False): super().__init__()
    def forward(self, x): return t_clamp(x, 0, None)
F.hardtanh = lambda x, min_val=-1., max_val=1., inplace=False: Hardtanh(min_val, max_val, inplace).forward(x)
F.hardsigmoid = lambda x, inplace=False: Hardsigmoid(inplace).forward(x)
F.relu = lambda x: t_clamp(x, 0, None)
F.sigmoid, F.tanh = torch.sigmoid, torch.tanh
nn.Identity, nn.Hardtanh, nn.Hardsigmoid, nn.Sigmoid, nn.Tanh, nn.ReLU = Identity, Hardtanh, Hardsigmoid, Sigmoid, Tanh, ReLU
def rawparam(base, dims, rg=True):
    f = CTX.uf(base, len(dims), "r")
    return Parameter(mk(tuple(dims), lambda i: f([iscal(x) for x in i]), float32), requires_grad=rg)
class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = rawparam("W0", (out_features, in_features))
        if bias: self.bias = rawparam("B0", (out_features,))
        else: self.register_parameter("bias", None)
    def forward(self, x): return t_linear(x, self.weight, self.bias)
def tup2(x): return tuple(x) if builtins.isinstance(x, (tuple, list)) else (x, x)
class Conv2d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        self.in_channels, self.out_channels = in_channels, out_channels
        self.kernel_size, self.stride, self.padding, self.dilation = tup2(kernel_size), tup2(stride), (padding if builtins.isinstance(padding, str) else tup2(padding)), tup2(dilation)
        self.groups, self.padding_mode = groups, padding_mode
        if native(in_channels, groups) and in_channels % groups: raise ValueError("in_channels must be divisible by groups")
        if native(out_channels, groups) and out_channels % groups: raise ValueError("out_channels must be divisible by groups")
        if padding_mode not in ("zeros", "reflect", "replicate", "circular"): raise ValueError("padding_mode")
        self.weight = rawparam("W0", (out_channels, floordiv(in_channels, groups)) + self.kernel_size)
        if bias: self.bias = rawparam("B0", (out_channels,))
        else: self.register_parameter("bias", None)
    def forward(self, x): raise Unsupported("Conv2d.forward")
nn.Linear, nn.Conv2d = Linear, Conv2d
def pad2d(x, p, v):
    l, r, t, b = p
    n = len(x.dims)
    H, W = dsize(x.dims[n - 2]), dsize(x.dims[n - 1])
    rd = x.reader()
    def fn(i):
        h, w = sub(iscal(i[n - 2]), t), sub(iscal(i[n - 1]), l)
        c = andv(le(0, h), lt(h, H), le(0, w), lt(w, W))
        if c is False: return v
        inner = num(rd(i[:n - 2] + (h, w)))
        return inner if c is True else ite(c, inner, v)
    return mk(x.dims[:n - 2] + (add(add(H, t), b), add(add(W, l), r)), fn, x.dtype)
class ConstantPad2d(Module):
    def __init__(self, padding, value):
        super().__init__()
        self.padding = tuple(padding) if builtins.isinstance(padding, (tuple, list)) else (padding,) * 4
        if len(self.padding) != 4: raise ValueError("padding must have 4 elements")
        self.value = value
    def forward(self, x): return pad2d(x, self.padding, norm(self.value) if native(self.value) else self.value)
nn.ConstantPad2d = ConstantPad2d
nn.ZeroPad2d = lambda p: ConstantPad2d(p, 0)
def f_pad(x, pad, mode="constant", value=None):
    if mode != "constant" or len(pad) != 4: raise Unsupported("F.pad")
    return pad2d(x, pad, 0 if value is None else (norm(value) if native(value) else value))
F.pad = f_pad
F.linear = lambda x, w, b=None: t_linear(x, w, b)
def conv_out(size, k, s, p, d):
    """number of kernel positions along one axis"""
    span = sub(sub(add(size, mul(2, p)), mul(d, sub(k, 1))), 1)
    return add(floordiv(span, s), 1)
def unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    (kh, kw), (dh, dw), (ph, pw), (sh, sw) = tup2(kernel_size), tup2(dilation), tup2(padding), tup2(stride)
    if len(x.dims) != 4: raise RuntimeError("unfold expects a 4-d input")
    if x.dtype.cat != 2: raise NotImplementedError('"im2col" not implemented')
    N, C, H, W = x.dims
    H, W = dsize(H), dsize(W)
    oh, ow = conv_out(H, kh, sh, ph, dh), conv_out(W, kw, sw, pw, dw)
    CTX.prove(andv(le(1, oh), le(1, ow)), "unfold has at least one kernel position", "safety")
    rd = x.reader()
    kd, ld = MDim((C, kh, kw)), MDim((oh, ow))
    def fn(i):
        n, k, l = i
        k, l = to_dim_index(k, kd), to_dim_index(l, ld)
        c, i1, j1 = k.idx; y, z = l.idx
        h = sub(add(mul(iscal(y), sh), mul(iscal(i1), dh)), ph)
        w = sub(add(mul(iscal(z), sw), mul(iscal(j1), dw)), pw)
        cc = True if (native(ph, pw) and ph == 0 and pw == 0) else andv(le(0, h), lt(h, H), le(0, w), lt(w, W))
        if cc is False: return 0
        v = num(rd((n, c, h, w)))
        return v if cc is True else ite(cc, v, 0)
    return mk((N, kd, ld), fn, x.dtype)
F.unfold = unfold
def fold(x, output_size, kernel_size, dilation=1, padding=0, stride=1):
    if tup2(kernel_size) != (1, 1) or tup2(stride) != (1, 1) or tup2(padding) != (0, 0): raise Unsupported("fold with a kernel")
    if len(x.dims) != 3: raise RuntimeError("fold expects 3-d input")
    if x.dtype.cat != 2: raise NotImplementedError('"col2im" not implemented')
    N, C, L = x.dims
    oh, ow = tup2(output_size)
    CTX.prove(eq(dsize(L), mul(oh, ow)), "fold: number of columns equals output height * width", "safety")
    if builtins.isinstance(L, MDim) and len(L.dims) == 2:
        if not (CTX.entails(eq(dsize(L.dims[0]), oh)) and CTX.entails(eq(dsize(L.dims[1]), ow))):
            if not truthc(andv(eq(dsize(L.dims[0]), oh), eq(dsize(L.dims[1]), ow))): raise Unsupported("fold into another aspect ratio")
        rd = x.reader()
        return mk((N, C, oh, ow), lambda i: rd((i[0], i[1], Pack((i[2], i[3]), (oh, ow)))), x.dtype)
    rd = x.reader()
    def fn(i):
        return rd((i[0], i[1], to_dim_index(add(mul(iscal(i[2]), ow), iscal(i[3])), L)))
    return mk((N, C, oh, ow), fn, x.dtype)
F.fold = fold
torch.nn.Unfold = lambda k, dilation=1, padding=0, stride=1: (lambda x: unfold(x, k, dilation, padding, stride))

class FnCtx:
    def save_for_backward(self, *a): self.saved_tensors = a
    def mark_non_differentiable(self, *a): pass
class Function:
    @classmethod
    def apply(cls, *a):
        ctx = FnCtx(); ctx.needs_input_grad = tuple(builtins.isinstance(x, Tensor) for x in a)
        Function.last = (cls, ctx, a)
        CTX.no_grad = CTX.__dict__.get("no_grad", 0) + 1
        try: r = cls.forward(ctx, *a)
        finally: CTX.no_grad -= 1
        return r
autograd.Function = Function
class no_grad:
    def __enter__(self): CTX.no_grad = CTX.__dict__.get("no_grad", 0) + 1
    def __exit__(self, *a): CTX.no_grad -= 1
    def __call__(self, f):
        def g(*a, **k):
            with no_grad(): return f(*a, **k)
        return g
torch.no_grad = no_grad
def autocast(*a, **k):
    if len(a) == 1 and callable(a[0]): return a[0]
    return _Auto()
class _Auto:
    def __call__(self, f): return f
    def __enter__(self): return self
    def __exit__(self, *a): pass
amp.autocast = autocast; torch.autocast = autocast

# ------------------------------------------------------------------ math, numpy, pylfsr
math = Mod("math")
math.pi, math.e, math.inf = Fraction(_math.pi), Fraction(_math.e), float("inf")
math.log2 = lambda x: log2v(x.item() if builtins.isinstance(x, Tensor) else x)
math.floor = lambda x: floor(x.item() if builtins.isinstance(x, Tensor) else x)
math.ceil = lambda x: ceil(x.item() if builtins.isinstance(x, Tensor) else x)
math.trunc = lambda x: trunc(x)
math.sqrt = lambda x: sqrtv(x)
math.fabs = absv
math.pow = power
def _mlog(x, b=None):
    if b == 2: return log2v(x)
    raise Unsupported("math.log")
math.log = _mlog
def _mprod(it, start=1):
    r = start
    for x in it: r = mul(r, x)
    return r
math.prod = _mprod
math.gcd = _math.gcd
np = Mod("numpy"); np.random = Mod("numpy.random")
class _AnyInt:
    def __init__(self, lo, hi, n): self.lo, self.hi = lo, hi
    def __getitem__(self, i): return CTX.int("randint", self.lo, sub(self.hi, 1)) if native(self.lo, self.hi) else unsup("randint")
np.random.randint = lambda lo, hi, n: _AnyInt(lo, hi, n)
np.log2, np.ceil, np.floor, np.sqrt = math.log2, math.ceil, math.floor, math.sqrt
pylfsr = Mod("pylfsr")
class LFSR:
    """abstract LFSR: step k holds width bits STATE(k, j); trusted: maximal length for a listed polynomial"""
    def __init__(self, fpoly=None, initstate=None, **k):
        self.step, self.fpoly = 0, fpoly
        if fpoly is not None and initstate == "ones": raise Unsupported("initstate")
        self.args = (fpoly, initstate)
    def get_fpolyList(self, m): return _PolyList(m)
    @property
    def state(self): return _State(self.step)
    def next(self):
        ATTR_LOG("an LFSR")
        self.step = add(self.step, 1); return 0
class _PolyList:
    def __init__(self, m): self.m = m; self.n = CTX.int("npoly", 1)
    def vc_len(self): return self.n
    def __getitem__(self, i):
        if not native(i): CTX.prove(andv(le(0, i), lt(i, self.n)), "polynomial index in range", "safety")
        return ("poly", self.m, i)
def lfsr_bit(step, j):
    f = z3.Function("LFSR", z3.IntSort(), z3.IntSort(), z3.IntSort())
    t = f(Z(step), Z(j)); CTX.declb.setdefault("LFSR", (0, 1))
    CTX.fact_once(("lfsr", t.get_id()), lambda: z3.And(t >= 0, t <= 1), keep=t)
    return SV(t)
class _State:
    def __init__(self, step): self.step = step
    def __getitem__(self, j): return lfsr_bit(self.step, j)
pylfsr.LFSR = LFSR
class _AnyIntSV(_AnyInt): pass
def _randint(lo, hi=None, n=None):
    class R:
        def __getitem__(s, i):
            v = CTX.int("randint", None, None)
            CTX.assume(andv(le(lo, v), lt(v, hi))); return v
    return R()
np.random.randint = _randint
