"""Symbolic tensors: storages with index->value functions, views, aliasing, in-place updates."""
from fractions import Fraction
import itertools
import z3
from .sym import *
from . import sym
from .sums import Sum

# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, cat, bits, signed=True, tname=None):
        self.name, self.cat, self.bits, self.signed, self.tname = name, cat, bits, signed, tname
        self.is_floating_point = cat == 2
    def __repr__(self): return "torch." + self.name
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
bool_ = DType("bool", 0, 1, tname="torch.BoolTensor")
uint8 = DType("uint8", 1, 8, False, "torch.ByteTensor")
int8 = DType("int8", 1, 8, True, "torch.CharTensor")
int16 = DType("int16", 1, 16, True, "torch.ShortTensor")
int32 = DType("int32", 1, 32, True, "torch.IntTensor")
int64 = DType("int64", 1, 64, True, "torch.LongTensor")
float16 = DType("float16", 2, 16, True, "torch.HalfTensor")
bfloat16 = DType("bfloat16", 2, 16, True, "torch.BFloat16Tensor")
float32 = DType("float32", 2, 32, True, "torch.FloatTensor")
float64 = DType("float64", 2, 64, True, "torch.DoubleTensor")
DTYPES = [bool_, uint8, int8, int16, int32, int64, float16, bfloat16, float32, float64]

def promote2(a, b):
    if a is b: return a
    if a.cat != b.cat: return a if a.cat > b.cat else b
    if a.cat == 1:
        if a.signed == b.signed: return a if a.bits > b.bits else b
        u, s = (a, b) if not a.signed else (b, a)
        return s if s.bits > u.bits else int16
    if {a, b} == {float16, bfloat16}: return float32
    return a if a.bits > b.bits else b

def scalar_dtype(v):
    if isinstance(v, (bool,)): return bool_
    if isinstance(v, SV): return {"b": bool_, "i": int64, "r": float32}[v.sort]
    if isinstance(v, int): return int64
    return float32

def result_dtype(*ops):
    """torch type promotion: dimensioned tensors, then 0-dim tensors, then python scalars by category"""
    dim, zero, sc = None, None, None
    for o in ops:
        if isinstance(o, Tensor):
            if len(o.dims) > 0: dim = o.dtype if dim is None else promote2(dim, o.dtype)
            else: zero = o.dtype if zero is None else promote2(zero, o.dtype)
        else:
            s = scalar_dtype(o); sc = s if sc is None else promote2(sc, s)
    r = dim
    if zero is not None: r = zero if r is None or zero.cat > r.cat else r
    if sc is not None:
        if r is None: r = sc
        elif sc.cat > r.cat: r = float32 if sc.cat == 2 else sc
    return r

def cast(v, frm, to):
    """value conversion between dtypes (float rounding is not modelled)"""
    if to is frm: return v
    if to.cat == 0: return num(ite(ne(v, 0), 1, 0))
    if to.cat == 1:
        if frm is not None and frm.cat == 2: v = trunc(v)
        return wrap(v, to)
    return v

def wrap(v, d):
    """machine integer arithmetic: value reduced into the dtype's range (int64 is mathematical)"""
    if d.cat == 0: return v
    if d.cat != 1 or d.bits >= 64: return v
    lo, hi = (-(1 << (d.bits - 1)), (1 << (d.bits - 1)) - 1) if d.signed else (0, (1 << d.bits) - 1)
    if native(v):
        v = num(v)
        return (v - lo) % (1 << d.bits) + lo
    a, b = bounds(v)
    if a is not None and b is not None and a >= lo and b <= hi: return v
    if CTX.entails(andv(le(lo, v), le(v, hi))): return v
    return add(mod(sub(v, lo), 1 << d.bits), lo)

# ------------------------------------------------------------------ indices
class Pack:
    """structured index into a merged dimension: value = ((i0*n1)+i1)*n2+i2 ..."""
    __slots__ = ("idx", "dims")
    def __init__(self, idx, dims): self.idx, self.dims = tuple(idx), tuple(dims)
    def scalar(self):
        r = 0
        for i, n in zip(self.idx, self.dims): r = add(mul(r, n), iscal(i))
        return r
    def __repr__(self): return "Pack%s" % (self.idx,)
def iscal(i): return i.scalar() if isinstance(i, Pack) else i
def ikey(i):
    if isinstance(i, Pack): return ("P",) + tuple(ikey(x) for x in i.idx)
    return i.z.get_id() if isinstance(i, SV) else ("n", i)
class MDim:
    """a merged dimension of size prod(dims)"""
    __slots__ = ("dims",)
    def __init__(self, dims): self.dims = tuple(dims)
    def size(self):
        r = 1
        for d in self.dims: r = mul(r, dsize(d))
        return r
    def __repr__(self): return "M%s" % (self.dims,)
def dsize(d): return d.size() if isinstance(d, MDim) else d
def dim_eq_syn(a, b):
    if isinstance(a, MDim) or isinstance(b, MDim):
        if isinstance(a, MDim) and isinstance(b, MDim):
            return len(a.dims) == len(b.dims) and all(dim_eq_syn(x, y) for x, y in zip(a.dims, b.dims))
        return False
    if native(a, b): return a == b
    if native(a) or native(b): return False
    return a.z.eq(b.z)
def dim_is1(d): return not isinstance(d, MDim) and native(d) and d == 1
def dim_eq(a, b):
    """True / False under the path condition; forks when undetermined"""
    if dim_eq_syn(a, b): return True
    return truthc(eq(dsize(a), dsize(b)))

_uid = itertools.count()
class Storage:
    __slots__ = ("uid", "dims", "fn", "dtype", "version", "memo", "writes")
    def __init__(self, dims, fn, dtype):
        self.uid = next(_uid); self.dims = tuple(dims); self.fn = fn; self.dtype = dtype
        self.version = 0; self.memo = {}; self.writes = 0
    def __deepcopy__(self, memo):
        s = Storage(self.dims, self.fn, self.dtype); memo[id(self)] = s; return s
    def reader(self):
        fn, memo = self.fn, self.memo
        def rd(idx):
            k = tuple(ikey(i) for i in idx)
            r = memo.get(k)
            if r is not None: return r[0]
            v = fn(idx)
            memo[k] = (v, idx)
            return v
        return rd
    def write(self, fn):
        self.fn = fn; self.memo = {}; self.version += 1

def mk(dims, fn, dtype):
    return Tensor(Storage(dims, fn, dtype))

def fresh_indices(dims, base="l"):
    """generic element index: 0 <= i < dim, as facts; dims of size 1 give 0"""
    out = []
    for d in dims:
        if isinstance(d, MDim): out.append(Pack(fresh_indices(d.dims, base), [dsize(x) for x in d.dims]))
        elif dim_is1(d): out.append(0)
        else:
            i = CTX.int(base, 0, None if isinstance(d, SV) else d - 1)
            if isinstance(d, SV): CTX.facts.append(Z(lt(i, d)))
            out.append(i)
    return out

class TensorMeta(type): pass

class Tensor:
    grad_fn = None
    def __init__(self, st, dims=None, fwd=None, inv=None, canwrite=True):
        d = self.__dict__
        d["st"] = st
        d["dims"] = tuple(st.dims if dims is None else dims)
        d["fwd"], d["inv"], d["canwrite"] = fwd, inv, canwrite
        d["requires_grad"] = False
        d["tag"] = None
    # -- construction helpers
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"): raise AttributeError(n)
        raise Unsupported("Tensor.%s is not modelled" % n)
    def __deepcopy__(self, memo):
        import copy
        t = Tensor(copy.deepcopy(self.st, memo), self.dims, self.fwd, self.inv, self.canwrite)
        t.requires_grad = self.requires_grad
        t.__class__ = self.__class__
        return t
    @property
    def dtype(self): return self.st.dtype
    @property
    def device(self): return "cpu"
    @property
    def shape(self): return Size(self.dims)
    @property
    def ndim(self): return len(self.dims)
    @property
    def data(self):
        return Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)
    @data.setter
    def data(self, t):
        if not isinstance(t, Tensor): raise TypeError("data must be a tensor")
        d = self.__dict__
        d["st"], d["dims"], d["fwd"], d["inv"], d["canwrite"] = t.st, t.dims, t.fwd, t.inv, t.canwrite
    def __hash__(self): return id(self)
    def size(self, d=None):
        s = Size(self.dims)
        return s if d is None else s[d]
    def dim(self): return len(self.dims)
    def numel(self):
        r = 1
        for d in self.dims: r = mul(r, dsize(d))
        return r
    def __len__(self): raise Unsupported("len() must go through the builtin shim")
    def vc_len(self):
        if not self.dims: raise TypeError("len() of a 0-d tensor")
        return dsize(self.dims[0])
    def reader(self):
        """snapshot: index tuple -> value, as of now"""
        rd, fwd = self.st.reader(), self.fwd
        if fwd is None: return rd
        return lambda idx: rd(fwd(idx))
    def at(self, idx): return self.reader()(tuple(idx))
    # -- dtype
    def type(self, t=None):
        if t is None: return self.dtype.tname
        t = todtype(t)
        if t is self.dtype: return self
        rd, f = self.reader(), self.dtype
        return mk(self.dims, lambda i: cast(rd(i), f, t), t)
    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, DType): return self.type(x)
        return self
    def float(self): return self.type(float32)
    def long(self): return self.type(int64)
    def int(self): return self.type(int32)
    def double(self): return self.type(float64)
    def bool(self): return self.type(bool_)
    def half(self): return self.type(float16)
    def type_as(self, o): return self.type(o.dtype)
    def cpu(self): return self
    def cuda(self): return self
    def clone(self):
        rd = self.reader(); r = mk(self.dims, rd, self.dtype); return r
    def contiguous(self): return Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)
    def detach(self): return Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)
    def requires_grad_(self, v=True): self.requires_grad = v; return self
    # -- scalars
    def item(self):
        for d in self.dims:
            if not dim_is1(d):
                if not truthc(eq(dsize(d), 1)): raise RuntimeError("a Tensor with several elements cannot be converted to Scalar")
        v = self.at([0] * len(self.dims))
        return v if self.dtype.cat != 0 else truth(v)
    def __bool__(self): return bool(truth(self.item()))
    def __index__(self):
        v = self.item()
        return v if native(v) else v.__index__()
    def __int__(self): return self.__index__()
    def __float__(self):
        v = self.item()
        if native(v): return v
        raise Unsupported("float of symbolic tensor")
    def tolist(self): raise Unsupported("tolist")
    def __contains__(self, v):
        # (self == v).any()
        e = self.eq(v)
        n = self.numel()
        if native(n) and n <= 16:
            r = False
            for idx in concrete_indices(e.dims): r = orv(r, truth(e.at(idx)))
            return truthc(r)
        raise Unsupported("membership test in a large tensor")
    def __iter__(self):
        if not self.dims: raise TypeError("iteration over a 0-d tensor")
        n = dsize(self.dims[0])
        if not native(n): raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(n)])
    # -- writing
    def _assign(self, rdnew, frm=None):
        """in-place: every element of this view becomes rdnew(view index) (already broadcast), cast to our dtype"""
        if self.requires_grad and not CTX.__dict__.get("no_grad", 0):
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        if not self.canwrite: raise Unsupported("in-place write through a view the model cannot invert")
        st, d = self.st, self.dtype
        val = (lambda i: cast(rdnew(i), frm, d)) if frm is not None and frm is not d else rdnew
        st.writes += 1
        log = CTX.__dict__.get("wlog")
        if log is not None: log.append((st, st.fn, st.dims))
        if self.fwd is None:
            st.write(val); return self
        old, inv = st.reader(), self.inv
        def fn(sidx):
            cond, vidx = inv(sidx)
            if cond is True: return val(vidx)
            if cond is False: return old(sidx)
            return ite(cond, val(vidx), old(sidx))
        st.write(fn)
        return self
    def _inplace(self, res):
        """store the result tensor of an operation into self"""
        res = bcast(res, self.dims)
        if res.dtype.cat > self.dtype.cat:
            raise RuntimeError("result type %s can't be cast to the desired output type %s" % (res.dtype, self.dtype))
        return self._assign(res.reader(), res.dtype)
    def _setdata(self, t):
        """out= semantics: resize and overwrite the storage"""
        if self.fwd is not None:
            if len(t.dims) == len(self.dims) and all(dim_eq(a, b) for a, b in zip(t.dims, self.dims)):
                return self._assign(bcast(t, self.dims).reader(), t.dtype)
            raise Unsupported("out= into a view of another shape")
        if t.dtype.cat > self.dtype.cat: raise RuntimeError("result type can't be cast to the desired output type")
        st = self.st
        rd, f, d = t.reader(), t.dtype, self.dtype
        log = CTX.__dict__.get("wlog")
        if log is not None: log.append((st, st.fn, st.dims))
        st.dims = t.dims
        self.__dict__["dims"] = t.dims
        st.writes += 1
        st.write(rd if f is d else (lambda i: cast(rd(i), f, d)))
        return self
    def fill_(self, v):
        if isinstance(v, Tensor): v = v.item()
        return self._assign(lambda i: v, scalar_dtype(v))
    def zero_(self): return self.fill_(0)
    def copy_(self, o):
        o = bcast(o, self.dims); return self._assign(o.reader(), o.dtype)
    def __setitem__(self, key, v):
        if isinstance(key, Tensor) and key.dtype.cat == 0 and len(key.dims) == len(self.dims):
            if isinstance(v, Tensor):
                if v.dims: raise Unsupported("boolean mask assignment of a tensor")
                v = v.item()
            old, m = self.reader(), bcast(key, self.dims).reader()
            self._assign(lambda i: ite(truth(m(i)), v, num(old(i))), scalar_dtype(v)); return
        t = self[key]
        if t.st is not self.st: raise Unsupported("assignment through an advanced index")
        if isinstance(v, Tensor):
            v = bcast(v, t.dims); t._assign(v.reader(), v.dtype)
        else: t.fill_(v)
    # -- views
    def _view(self, dims, vmap, vinv, ok=True):
        """vmap: new index -> our index; vinv: our index -> (cond, new index)"""
        of, oi = self.fwd, self.inv
        fwd = vmap if of is None else (lambda i: of(vmap(i)))
        if oi is None and of is None: inv = vinv
        else:
            def inv(s):
                c, i = oi(s)
                c2, j = vinv(i)
                return andv(c, c2), j
        r = Tensor(self.st, dims, fwd, inv, self.canwrite and ok)
        return r
    def _nd(self, d):
        n = len(self.dims)
        if isinstance(d, SV): d = d.__index__()
        if not -n <= d < max(n, 1): raise IndexError("Dimension out of range")
        return d % n if n else 0
    def unsqueeze(self, d):
        n = len(self.dims)
        if not -n - 1 <= d <= n: raise IndexError("Dimension out of range")
        d = d % (n + 1)
        return self._view(self.dims[:d] + (1,) + self.dims[d:], lambda i: i[:d] + i[d + 1:], lambda s: (True, s[:d] + (0,) + s[d:]))
    def squeeze(self, d=None):
        if d is None:
            r = self
            for k in reversed(range(len(self.dims))):
                if truthc(eq(dsize(r.dims[k]), 1)): r = r.squeeze(k)
            return r if r is not self else Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)
        d = self._nd(d)
        if not dim_is1(self.dims[d]) and not truthc(eq(dsize(self.dims[d]), 1)):
            return Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)
        return self._view(self.dims[:d] + self.dims[d + 1:], lambda i: i[:d] + (0,) + i[d:], lambda s: (True, s[:d] + s[d + 1:]))
    def _become(self, t):
        d = self.__dict__
        d["dims"], d["fwd"], d["inv"], d["canwrite"] = t.dims, t.fwd, t.inv, t.canwrite
        return self
    def unsqueeze_(self, d): return self._become(self.unsqueeze(d))
    def squeeze_(self, d=None): return self._become(self.squeeze(d))
    def transpose(self, a, b):
        a, b = self._nd(a), self._nd(b)
        def sw(i):
            i = list(i); i[a], i[b] = i[b], i[a]; return tuple(i)
        return self._view(sw(self.dims), sw, lambda s: (True, sw(s)))
    def t(self):
        if len(self.dims) > 2: raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return self.transpose(0, 1) if len(self.dims) == 2 else self
    @property
    def T(self): return self.t()
    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)): p = tuple(p[0])
        p = [self._nd(x) for x in p]
        inv = [p.index(k) for k in range(len(p))]
        return self._view(tuple(self.dims[k] for k in p), lambda i: tuple(i[inv[k]] for k in range(len(p))),
                          lambda s: (True, tuple(s[k] for k in p)))
    def expand(self, *sh):
        sh = shape_of(sh)
        return bcast_view(self, sh)
    def expand_as(self, o): return bcast_view(self, o.dims)
    def view(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], DType): raise Unsupported("view(dtype)")
        return reshape(self, shape_of(sh), view=True)
    def reshape(self, *sh): return reshape(self, shape_of(sh))
    def view_as(self, o): return reshape(self, o.dims, view=True)
    def flatten(self, start_dim=0, end_dim=-1):
        a, b = self._nd(start_dim), self._nd(end_dim)
        return reshape(self, self.dims[:a] + (-1,) + self.dims[b + 1:])
    def select(self, d, i):
        d = self._nd(d); i = index_ok(i, dsize(self.dims[d]), "index")
        if isinstance(self.dims[d], MDim): raise Unsupported("select in merged dimension")
        return self._view(self.dims[:d] + self.dims[d + 1:], lambda v: v[:d] + (i,) + v[d:],
                          lambda s: (eq(iscal(s[d]), i), s[:d] + s[d + 1:]))
    def _slice(self, d, sl):
        n = dsize(self.dims[d])
        step = 1 if sl.step is None else sl.step
        def asn(v):
            if isinstance(v, Tensor): v = v.item()
            return v
        lo, hi = asn(sl.start), asn(sl.stop)
        if lo is None and hi is None and step == 1: return self
        if native(step) and step < 1: raise ValueError("step must be greater than zero")
        if isinstance(self.dims[d], MDim): raise Unsupported("slice of merged dimension")
        lo = 0 if lo is None else lo
        hi = n if hi is None else hi
        def nrm(v):
            if native(v): v = add(v, n) if v < 0 else v
            else:
                a, _ = bounds(v)
                if a is None or a < 0: v = ite(lt(v, 0), add(v, n), v)
            return clampv(v, 0, n)
        lo, hi = nrm(lo), nrm(hi)
        ln = maxv(0, sub(hi, lo))
        if step != 1: ln = floordiv(add(ln, step - 1), step)
        if isinstance(ln, SV):
            if CTX.entails(eq(ln, n)): ln = n
        def inv(s):
            o = sub(iscal(s[d]), lo)
            c = andv(le(0, o), lt(o, mul(ln, step)))
            if step != 1: c = andv(c, eq(mod(o, step), 0)); o = floordiv(o, step)
            return c, s[:d] + (o,) + s[d + 1:]
        return self._view(self.dims[:d] + (ln,) + self.dims[d + 1:],
                          lambda v: v[:d] + (add(lo, mul(step, iscal(v[d]))),) + v[d + 1:], inv)
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key,)
        key = list(key)
        nspec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if not isinstance(k, (Tensor, SV))]:
            p = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (len(self.dims) - nspec)
        if sum(1 for k in key if k is not None) > len(self.dims): raise IndexError("too many indices for tensor")
        adv = [k for k in key if isinstance(k, (Tensor, list)) and not (isinstance(k, Tensor) and not k.dims and k.dtype.cat == 1)]
        if adv: return adv_index(self, key)
        r, d = self, 0
        for k in key:
            if k is None: r = r.unsqueeze(d); d += 1
            elif isinstance(k, slice): r = r._slice(d, k); d += 1
            elif isinstance(k, (int, SV, Tensor)):
                if isinstance(k, bool): raise Unsupported("bool index")
                r = r.select(d, k.item() if isinstance(k, Tensor) else k)
            else: raise Unsupported("index of type %s" % type(k))
        return r if r is not self else Tensor(self.st, self.dims, self.fwd, self.inv, self.canwrite)

def concrete_indices(dims):
    return itertools.product(*[range(dsize(d)) for d in dims])

def index_ok(i, n, what):
    """python/torch index normalisation with an in-range safety obligation"""
    i = num(i)
    if native(i, n):
        if not -n <= i < n: raise IndexError("index %d is out of bounds for dimension with size %d" % (i, n))
        return i + n if i < 0 else i
    if CTX.entails(andv(le(0, i), lt(i, n))): return i
    if native(i) and i < 0:
        if not CTX.entails(le(-i, n)): CTX.prove(le(-i, n), "%s in range" % what, "safety")
        return add(n, i)
    if truthc(lt(i, 0)):
        CTX.prove(le(sub(0, n), i), "%s in range" % what, "safety"); return add(i, n)
    CTX.prove(lt(i, n), "%s in range" % what, "safety")
    return i

def adv_index(t, key):
    key = key + [slice(None)] * (len(t.dims) - sum(1 for k in key if k is not None))
    if any(k is None for k in key): raise Unsupported("None with advanced index")
    tk = []
    for k in key:
        if isinstance(k, list): k = tensor(k)
        if isinstance(k, Tensor) and k.dtype.cat == 0: raise Unsupported("boolean mask index")
        if isinstance(k, Tensor) and k.dtype.cat == 2: raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        tk.append(k)
    pos = [j for j, k in enumerate(tk) if isinstance(k, Tensor)]
    ints = [j for j, k in enumerate(tk) if isinstance(k, (int, SV))]
    if ints:   # ints participate as 0-d index tensors
        for j in ints: tk[j] = tensor_scalar(tk[j], int64)
        pos = [j for j, k in enumerate(tk) if isinstance(k, Tensor)]
    for j, k in enumerate(tk):
        if isinstance(k, slice):
            if not (k.start is None and k.stop is None): raise Unsupported("slice with advanced index")
    if pos != list(range(pos[0], pos[0] + len(pos))): raise Unsupported("non-adjacent advanced indices")
    bd = bshape(*[tk[j].dims for j in pos])
    readers = [bcast(tk[j], bd).reader() for j in pos]
    sizes = [dsize(t.dims[j]) for j in pos]
    # safety at a generic element
    gi = tuple(fresh_indices(bd, "ix"))
    negs = []
    for rd, n in zip(readers, sizes):
        v = rd(gi)
        lo, hi = bounds(v)
        if CTX.entails(andv(le(0, v), lt(v, n)), 4000): negs.append(False)
        else:
            CTX.prove(andv(le(sub(0, n), v), lt(v, n)), "advanced index in range", "safety")
            negs.append(True)
    p0, k, src = pos[0], len(pos), t.reader()
    nb = len(bd)
    def fn(i):
        mid = []
        for rd, n, ng in zip(readers, sizes, negs):
            v = rd(i[p0:p0 + nb])
            if not native(v) and not ng:
                CTX.fact_once(("inrange", v.z.get_id(), Z(n).get_id()), lambda: z3.And(v.z >= 0, v.z < Z(n)) if False else z3.BoolVal(True), keep=(v.z,))
            mid.append(ite(lt(v, 0), add(v, n), v) if ng else v)
        return src(i[:p0] + tuple(mid) + i[p0 + nb:])
    return mk(t.dims[:p0] + bd + t.dims[p0 + k:], fn, t.dtype)

class Size(tuple):
    def __new__(cls, dims): return tuple.__new__(cls, [dsize(d) for d in dims])
    def numel(self):
        r = 1
        for d in self: r = mul(r, d)
        return r
    def __eq__(self, o): return seq_eq(self, o)
    def __ne__(self, o): return not seq_eq(self, o)
    __hash__ = tuple.__hash__
def seq_eq(a, b):
    if not isinstance(b, (tuple, list)) or len(a) != len(b): return False
    return truthc(andv(*[eq(x, y) for x, y in zip(a, b)])) if a else True

def todtype(t):
    if isinstance(t, DType): return t
    if isinstance(t, str):
        for d in DTYPES:
            if d.tname == t: return d
    raise Unsupported("dtype %r" % (t,))

def shape_of(sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
    return tuple(s.item() if isinstance(s, Tensor) else s for s in sh)

def bshape(*shs):
    n = max(len(s) for s in shs) if shs else 0
    out = []
    for k in range(n):
        cur = 1
        for s in shs:
            j = k - (n - len(s))
            if j < 0: continue
            d = s[j]
            if dim_is1(d): continue
            if dim_is1(cur): cur = d; continue
            if dim_eq_syn(cur, d): continue
            if dim_eq(cur, d):
                if isinstance(d, MDim) and not isinstance(cur, MDim): cur = d
                continue
            if truthc(eq(dsize(d), 1)): continue
            if truthc(eq(dsize(cur), 1)): cur = d; continue
            raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s)" % (cur, d))
        out.append(cur)
    return tuple(out)

def bmap(src, dst):
    """index map dst->src for broadcasting"""
    off = len(dst) - len(src)
    if off < 0: raise RuntimeError("shape mismatch: cannot broadcast %s to %s" % (src, dst))
    for j in range(len(src)):
        if not dim_is1(src[j]) and not dim_eq(src[j], dst[off + j]):
            if not truthc(eq(dsize(src[j]), 1)):
                raise RuntimeError("cannot broadcast %s to %s" % (src, dst))
    one = [dim_is1(d) for d in src]
    # a dimension symbolically equal to 1 (on this path) but not literally
    for j in range(len(src)):
        if not one[j] and not dim_eq_syn(src[j], dst[off + j]) and not CTX.entails(eq(dsize(src[j]), dsize(dst[off + j]))): one[j] = True
    conv = [isinstance(src[j], MDim) != isinstance(dst[off + j], MDim) for j in range(len(src))]
    def fwd(i):
        out = []
        for j in range(len(src)):
            if one[j]: out.append(zero_index(src[j]))
            elif conv[j]: out.append(to_dim_index(i[off + j], src[j]))
            else: out.append(i[off + j])
        return tuple(out)
    if off == 0 and not any(one) and not any(conv): return None
    return fwd
def zero_index(d): return Pack([zero_index(x) for x in d.dims], [dsize(x) for x in d.dims]) if isinstance(d, MDim) else 0
def to_dim_index(i, d):
    """index i used in a dimension described by d"""
    if isinstance(d, MDim):
        if isinstance(i, Pack) and len(i.idx) == len(d.dims): return i
        v, out = iscal(i), []
        for x in reversed(d.dims[1:]):
            out.append(to_dim_index(mod(v, dsize(x)), x)); v = floordiv(v, dsize(x))
        out.append(to_dim_index(v, d.dims[0]))
        return Pack(out[::-1], [dsize(x) for x in d.dims])
    return iscal(i)

def bcast(t, dims):
    """read-only broadcast copy"""
    if not isinstance(t, Tensor):
        return mk(dims, lambda i: t, scalar_dtype(t))
    f = bmap(t.dims, dims)
    if f is None: return t
    rd = t.reader()
    return mk(dims, lambda i: rd(f(i)), t.dtype)
def bcast_view(t, dims):
    off = len(dims) - len(t.dims)
    dims = tuple(t.dims[j - off] if (not isinstance(d, MDim) and native(d) and d == -1) else d for j, d in enumerate(dims))
    f = bmap(t.dims, dims)
    if f is None: return t
    r = t._view(dims, f, None, ok=False)
    return r

def reshape(t, sh, view=False):
    """reshape by grouping: supports merging, splitting and inserting size-1 dimensions"""
    old = list(t.dims)
    sh = list(sh)
    neg = [j for j, s in enumerate(sh) if not isinstance(s, MDim) and native(s) and s == -1]
    if len(neg) > 1: raise RuntimeError("only one dimension can be inferred")
    flat = flatten_dims(old)          # atomic dims, size-1 dropped
    want = [s if isinstance(s, MDim) else s for s in sh]
    # greedy matching from the left and the right around -1
    def consume(sizes, atoms):
        """assign atoms to requested sizes left to right; returns list of groups"""
        groups, k = [], 0
        for s in sizes:
            if dim_is1(s): groups.append([]); continue
            g, acc = [], 1
            tgt = dsize(s)
            while not same(acc, tgt):
                if k >= len(atoms): return None, None
                a = atoms[k]
                if native(acc, tgt, a) and acc * a > tgt:
                    # split atom a into (tgt/acc) and rest
                    need = tgt // acc
                    if acc * need != tgt or a % need: return None, None
                    atoms = atoms[:k] + [("split", a, need)] + atoms[k + 1:]
                    return "split", (k, need)
                g.append(a); acc = mul(acc, a); k += 1
            groups.append(g)
        return groups, k
    def same(a, b):
        if native(a, b): return a == b
        if native(a) or native(b):
            return CTX.entails(eq(a, b))
        return a.z.eq(b.z) or CTX.entails(eq(a, b))
    atoms = flat
    splits = []
    for _ in range(12):
        if neg:
            p = neg[0]
            left, k = consume(want[:p], atoms)
            if left == "split": atoms, splits = do_split(atoms, splits, k); continue
            if left is None: raise Unsupported("reshape %s -> %s" % (old, sh))
            rest = atoms[k:]
            right, m = consume(list(reversed(want[p + 1:])), list(reversed(rest)))
            if right == "split":
                kk, need = m
                n = len(atoms) - 1 - kk
                atoms, splits = do_split(atoms, splits, (n, atoms[n] // need)); continue
            if right is None: raise Unsupported("reshape %s -> %s" % (old, sh))
            mid = rest[:len(rest) - m]
            groups = left + [mid] + [list(reversed(g)) for g in reversed(right)]
        else:
            groups, k = consume(want, atoms)
            if groups == "split": atoms, splits = do_split(atoms, splits, k); continue
            if groups is None:
                if sum(1 for a in atoms) == 0 and all(same(dsize(s), 1) for s in sh): groups = [[] for _ in sh]
                else:
                    # sizes may simply be inconsistent
                    tot = 1
                    for s in sh: tot = mul(tot, dsize(s))
                    if not same(tot, t.numel()) and CTX.entails(ne(tot, t.numel())):
                        raise RuntimeError("shape %s is invalid for input of size %s" % (sh, t.numel()))
                    raise Unsupported("reshape %s -> %s" % (old, sh))
            elif k != len(atoms):
                if all(same(a, 1) for a in atoms[k:]): atoms = atoms[:k]
                else: raise RuntimeError("shape %s is invalid for input of size %s" % (sh, t.numel()))
        break
    else: raise Unsupported("reshape %s -> %s" % (old, sh))
    ndims = []
    for g, s in zip(groups, want):
        if len(g) == 0: ndims.append(1)
        elif len(g) == 1: ndims.append(g[0])
        else: ndims.append(MDim(g))
    atoms_f = atoms
    def new_to_atoms(i):
        out = []
        for g, x in zip(groups, i):
            if len(g) == 0: continue
            if len(g) == 1: out.append(iscal(x))
            else: out += list(to_dim_index(x, MDim(g)).idx)
        return out
    def atoms_to_old(at):
        at = unsplit(list(at), splits)
        out, k = [], [0]
        def build(d):
            if isinstance(d, MDim): return Pack([build(x) for x in d.dims], [dsize(x) for x in d.dims])
            if dim_is1(d): return 0
            v = at[k[0]]; k[0] += 1; return v
        return tuple(build(d) for d in old)
    def old_to_atoms(s):
        out = []
        def walk(d, i):
            if isinstance(d, MDim):
                i = to_dim_index(i, d)
                for x, j in zip(d.dims, i.idx): walk(x, j)
            elif not dim_is1(d): out.append(iscal(i))
        for d, i in zip(old, s): walk(d, i)
        return resplit(out, splits)
    def atoms_to_new(at):
        out, k = [], 0
        for g in groups:
            if len(g) == 0: out.append(0)
            elif len(g) == 1: out.append(at[k]); k += 1
            else: out.append(Pack(at[k:k + len(g)], g)); k += len(g)
        return tuple(out)
    return t._view(tuple(ndims), lambda i: atoms_to_old(new_to_atoms(i)), lambda s: (True, atoms_to_new(old_to_atoms(s))))

def flatten_dims(dims):
    out = []
    for d in dims:
        if isinstance(d, MDim): out += flatten_dims(d.dims)
        elif not dim_is1(d): out.append(d)
    return out
def do_split(atoms, splits, kn):
    k, need = kn
    a = atoms[k]
    return atoms[:k] + [need, a // need] + atoms[k + 1:], splits + [(k, a // need)]
def unsplit(at, splits):
    for k, inner in reversed(splits):
        at[k:k + 2] = [add(mul(at[k], inner), at[k + 1])]
    return at
def resplit(at, splits):
    at = list(at)
    for k, inner in splits:
        at[k:k + 1] = [floordiv(at[k], inner), mod(at[k], inner)]
    return at

# ------------------------------------------------------------------ elementwise
def as_operand(x):
    if isinstance(x, (Tensor, int, float, Fraction, SV, bool)): return x
    raise TypeError("unsupported operand type for tensor operation: %s" % type(x).__name__)
def pointwise(f, dtype, *ops):
    for o in ops: as_operand(o)
    ts = [o for o in ops if isinstance(o, Tensor)]
    dims = bshape(*[t.dims for t in ts])
    rds = []
    for o in ops:
        if isinstance(o, Tensor):
            m = bmap(o.dims, dims); r = o.reader()
            rds.append(r if m is None else (lambda i, r=r, m=m: r(m(i))))
        else:
            c = norm(o) if native(o) else o
            rds.append(lambda i, c=c: c)
    return mk(dims, lambda i: f(*[r(i) for r in rds]), dtype)

def arith(name, f):
    def op(a, b, alpha=1):
        if isinstance(alpha, Tensor) or alpha != 1: b = arith_mul(b, alpha)
        d = result_dtype(a, b)
        if d is bool_ and name == "sub": raise RuntimeError("Subtraction, the `-` operator, with two bool tensors is not supported")
        if d is bool_: return pointwise(lambda x, y: num(truth_or(name, x, y)), d, a, b)
        return pointwise(lambda x, y: wrap(f(num(x), num(y)), d), d, a, b)
    return op
def truth_or(name, x, y):
    return orv(x, y) if name == "add" else andv(x, y)
t_add = arith("add", add); t_sub = arith("sub", sub); arith_mul = t_mul = arith("mul", mul)
def safe_den(den_rd, dims, what="divisor"):
    gi = tuple(fresh_indices(dims, "dv"))
    CTX.prove(ne(den_rd(gi), 0), "%s is nonzero" % what, "safety")
def t_div(a, b, rounding_mode=None):
    d = result_dtype(a, b)
    if isinstance(b, Tensor): safe_den(b.reader(), b.dims)
    elif native(b) and norm(b) == 0: raise Unsupported("division by the constant 0")
    elif not native(b): CTX.prove(ne(b, 0), "divisor is nonzero", "safety")
    if rounding_mode == "floor": return pointwise(lambda x, y: floor(divr(x, y)) if d.cat == 2 else floordiv(x, y), d, a, b)
    if rounding_mode == "trunc": return pointwise(lambda x, y: trunc(divr(x, y)), d, a, b)
    if d.cat != 2: d = float32
    return pointwise(divr, d, a, b)
def t_remainder(a, b):
    d = result_dtype(a, b)
    def f(x, y):
        if sortof(x) == "r" or sortof(y) == "r": return sub(x, mul(y, floor(divr(x, y))))
        return mod(x, y)
    if not isinstance(b, Tensor) and not native(b): CTX.prove(lt(0, b), "modulus is positive", "safety")
    return pointwise(f, d, a, b)
def t_floordiv(a, b): return t_div(a, b, "floor")
def t_pow(a, b):
    d = result_dtype(a, b)
    return pointwise(lambda x, y: wrap(power(x, y), d), d, a, b)
def cmp(f):
    return lambda a, b: pointwise(lambda x, y: num(f(num(x), num(y))), bool_, a, b)
t_eq, t_ne, t_lt, t_le, t_gt, t_ge = cmp(eq), cmp(ne), cmp(lt), cmp(le), cmp(gt), cmp(ge)
def t_max2(a, b): return pointwise(maxv, result_dtype(a, b), a, b)
def t_min2(a, b): return pointwise(minv, result_dtype(a, b), a, b)
def t_bit(op):
    def f(a, b):
        d = result_dtype(a, b)
        if d.cat == 2: raise RuntimeError('"bitwise_%s_cpu" not implemented for \'Float\'' % op)
        return pointwise(lambda x, y: num(bitop(op, num(x), num(y))), d, a, b)
    return f
t_and, t_or, t_xor = t_bit("and"), t_bit("or"), t_bit("xor")
def t_shift(left):
    def f(a, b):
        d = result_dtype(a, b)
        if d.cat == 2: raise NotImplementedError('"%s_cpu" not implemented for \'Float\'' % ("lshift" if left else "rshift"))
        return pointwise(lambda x, y: wrap(mul(x, power(2, y)) if left else floordiv(x, power(2, y)), d), d, a, b)
    return f
def t_logic(fn):
    return lambda a, b: pointwise(lambda x, y: num(fn(truth(x), truth(y))), bool_, a, b)
t_logical_and, t_logical_or = t_logic(andv), t_logic(orv)
t_logical_xor = t_logic(lambda x, y: notv(iff(x, y)))
def t_logical_not(a): return pointwise(lambda x: num(notv(truth(x))), bool_, a)
def t_invert(a):
    if a.dtype is bool_: return t_logical_not(a)
    if a.dtype.cat == 2: raise TypeError("~ is only for integer and bool")
    return pointwise(lambda x: sub(-1, x), a.dtype, a)
def unary(f, keep=True, fl=False):
    def op(a):
        d = a.dtype
        if fl and d.cat != 2: d = float32
        return pointwise(lambda x: wrap(f(num(x)), d), d, a)
    return op
t_abs, t_neg, t_sign = unary(absv), unary(lambda x: sub(0, x)), unary(sign)
t_round, t_floor, t_ceil, t_trunc = unary(rnd), unary(floor), unary(ceil), unary(trunc)
t_frac = unary(lambda x: sub(x, trunc(x)))
t_square = unary(lambda x: mul(x, x))
def _rr(f):
    def op(a, decimals=0, **k):
        if decimals: raise Unsupported("round with decimals")
        return f(a)
    return op
t_round = _rr(t_round)
def t_clamp(a, min=None, max=None):
    if min is None and max is None: raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    ops = [a] + [x for x in (min, max) if x is not None]
    d = result_dtype(*ops)
    hasmin, hasmax = min is not None, max is not None
    def f(x, *r):
        r = list(r)
        lo = r.pop(0) if hasmin else None
        hi = r.pop(0) if hasmax else None
        return clampv(x, lo, hi)
    return pointwise(f, d, *ops)
def t_where(c, a, b):
    d = result_dtype(a, b)
    return pointwise(lambda k, x, y: ite(truth(k), num(x), num(y)), d, c, a, b)

# ------------------------------------------------------------------ reductions etc.
def _red_dims(t, dim):
    if dim is None: return list(range(len(t.dims)))
    if isinstance(dim, (tuple, list)): return sorted(t._nd(d) for d in dim)
    return [t._nd(dim)]
def _sum_over(dims, f):
    """nested sum of f(index list) over the given dims"""
    if not dims: return f([])
    d = dims[0]
    if isinstance(d, MDim):
        k = len(d.dims)
        return _sum_over(list(d.dims) + list(dims[1:]), lambda ix: f([Pack(ix[:k], [dsize(x) for x in d.dims])] + ix[k:]))
    if dim_is1(d): return _sum_over(dims[1:], lambda ix: f([0] + ix))
    return Sum(d, lambda k: _sum_over(dims[1:], lambda ix: f([k] + ix)))
def t_sum(t, dim=None, keepdim=False, dtype=None):
    if not t.dims: return t.clone()
    ds = _red_dims(t, dim)
    rd = t.reader()
    d = dtype or (int64 if t.dtype.cat < 2 else t.dtype)
    keep = [j for j in range(len(t.dims)) if j not in ds]
    def fn(i):
        if keepdim: base = {j: i[j] for j in keep}
        else: base = dict(zip(keep, i))
        def at(ix):
            full = dict(base)
            for j, x in zip(ds, ix): full[j] = x
            return num(rd(tuple(full[j] for j in range(len(t.dims)))))
        return wrap(_sum_over([t.dims[j] for j in ds], at), d)
    nd = tuple(1 if j in ds else t.dims[j] for j in range(len(t.dims))) if keepdim else tuple(t.dims[j] for j in keep)
    return mk(nd, fn, d)
def t_mean(t, dim=None, keepdim=False):
    s = t_sum(t, dim, keepdim)
    n = 1
    for j in _red_dims(t, dim): n = mul(n, dsize(t.dims[j]))
    return t_div(s, n)
def contract(n_dim, f): return _sum_over([n_dim], lambda ix: f(ix[0]))
def t_matmul(a, b):
    if a.dtype is not b.dtype: raise RuntimeError("expected m1 and m2 to have the same dtype")
    A, B = a, b
    if len(a.dims) == 1: a = a.unsqueeze(0)
    if len(b.dims) == 1: b = b.unsqueeze(1)
    ka, kb = a.dims[-1], b.dims[-2]
    if not dim_eq(ka, kb): raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    kd = ka if isinstance(ka, MDim) or not isinstance(kb, MDim) else kb
    bd = bshape(a.dims[:-2], b.dims[:-2])
    ma, mb = bmap(a.dims[:-2], bd), bmap(b.dims[:-2], bd)
    ra, rb = a.reader(), b.reader()
    nb = len(bd)
    def fn(i):
        bi = i[:nb]
        ia, ib = (bi if ma is None else ma(bi)), (bi if mb is None else mb(bi))
        def term(k):
            k1, k2 = to_dim_index(k, ka), to_dim_index(k, kb)
            return mul(ra(ia + (i[nb], k1)), rb(ib + (k2, i[nb + 1])))
        return wrap(contract(kd, term), a.dtype)
    r = mk(bd + (a.dims[-2], b.dims[-1]), fn, a.dtype)
    if len(A.dims) == 1: r = r.squeeze(-2)
    if len(B.dims) == 1: r = r.squeeze(-1)
    return r
def t_linear(x, w, bias=None):
    r = t_matmul(x, w.t())
    return r if bias is None else t_add(r, bias)

def expand_seq(seq):
    """list of tensors / RepList -> list of (tensor, count)"""
    if isinstance(seq, RepList): return [(t, seq.n) for t in seq.items] if len(seq.items) == 1 else unsup("repeated list")
    if isinstance(seq, Tensor): return [(seq[i], 1) for i in range(seq.vc_len())]
    return [(t, 1) for t in seq]
def unsup(m): raise Unsupported(m)
def t_cat(seq, dim=0):
    if isinstance(seq, SymList):
        t, rd = elements(seq)
        d = t._nd(dim)
        if dim_is1(t.dims[d]): return mk(t.dims[:d] + (seq.n,) + t.dims[d + 1:], lambda i: rd(i[d], i[:d] + (0,) + i[d + 1:]), t.dtype)
        m = MDim((seq.n, t.dims[d]))
        def fn(i):
            k, r = to_dim_index(i[d], m).idx
            return rd(k, i[:d] + (r,) + i[d + 1:])
        return mk(t.dims[:d] + (m,) + t.dims[d + 1:], fn, t.dtype)
    parts = expand_seq(seq)
    ts = [p[0] for p in parts]
    d = ts[0]._nd(dim)
    dt = result_dtype(*ts)
    for t in ts[1:]:
        if len(t.dims) != len(ts[0].dims): raise RuntimeError("Tensors must have same number of dimensions")
        for j in range(len(t.dims)):
            if j != d and not dim_eq(t.dims[j], ts[0].dims[j]): raise RuntimeError("Sizes of tensors must match except in dimension %d" % d)
    if len(parts) == 1 and not (native(parts[0][1]) and parts[0][1] == 1):
        t, n = parts[0]
        rd, m = t.reader(), t.dims[d]
        if dim_is1(m) :
            return mk(t.dims[:d] + (n,) + t.dims[d + 1:], lambda i: rd(i[:d] + (0,) + i[d + 1:]), t.dtype)
        return mk(t.dims[:d] + (MDim((n, m)),) + t.dims[d + 1:],
                  lambda i: rd(i[:d] + (to_dim_index(i[d], MDim((n, m))).idx[1],) + i[d + 1:]), t.dtype)
    flat = []
    for t, n in parts:
        if not native(n): raise Unsupported("cat of repeated lists")
        flat += [t] * n
    offs, tot = [], 0
    for t in flat:
        offs.append(tot); tot = add(tot, dsize(t.dims[d]))
    rds = [t.reader() for t in flat]
    def fn(i):
        x = iscal(i[d]); r = None
        for t, o, rd in reversed(list(zip(flat, offs, rds))):
            loc = sub(x, o)
            if r is None: r = lazy(rd, i, d, loc, t)
            else:
                nxt = r
                c = lt(x, add(o, dsize(t.dims[d])))
                r = ite2(c, lazy(rd, i, d, loc, t), nxt)
        return r() if callable(r) else r
    return mk(flat[0].dims[:d] + (tot,) + flat[0].dims[d + 1:], fn, dt)
def lazy(rd, i, d, loc, t): return lambda: num(rd(i[:d] + (to_dim_index(loc, t.dims[d]),) + i[d + 1:]))
def ite2(c, a, b):
    def f():
        if native(c): return a() if c else b()
        if CTX.entails(c, 300): return a()
        if CTX.entails(notv(c), 300): return b()
        return ite(c, a(), b())
    return f
def elements(seq):
    """dims, dtype and element reader of a symbolic list of tensors"""
    k = CTX.int("elem"); CTX.assume(le(1, seq.n)) if CTX.entails(le(1, seq.n)) else unsup("stack of a list that may be empty")
    t = seq.fn(k)
    if not isinstance(t, Tensor): raise RuntimeError("expected a list of tensors")
    from . import sums
    if any(not native(dsize(d)) and k.z.decl().name() in sums.free(dsize(d).z) for d in t.dims): raise Unsupported("a list of tensors of different shapes")
    return t, lambda k, i: num(seq.fn(iscal(k)).at(i))
def t_stack(seq, dim=0):
    if isinstance(seq, SymList):
        t, rd = elements(seq)
        d = dim % (len(t.dims) + 1)
        return mk(t.dims[:d] + (seq.n,) + t.dims[d:], lambda i: rd(i[d], i[:d] + i[d + 1:]), t.dtype)
    ts = [p[0] for p in expand_seq(seq)]
    n = len(ts[0].dims)
    d = dim % (n + 1)
    for t in ts[1:]:
        if len(t.dims) != n or not all(dim_eq(x, y) for x, y in zip(t.dims, ts[0].dims)):
            raise RuntimeError("stack expects each tensor to be equal size")
    dt = result_dtype(*ts)
    rds = [t.reader() for t in ts]
    def fn(i):
        k, rest = i[d], i[:d] + i[d + 1:]
        if native(k): return num(rds[k](rest))
        r = num(rds[-1](rest))
        for j in reversed(range(len(ts) - 1)): r = ite(eq(k, j), num(rds[j](rest)), r)
        return r
    return mk(ts[0].dims[:d] + (len(ts),) + ts[0].dims[d:], fn, dt)
def t_roll(t, shifts, dims=None):
    if dims is None: raise Unsupported("roll without dims")
    if isinstance(shifts, (tuple, list)):
        if len(shifts) != 1: raise Unsupported("multi-dimensional roll")
        shifts, dims = shifts[0], dims[0]
    d = t._nd(dims)
    n = dsize(t.dims[d]); rd = t.reader()
    def src(x):
        if native(n, shifts, x): return (x - shifts) % n
        if native(shifts) and abs(shifts) == 1:
            if shifts == -1: return ite(eq(x, sub(n, 1)), 0, add(x, 1))
            return ite(eq(x, 0), sub(n, 1), sub(x, 1))
        return mod(sub(x, shifts), n)
    return mk(t.dims, lambda i: rd(i[:d] + (src(iscal(i[d])),) + i[d + 1:]), t.dtype)
def t_flip(t, dims):
    ds = _red_dims(t, dims); rd = t.reader()
    return mk(t.dims, lambda i: rd(tuple(sub(sub(dsize(t.dims[j]), 1), iscal(x)) if j in ds else x for j, x in enumerate(i))), t.dtype)
def t_repeat(t, *sh):
    sh = shape_of(sh)
    off = len(sh) - len(t.dims)
    if off < 0: raise RuntimeError("Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor")
    rd = t.reader()
    dims = []
    for j, s in enumerate(sh):
        o = 1 if j < off else t.dims[j - off]
        dims.append(o if dim_is1(s) else (s if dim_is1(o) else MDim((s, o))))
    def fn(i):
        out = []
        for j in range(off, len(sh)):
            o, s = t.dims[j - off], sh[j]
            if dim_is1(s): out.append(i[j])
            elif dim_is1(o): out.append(0)
            else: out.append(to_dim_index(i[j], MDim((s, o))).idx[1])
        return rd(tuple(out))
    return mk(tuple(dims), fn, t.dtype)

def tensor_scalar(v, dtype=None):
    v = norm(v) if native(v) else v
    return mk((), lambda i: num(v), dtype or scalar_dtype(v))
def tensor(x, dtype=None):
    if isinstance(x, Tensor): r = x.clone(); return r if dtype is None else r.type(dtype)
    if isinstance(x, SymList):
        f = x.fn
        k = f(CTX.int("probe", 0, None))
        d = scalar_dtype(k)
        r = mk((x.n,), lambda i: num(f(iscal(i[0]))), d)
        return r if dtype is None else r.type(dtype)
    if isinstance(x, (list, tuple)):
        vals = list(x)
        if vals and all(isinstance(v, (list, tuple)) for v in vals):
            ts = [tensor(v) for v in vals]
            r = t_stack(ts, 0)
        else:
            vals = [v.item() if isinstance(v, Tensor) else v for v in vals]
            d = None
            for v in vals: d = scalar_dtype(v) if d is None else promote2(d, scalar_dtype(v))
            vals = [norm(v) if native(v) else v for v in vals]
            def fn(i):
                k = iscal(i[0])
                if native(k): return num(vals[k])
                r = num(vals[-1])
                for j in reversed(range(len(vals) - 1)): r = ite(eq(k, j), num(vals[j]), r)
                return r
            r = mk((len(vals),), fn, d or float32)
        return r if dtype is None else r.type(dtype)
    r = tensor_scalar(x)
    return r if dtype is None else r.type(dtype)
def full(dims, v, dtype=float32):
    return mk(tuple(dims), lambda i: v, dtype)
def arange(*a, dtype=None):
    a = [x.item() if isinstance(x, Tensor) else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not native(st) or st != 1:
        n = floordiv(add(sub(hi, lo), st - 1), st)
    else: n = sub(hi, lo)
    return mk((n,), lambda i: add(lo, mul(st, iscal(i[0]))), dtype or (int64 if all(sortof(x) == "i" for x in a) else float32))

# method table
def _m(name, f): setattr(Tensor, name, f)
def _bin(name, f, inplace=True):
    _m(name, lambda s, o, **k: f(s, o, **k))
    if inplace: _m(name + "_", lambda s, o, **k: s._inplace(f(s, o, **k)))
for n, f in dict(add=t_add, sub=t_sub, mul=t_mul, div=t_div, true_divide=t_div, remainder=t_remainder, floor_divide=t_floordiv,
                 pow=t_pow, bitwise_and=t_and, bitwise_or=t_or, bitwise_xor=t_xor, subtract=t_sub, multiply=t_mul, divide=t_div,
                 logical_and=t_logical_and, logical_or=t_logical_or, logical_xor=t_logical_xor, maximum=t_max2, minimum=t_min2).items(): _bin(n, f)
for n, f in dict(eq=t_eq, ne=t_ne, lt=t_lt, le=t_le, gt=t_gt, ge=t_ge, not_equal=t_ne, less=t_lt, greater=t_gt, greater_equal=t_ge, less_equal=t_le).items(): _bin(n, f)
for n, f in dict(abs=t_abs, neg=t_neg, sign=t_sign, round=t_round, floor=t_floor, ceil=t_ceil, trunc=t_trunc, frac=t_frac,
                 square=t_square, logical_not=t_logical_not).items():
    _m(n, (lambda f: lambda s, **k: f(s, **k))(f)); _m(n + "_", (lambda f: lambda s, **k: s._inplace(f(s, **k)))(f))
Tensor.bitwise_not = lambda s: t_invert(s)
Tensor.clamp = lambda s, min=None, max=None: t_clamp(s, min, max)
Tensor.clamp_ = lambda s, min=None, max=None: s._inplace(t_clamp(s, min, max))
Tensor.clip, Tensor.clip_ = Tensor.clamp, Tensor.clamp_
Tensor.clamp_min = lambda s, m: t_clamp(s, m, None)
Tensor.clamp_max = lambda s, m: t_clamp(s, None, m)
Tensor.sum = lambda s, dim=None, keepdim=False, dtype=None: t_sum(s, dim, keepdim, dtype)
Tensor.mean = lambda s, dim=None, keepdim=False: t_mean(s, dim, keepdim)
Tensor.matmul = lambda s, o: t_matmul(s, o)
Tensor.mm = Tensor.matmul
Tensor.roll = lambda s, sh, dims=None: t_roll(s, sh, dims)
Tensor.flip = lambda s, *d: t_flip(s, d[0] if len(d) == 1 else d)
Tensor.repeat = lambda s, *sh: t_repeat(s, *sh)
Tensor.new_zeros = lambda s, *sh, **k: full(shape_of(sh), 0, k.get("dtype", s.dtype))
Tensor.masked_fill = lambda s, m, v: t_where(m, v, s).type(s.dtype)
Tensor.where = lambda s, c, o: t_where(c, s, o)
Tensor.__add__ = lambda s, o: t_add(s, o)
Tensor.__radd__ = lambda s, o: t_add(o, s)
Tensor.__sub__ = lambda s, o: t_sub(s, o)
Tensor.__rsub__ = lambda s, o: t_sub(o, s)
Tensor.__mul__ = lambda s, o: t_mul(s, o)
Tensor.__rmul__ = lambda s, o: t_mul(o, s)
Tensor.__truediv__ = lambda s, o: t_div(s, o)
Tensor.__rtruediv__ = lambda s, o: t_div(o, s)
Tensor.__floordiv__ = lambda s, o: t_floordiv(s, o)
Tensor.__mod__ = lambda s, o: t_remainder(s, o)
Tensor.__pow__ = lambda s, o: t_pow(s, o)
Tensor.__rpow__ = lambda s, o: t_pow(o, s)
Tensor.__matmul__ = lambda s, o: t_matmul(s, o)
Tensor.__neg__ = lambda s: t_neg(s)
Tensor.__abs__ = lambda s: t_abs(s)
Tensor.__invert__ = lambda s: t_invert(s)
for n, f in dict(__and__=t_and, __or__=t_or, __xor__=t_xor).items(): setattr(Tensor, n, (lambda f: lambda s, o: f(s, o))(f))
for n, f in dict(__rand__=t_and, __ror__=t_or, __rxor__=t_xor).items(): setattr(Tensor, n, (lambda f: lambda s, o: f(o, s))(f))
Tensor.__lshift__ = lambda s, o: t_shift(True)(s, o)
Tensor.__rshift__ = lambda s, o: t_shift(False)(s, o)
for n, f in dict(__eq__=t_eq, __ne__=t_ne, __lt__=t_lt, __le__=t_le, __gt__=t_gt, __ge__=t_ge).items():
    setattr(Tensor, n, (lambda f: lambda s, o: f(s, o))(f))
for n, f in dict(__iadd__=t_add, __isub__=t_sub, __imul__=t_mul, __itruediv__=t_div, __iand__=t_and, __ior__=t_or, __ixor__=t_xor, __imod__=t_remainder).items():
    setattr(Tensor, n, (lambda f: lambda s, o: s._inplace(f(s, o)))(f))

# SV op Tensor: let the tensor's reflected method win
class Parameter(Tensor):
    def __init__(self, data=None, requires_grad=True):
        if data is None: data = full((0,), 0)
        Tensor.__init__(self, data.st, data.dims, data.fwd, data.inv, data.canwrite)
        self.requires_grad = requires_grad
        if requires_grad and data.dtype.cat != 2: raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
