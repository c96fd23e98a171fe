"""Shared specification helpers."""
from fractions import Fraction
from ..sym import *
from ..sums import Sum
from ..unit import *
from .. import unit as U

def dt(n): return getattr(TT(), n)
def bit(c): return ite(c, 1, 0)
def lower(s): return s.lower()
def pk(d, k, default=None): return d[k] if k in d else default

_SEQ = {}
def seqv(kind, dimr, n, i):
    """the i-th number (0 <= i < n = 2**width) of a named deterministic sequence"""
    kind = kind.lower()
    if kind in ("race", "tc"): return i
    if kind in ("race10", "tc10"): return sub(sub(n, 1), i)
    if kind in ("sobol", "rc"):
        if ENV().concrete:
            k = (dimr, n)
            if k not in _SEQ:
                import torch
                _SEQ[k] = [int(x) for x in torch.quasirandom.SobolEngine(dimr).draw(n)[:, dimr - 1].mul(n).floor().tolist()]
            return _SEQ[k][i]
        from ..storch import sobol_val
        return sobol_val(sub(dimr, 1), i, n)
    if kind == "sys":
        from ..storch import randperm
        return randperm(n).at((i,))
    raise Unsupported("sequence %s" % kind)
def seqA(kind, dimr, width):
    n = pow2(width)
    return A((n,), lambda i: seqv(kind, dimr, n, i[0]))

def quant(a, q):
    """q-quantile of all elements (linear interpolation), the contract of torch.quantile"""
    if ENV().concrete:
        a.force()
        xs = sorted(a.fn(i) for i in itertools.product(*[range(d) for d in a.dims]))
        p = Fraction(q) * (len(xs) - 1); k = int(p.__floor__())
        if k + 1 >= len(xs): return norm(Fraction(xs[-1]))
        return norm(Fraction(xs[k]) + (p - k) * (Fraction(xs[k + 1]) - Fraction(xs[k])))
    from ..storch import QUANT
    return QUANT.get(a, q)

def lemma(name, fn):
    """an obligation about the contracts alone"""
    return (name, fn)
def fresh_like(a): pass
