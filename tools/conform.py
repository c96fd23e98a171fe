#!/opt/venv/bin/python
"""Compares the symbolic executor's torch (vc/storch.py, vc/tensor.py) with the real torch on concrete values: same program text, same
inputs, results compared in shape, dtype and value (exactly; the inputs are dyadic), including aliasing, in-place writes, out= and errors."""
import os, sys, random, itertools
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import torch as RT
from fractions import Fraction
from vc.sym import *
from vc import tensor as T, storch, loader
from vc.storch import torch as ST
# arguments: a, b float [2,3]; c float [3]; m, n int64 [2,3]; p, q bits (float) [2,3]; k float [2,3,4]; u int8 bits [2,3]; s python float; im float [2,2,4,5]; w float [3,2,2,3]
# names ending with a type tag are filled accordingly
SPEC = {"a": ((2, 3), "f", "r"), "b": ((2, 3), "f", "r"), "c": ((3,), "f", "r"), "z": ((2, 3), "f", "nz"), "m": ((2, 3), "l", "i"), "n": ((2, 3), "l", "nzi"), "p": ((2, 3), "f", "b"), "q": ((2, 3), "f", "b"),
        "k": ((2, 3, 4), "f", "r"), "u": ((2, 3), "c", "b"), "v": ((2, 3), "c", "b"), "h": ((1, 3), "f", "r"), "im": ((2, 2, 4, 5), "f", "r"), "w": ((4, 3), "f", "r"), "i": ((2, 3), "l", "ix"), "e": ((1,), "f", "r"), "r": ((6,), "f", "r"), "l": ((2, 3), "l", "pos")}
CASES = """
a + b
a - b
a * b
a / z
a + c
a * h
-a
abs(a)
a + 1
1 - a
a * 2.5
2 / z
a ** 2
2 ** m.float()
m + n
m - 1
m * n
m / n
m // n
m % n
m % 4
a % 2
a // 1
m + a
u + 1
u + v
u.type(torch.float) + a
1 - u
p * u
m > n
m >= 2
a < b
a <= c
a == a
a != b
a.eq(0)
a.gt(b).type(torch.long)
torch.gt(a, b)
torch.lt(a, b).type(torch.int8)
torch.add(a, b)
torch.add(a, b, alpha=2)
torch.sub(a, c)
torch.mul(a, 3)
torch.div(a, z)
torch.abs(a)
torch.sign(a)
torch.neg(a)
torch.round(a)
torch.floor(a)
torch.ceil(a)
torch.trunc(a)
a.round()
(a * 0.5).round()
a.frac()
a.clamp(-1, 1)
a.clamp(min=0)
a.clamp(max=0.5)
torch.clamp(a, -1, b.abs().max().item())
a.clip(-1, 1)
torch.clamp(m, 0, 3)
torch.max(a, b)
torch.min(a, b)
torch.maximum(a, c)
a.max()
a.min()
m.max()
torch.max(a)
torch.where(a > 0, a, b)
torch.where(p > 0, 1, 0)
torch.bitwise_and(u, v)
torch.bitwise_or(u, v)
torch.bitwise_xor(m, n)
u & v
u | v
u ^ v
m & 3
m | 4
m ^ 1
(m > 0) & (n > 0)
(m > 0) | (n > 0)
(m > 0) ^ (n > 0)
~(m > 0)
torch.logical_not(p)
torch.logical_and(p, q)
torch.logical_or(p, q)
torch.logical_xor(p, q)
l << 2
l >> 1
torch.sum(a)
torch.sum(a, 0)
torch.sum(a, 1)
torch.sum(a, -1, keepdim=True)
torch.sum(m > 0, 1)
torch.sum(u, 0)
torch.sum(k, (0, 2))
k.sum(1)
a.sum().item()
torch.mean(a)
k.mean(2)
torch.mean(a, 0, keepdim=True)
torch.matmul(a, w.t())
torch.matmul(k, k.transpose(1, 2))
torch.matmul(a.unsqueeze(1), k)
torch.nn.functional.linear(a, w)
torch.nn.functional.linear(a, w, w[:, 0])
torch.nn.functional.relu(a)
torch.nn.functional.hardtanh(a)
torch.nn.functional.hardtanh(a, -2, 2)
torch.nn.functional.pad(im, (1, 2, 0, 1))
torch.nn.functional.pad(im, (1, 1, 1, 1), value=1.5)
torch.nn.functional.unfold(im, (2, 3))
torch.nn.functional.unfold(im, 2, stride=2)
torch.nn.functional.unfold(im, (2, 2), dilation=(1, 2), padding=(1, 0), stride=(1, 2))
torch.nn.functional.unfold(im, (2, 2)).transpose(1, 2)
torch.nn.functional.fold(im.reshape(2, 40, 1)[:, :8, :], (2, 2), (2, 2)) 
torch.nn.functional.unfold(im, (2, 3)).transpose(1, 2).reshape(-1, 12)
torch.nn.functional.unfold(im, (2, 3)).transpose(1, 2).matmul(im.reshape(80)[:36].view(3, -1).t()).transpose(1, 2)
torch.nn.functional.fold(torch.nn.functional.unfold(im, (1, 1)), (4, 5), (1, 1))
torch.cat((a, b), 0)
torch.cat([a, b, a], 1)
torch.cat((a, h))
torch.cat(3 * [h], 0)
torch.stack([a, b])
torch.stack((a, b), 2)
torch.roll(a, -1, 1)
torch.roll(a, 1, 0)
torch.flip(a, [0])
torch.flip(k, (0, 2))
a.t()
k.transpose(0, 2)
k.permute(2, 0, 1)
a.unsqueeze(0)
a.unsqueeze(-1)
h.squeeze(0)
h.squeeze()
e.squeeze()
k.view(2, 12)
k.reshape(6, 4)
k.reshape(-1)
k.view(-1, 2, 2)
k.flatten(1)
r.reshape(2, 3)
h.expand(4, 3)
c.expand_as(a)
c.expand(2, -1)
h.repeat(2, 1)
c.repeat(2)
c.repeat(2, 2)
torch.cat(2 * [r.unsqueeze(1)], 1)
k[0]
k[:, 1]
k[..., 2]
k[:, 0:2]
k[:, :, 1:]
k[1, 2, 3]
k[-1]
k[:, None]
r[2:5]
r[::2]
r[m.clamp(0, 5)]
r[i]
r[i.view(-1)].view(i.size())
w[i]
a[0, i[0].clamp(0, 2)]
a[torch.arange(2), i[:, 0].clamp(0, 2)]
torch.arange(5)
torch.arange(2, 6, dtype=torch.float)
torch.arange(4).unsqueeze(1)
torch.zeros(2, 3)
torch.zeros((2, 3), dtype=torch.int8)
torch.zeros_like(m)
torch.zeros_like(a, dtype=torch.long)
torch.ones_like(u)
torch.ones(1)
torch.full((2, 2), 3.5)
torch.full_like(a, 2)
torch.tensor([1, 2])
torch.tensor([1.5, 2])
torch.tensor([[1, 0], [0, 1]], dtype=torch.int8)
torch.tensor(3)
torch.tensor([3.0]).item()
torch.FloatTensor([1.0])
torch.Tensor([2])
a.type(torch.long)
a.type(torch.int8)
a.type(torch.int32)
a.long()
a.int()
m.float()
(a > 0).float()
a.to(torch.long)
a.bool()
m.type_as(a)
a.size()
a.size(1)
k.shape[2]
a.dim()
a.numel()
len(k)
torch.quantile(r, 0.5)
torch.quantile(a, 1.0)
torch.quantile(a, 0)
torch.frexp(a)
torch.ldexp(a, m.clamp(-2, 3))
torch.fmod(a, 2)
torch.remainder(m, 3)
torch.floor_divide(m, n)
torch.div(m, n, rounding_mode="trunc")
torch.div(a, z, rounding_mode="floor")
torch.pow(a, 2)
torch.square(a)
torch.equal(a, a.unsqueeze(0))
torch.all(a == a)
torch.any(a != a)
torch.prod(torch.tensor([1, 2, 3]))
torch.reshape(k, (4, 6))
torch.is_tensor(a)
a.is_floating_point()
torch.minimum(m, n)
a.masked_fill(a > 0, 7.0)
p.type(torch.int8) ^ u
torch.gt(m, m - 1).type(torch.float).sum(0)
torch.quasirandom.SobolEngine(3).draw(1)[:, 0].size()
(a.unsqueeze(2) * k).sum(1)
torch.addcmul(a, b, c)
torch.addmm(a, a @ w[:3], b * 0 + 1) if False else torch.addmm(w.t(), a.t() @ a, w.t())
torch.outer(c, r)
torch.dot(c, h[0])
torch.count_nonzero(p, 1)
torch.broadcast_to(c, (2, 3))
torch.tile(c, (2,))
torch.exp2(m)
torch.relu(a)
a.narrow(1, 1, 2)
torch.index_select(k, 2, i[0])
torch.unbind(a, 1)
k.unbind()
torch.gather(a, 1, i.clamp(0, 2))
a.masked_fill(a > 0, 7.0)
torch.einsum("bi,oi->bo", a, w)
torch.einsum("bi,bij->bj", a, k)
torch.einsum("bij->bi", k)
torch.einsum("bi,boi->bo", a, k.transpose(1, 2))
torch.nn.functional.threshold(a, 1, 20)
torch.chunk(r, 4)
torch.split(k, 3, 2)
torch.split(k, [1, 3], 2)
k.mT
a.new_tensor([1, 2])
torch.rsub(a, 1)
torch.lerp(a, b, 0.5)
k.swapaxes(0, 1)
torch.abs(a) * torch.sign(a) - a
"""
PROGS = {
 "add_ aliases": "x = a.clone(); y = x; x.add_(1); r_ = (x, y)",
 "iadd on a view": "x = a.clone(); y = x[0]; y += 1; r_ = (x, y)",
 "data aliases": "x = a.clone(); y = x.data; y.add_(2); r_ = (x, y)",
 "data= shares": "x = torch.nn.Parameter(a.clone(), requires_grad=False); y = b.clone(); x.data = y; x.add_(1); r_ = (x, y)",
 "data= then rebind": "x = torch.nn.Parameter(a.clone(), requires_grad=False); o = x; x.data = x.data + 1; r_ = (x, o)",
 "detach aliases": "x = a.clone(); y = x.detach(); y.mul_(2); r_ = (x, y)",
 "clone does not": "x = a.clone(); y = x.clone(); y.mul_(2); r_ = (x, y)",
 "type same dtype aliases": "x = a.clone(); y = x.type(torch.float); y.add_(1); r_ = (x, y)",
 "type other dtype copies": "x = a.clone(); y = x.type(torch.long); y.add_(1); r_ = (x, y)",
 "setitem row": "x = k.clone(); x[0] = 5; r_ = x",
 "setitem col": "x = k.clone(); x[:, 1] = a[:, :1]; r_ = x",
 "setitem mask": "x = a.clone(); x[x > 0] = 0.5; r_ = x",
 "setitem data": "x = torch.nn.Parameter(torch.zeros(2, 3), requires_grad=False); x.data[1] = c; r_ = x",
 "copy_": "x = a.clone(); y = x; x.copy_(b); r_ = (x, y)",
 "fill": "x = a.clone(); x.fill_(3); r_ = x",
 "zero_ of a slice": "x = a.clone(); x[1].zero_(); r_ = x",
 "clamp_": "x = a.clone(); x.clamp_(-1, 1); r_ = x",
 "sub_ int": "x = m.clone(); x.sub_(n); r_ = x",
 "out=": "x = torch.empty(0); torch.gt(a, b, out=x); r_ = x",
 "out= matmul squeeze": "x = torch.empty(0); torch.matmul(a.unsqueeze(1), k, out=x); x.squeeze_(1); r_ = x",
 "out= self": "x = m.clone(); torch.add(x, n, out=x); r_ = x",
 "out= cat": "x = torch.empty(0); torch.cat(3 * [c.unsqueeze(1)], 1, out=x); r_ = x",
 "unsqueeze_": "x = a.clone(); x.unsqueeze_(1); r_ = x",
 "view shares": "x = k.clone(); y = x.view(6, 4); y[0] = 0; r_ = (x, y)",
 "transpose shares": "x = k.clone(); y = x.transpose(1, 2); y[0, 1] = 0; r_ = (x, y)",
 "expand shares": "x = c.clone(); y = x.expand(2, 3); x.add_(1); r_ = y",
 "shift register": "x = k.clone(); x.data = torch.roll(x.data, -1, 2); x.data[..., -1] = a; r_ = x",
 "broadcasting in place": "x = a.clone(); x += c; x -= h; x *= 2; r_ = x",
 "parameter arithmetic": "x = torch.nn.Parameter(c.clone(), requires_grad=False); x.add_(1); y = x + 1; r_ = (x, y)",
 "scalar tensor state": "x = torch.nn.Parameter(torch.zeros(1), requires_grad=False); x.data = x.add(a); r_ = x",
 "item in python": "x = a.sum(); r_ = x.item() * 2 + int(m[0, 0].item())",
 "index tensor": "x = torch.tensor([0, 1, 0, 1.0]); r_ = x[i % 4]",
 "linear module": "x = torch.nn.Linear(3, 4, bias=False); x.weight.data = w; r_ = torch.nn.functional.linear(a, x.weight, None).detach()",
 "identity": "r_ = torch.nn.Identity()(a)", "relu module": "r_ = torch.nn.ReLU()(a)", "hardtanh module": "r_ = torch.nn.Hardtanh()(a)",
 "parameterlist": "x = torch.nn.ParameterList([torch.nn.Parameter(c.clone(), requires_grad=False) for _ in range(2)]); x[1].add_(1); r_ = (x[0], x[1])",
 "masked_fill_": "x = a.clone(); x.masked_fill_(p > 0, -1); r_ = x", "masked iadd": "x = m.clone(); x[p > 0] = 3; r_ = x",
 "masked shift": "x = k.clone(); y = torch.roll(x, -1, 2); y[..., -1] = a; x = torch.where(p.unsqueeze(2) > 0, y, x); r_ = x",
}
ERRORS = {"shape mismatch": "a + k", "bad view": "k.view(5, 5)", "index out of range": "r[torch.tensor([6])]", "matmul sizes": "torch.matmul(a, a)", "cat sizes": "torch.cat((a, k))", "missing attribute": "torch.nn.Module().xyz",
          "in-place broadcast growth": "c.add_(a)", "float shift": "a << 2", "quantile of integers": "torch.quantile(m, 0.5)", "data is not a tensor": "setattr(torch.nn.Linear(2, 2), 'weight', a)"}

def sample(rnd):
    out = {}
    for n, (sh, ty, kind) in SPEC.items():
        cnt = 1
        for d in sh: cnt *= d
        g = {"r": lambda: rnd.randint(-40, 40) / 8, "nz": lambda: rnd.choice([-4, -2, -1, -0.5, 0.5, 1, 2, 8]), "b": lambda: rnd.randint(0, 1), "i": lambda: rnd.randint(-6, 9), "nzi": lambda: rnd.choice([-4, -2, -1, 1, 2, 4]), "ix": lambda: rnd.randint(0, 3), "pos": lambda: rnd.randint(0, 9)}[kind]
        out[n] = (sh, ty, [g() for _ in range(cnt)])
    return out
def rt(sh, ty, v): return RT.tensor(v, dtype={"f": RT.float, "l": RT.long, "c": RT.int8}[ty]).reshape(sh)
def st(sh, ty, v):
    def fn(i):
        k = 0
        for x, d in zip(i, sh): k = add(mul(k, d), T.iscal(x))
        one = lambda x: norm(Fraction(x)) if ty == "f" else int(x)
        if native(k): return one(v[k])
        r = one(v[0])
        for j in range(1, len(v)): r = ite(eq(k, j), one(v[j]), r)
        return r
    return T.mk(sh, fn, {"f": ST.float, "l": ST.long, "c": ST.int8}[ty])
def rval(x):
    if isinstance(x, RT.Tensor): return ("T", tuple(x.shape), str(x.dtype).split(".")[-1], [norm(Fraction(y)) if isinstance(y, float) else int(y) for y in x.detach().reshape(-1).tolist()])
    if isinstance(x, (tuple, list)) and not isinstance(x, RT.Size): return [rval(y) for y in x]
    if isinstance(x, RT.Size): return ("S", tuple(x))
    return ("V", norm(Fraction(x)) if isinstance(x, float) else x)
def sval(x):
    if isinstance(x, T.Tensor):
        dims = tuple(T.dsize(d) for d in x.dims)
        vals = []
        for i in itertools.product(*[range(d) for d in dims]):
            y = x.at(tuple(T.to_dim_index(a, d) for a, d in zip(i, x.dims)))
            y = num(y)
            if not native(y): y = CTX.const_of(y) if sortof(y) == "i" else y
            vals.append(y)
        return ("T", dims, x.dtype.name, vals)
    if isinstance(x, T.Size): return ("S", tuple(x))
    if isinstance(x, (tuple, list)): return [sval(y) for y in x]
    return ("V", x)
def run(code, torch, env, prog, names=None):
    g = dict(env); g["torch"] = torch
    if torch is ST: g["__builtins__"] = loader.BUILTINS
    if prog: exec(code, g); return g["r_"]
    return eval(code, g)
def main():
    storch_unsup, bad, n = [], [], 0
    CTX.reset_all(); CTX.expand = 1 << 40
    jobs = [(c, c, False) for c in CASES.strip().split("\n")] + [(k, v, True) for k, v in PROGS.items()]
    for name, code, prog in jobs:
        code = code.strip()
        for seed in range(4):
            vals = sample(random.Random(seed * 1009 + len(code)))
            try: want = rval(run(code, RT, {k: rt(*v) for k, v in vals.items()}, prog))
            except Exception as e: want = ("error", type(e).__name__, str(e)[:80])
            res = []
            def path():
                try: res.append(sval(run(code, ST, {k: st(*v) for k, v in vals.items()}, prog)))
                except Unsupported as e: res.append(("unsupported", str(e)))
                except Infeasible: raise
                except Exception as e: res.append(("error", type(e).__name__, str(e)[:80]))
            CTX.reset_all(); CTX.expand = 1 << 40
            if "quantile" in code or ".max()" in code or ".min()" in code or "max(a)" in code or "frexp" in code:   # abstract in the executor: shape and dtype only
                path(); got = [("T", x[1], x[2]) if x[0] == "T" else x for x in (res[0] if isinstance(res[0], list) else [res[0]])]
                want = [("T", x[1], x[2]) if x[0] == "T" else x for x in (want if isinstance(want, list) else [want])]
            else: path(); got = res[0]
            n += 1
            if isinstance(got, tuple) and isinstance(want, tuple) and got[0] == want[0] == "T" and got[1:3] == want[1:3] and "mean" in code: got = want if all(abs(x - y) < 1e-5 for x, y in zip(got[3], want[3])) else got
            if isinstance(got, tuple) and got[0] == "unsupported": storch_unsup.append((name, got[1])); break
            if got != want and not (isinstance(got, tuple) and got[0] == "error" and isinstance(want, tuple) and want[0] == "error"): bad.append((name, seed, want, got)); break
    for name, code in ERRORS.items():
        vals = sample(random.Random(7)); n += 1
        out = []
        for tt, mk in ((RT, rt), (ST, st)):
            CTX.reset_all(); CTX.expand = 1 << 40
            try:
                v = run(code, tt, {k: mk(*x) for k, x in vals.items()}, False)
                if tt is ST: sval(v)
                fail = [o for o in CTX.obls if o.status != "proved"] if tt is ST else []
                out.append("obligation fails" if fail else "value")
            except Unsupported as e: out.append("unsupported")
            except Exception as e: out.append("error")
        if out[0] == "error" and out[1] == "value" or out[0] == "value": bad.append((name, 0, out[0], out[1]))
    print("%d comparisons of the executor's torch with the real torch: %d differ; not modelled (never decides anything): %s" % (n, len(bad), sorted({x for x, _ in storch_unsup})))
    for b in bad: print("  DIFFERS", b)
    return 1 if bad else 0
if __name__ == "__main__": sys.exit(main())
