"""Tests of the loop rules (vc/loops.py): each snippet is run over a symbolic length; a rule must give the stated value or refuse."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vc.sym import *
from vc import sym, tensor as T, storch, loader, loops
from vc.sums import Sum
CTX = sym.CTX
def load(src):
    tree = loader.Rewrite().visit(ast.parse(src)); ast.fix_missing_locations(tree)
    g = dict(loader.BUILTINS)
    env = {"__builtins__": g, "torch": storch.torch}
    env.update(vc_undecided_=loader.vc_undecided, vc_sub_=loader.vc_sub, vc_head_=loader.Head, vc_havoc_=loader.vc_havoc, vc_start_=loader.vc_start, vc_back_=loader.vc_back, vc_later_=loader.vc_later, vc_never_=loader.vc_never, vc_exit_=loader.vc_exit, vc_map_=loader.vc_map, vc_loop_=loops.Loop, vc_bound_=loader.vc_bound)
    exec(compile(tree, "snippet", "exec"), env)
    return env["f"]
OK, REFUSE = [], []
def ok(src, want): OK.append((src, want))
def no(src): REFUSE.append(src)
WRONG = []
def wrong(src, claim): WRONG.append((src, claim))          # a false claim: never proved
X = lambda E, k: E.x((k,))
ok("def f(n, x, y):\n s = 0\n for c in range(n): s = s + x(c)\n return s", lambda E: Sum(E.n, lambda k: X(E, k)))
ok("def f(n, x, y):\n s = 3\n for c in range(n):\n  t = x(c) * 2\n  s += t\n return s", lambda E: add(3, Sum(E.n, lambda k: mul(2, X(E, k)))))
ok("def f(n, x, y):\n s = 3\n for c in range(1, n + 1):\n  s += x(c - 1)\n return s", lambda E: add(3, Sum(E.n, lambda k: X(E, k))))
ok("def f(n, x, y):\n s = 0\n for c in range(n): s = x(c)\n return s", lambda E: X(E, sub(E.n, 1)))
ok("def f(n, x, y):\n for c in range(n): s = x(c)\n return s + c", lambda E: add(X(E, sub(E.n, 1)), sub(E.n, 1)))
ok("def f(n, x, y):\n l = []\n for c in range(n): l.append(x(c))\n return l[2]", lambda E: X(E, 2))
ok("def f(n, x, y):\n l = [x(c) for c in range(n)]\n return sum(l)", lambda E: Sum(E.n, lambda k: X(E, k)))
ok("def f(n, x, y):\n i = 0\n s = 0\n while i < n:\n  s = s + x(i)\n  i += 1\n return s + i", lambda E: add(E.n, Sum(E.n, lambda k: X(E, k))))
ok("def f(n, x, y):\n s = 0\n for c in range(n): s = s + y[c]\n return s.sum()", lambda E: add(add(Sum(E.n, lambda k: E.y((k, 0))), Sum(E.n, lambda k: E.y((k, 1)))), Sum(E.n, lambda k: E.y((k, 2)))))
ok("def f(n, x, y):\n s = torch.zeros(3)\n for c in range(n): s += y[c]\n return s[1].item()", lambda E: Sum(E.n, lambda k: E.y((k, 1))))
ok("def f(n, x, y):\n s = torch.zeros(3)\n z = s\n for c in range(n): s.add_(y[c])\n return z[1].item()", lambda E: Sum(E.n, lambda k: E.y((k, 1))))
ok("def f(n, x, y):\n s = torch.zeros(3)\n z = s\n for c in range(n): s += y[c]\n return z[2].item()", lambda E: Sum(E.n, lambda k: E.y((k, 2))))
ok("def f(n, x, y):\n s = torch.zeros(3)\n z = s\n for c in range(n): s = s + y[c]\n return z[2].item() + s[0].item()", lambda E: Sum(E.n, lambda k: E.y((k, 0))))
ok("def f(n, x, y):\n b = torch.zeros(n, 3)\n for c in range(n): b[c] = y[c] * 2\n return b[2, 1].item()", lambda E: mul(2, E.y((2, 1))))
ok("def f(n, x, y):\n b = torch.empty(3)\n for c in range(n): b.copy_(y[c])\n return b[1].item()", lambda E: E.y((sub(E.n, 1), 1)))
ok("def f(n, x, y):\n b = torch.empty(0)\n s = 0\n for c in range(n):\n  torch.gt(y[c], 1, out=b)\n  s += x(c)\n return s", lambda E: Sum(E.n, lambda k: X(E, k)))
ok("def f(n, x, y):\n s = 0\n r = 0\n for c in range(n):\n  s = s + x(c)\n  r = s * 2\n return r", lambda E: mul(2, Sum(E.n, lambda k: X(E, k))))
ok("def f(n, x, y):\n l = []\n for c in range(n): l.append(y[c])\n return torch.stack(l)[2, 1].item()", lambda E: E.y((2, 1)))
ok("def f(n, x, y):\n s = 0\n for c in range(n):\n  for d in range(n): s = s + x(d)\n return s", lambda E: mul(E.n, Sum(E.n, lambda k: X(E, k))))
ok("def f(n, x, y):\n s = 0\n for i, v in enumerate([x(c) for c in range(n)]): s += i + v\n return s", lambda E: Sum(E.n, lambda k: add(k, X(E, k))))
ok("def f(n, x, y):\n q = 1\n l = [x(c) + q for c in range(n)]\n q = 5\n return l[2]", lambda E: add(X(E, 2), 1))
ok("def f(n, x, y):\n s = 0\n for c in range(3): s = s + x(c)\n return s", lambda E: add(add(X(E, 0), X(E, 1)), X(E, 2)))
ok("def f(n, x, y):\n a = x(0)\n b = a * 2\n while b > 6:\n  a = a - 1\n  b = a * 2\n return b - 2 * a", lambda E: 0)
ok("def f(n, x, y):\n a = x(0)\n while True:\n  if a <= 3: break\n  a = a - 1\n return 1 if a <= 3 else 0", lambda E: 1)
ok("def f(n, x, y):\n a = x(0)\n while a > 3: a = a - 1\n return a if a > 3 else 7", lambda E: 7)
wrong("def f(n, x, y):\n a = x(0)\n b = a * 2\n while b > 6:\n  b = a * 2\n  a = a - 1\n return b - 2 * a", lambda E: 0)
wrong("def f(n, x, y):\n a = x(0)\n k = 0\n while a > 3:\n  a = a - 1\n  k = k + 1\n return k", lambda E: 0)
wrong("def f(n, x, y):\n a = x(0)\n k = 0\n while True:\n  if a <= 3 or k == 1: break\n  a = a - 1\n  k = k + 1\n return 1 if a <= 3 else 0", lambda E: 1)
wrong("def f(n, x, y):\n s = torch.zeros(3)\n a = x(0)\n while a > 3:\n  a = a - 1\n  s.add_(y[0])\n return s[1].item()", lambda E: 0)
wrong("def f(n, x, y):\n a = x(0)\n while True:\n  a = a - 1\n  if a < 5: return 1\n  if a > 7: return 2\n return 1", lambda E: 1)
no("def f(n, x, y):\n s = 1\n for c in range(n): s = s * 2 + x(c)\n return s")
no("def f(n, x, y):\n s = 0\n for c in range(n):\n  if x(c) > 2: s = s + 1\n return s")
no("def f(n, x, y):\n s = 0\n for c in range(n):\n  if c > 0: s = s + x(c)\n return s")
no("def f(n, x, y):\n s = 0\n for c in range(n):\n  if s > 10: break\n  s = s + x(c)\n return s")
no("def f(n, x, y):\n l = [0]\n for c in range(n): l.append(l[-1] + x(c))\n return l[2]")
no("def f(n, x, y):\n l = []\n for c in range(n):\n  l.append(x(c))\n  s = len(l)\n return s")
no("def f(n, x, y):\n a, b = 0, 1\n for c in range(n): a, b = b, a\n return a")
no("def f(n, x, y):\n b = torch.zeros(n)\n for c in range(1, n): b[c] = b[c - 1] + y[c, 0]\n return b[2].item()")
no("def f(n, x, y):\n b = torch.zeros(3)\n for c in range(n): b = b * y[c]\n return b[2].item()")
no("def f(n, x, y):\n d = {}\n for c in range(n): d[c] = x(c)\n return d[2]")
no("def f(n, x, y):\n s = torch.zeros(3)\n z = s\n for c in range(n):\n  s += y[c]\n  s = s.clone()\n return z[1].item()")
no("def f(n, x, y):\n first = True\n for c in range(n):\n  s = x(c) if first else 0\n  first = False\n return s")
no("def f(n, x, y):\n for c in range(n):\n  if c < 0: q = 1\n return q")
no("def f(n, x, y):\n b = y[0].clone()\n for c in range(n):\n  t = b\n  b = y[c].clone()\n return t[0].item()")
class Env: pass
def run(src):
    E = Env()
    E.n = CTX.int("n", 3, None)
    xf = CTX.uf("x", 1, "i", 0, 9); E.x = lambda i: xf([T.iscal(v) for v in i])
    yf = CTX.uf("y", 2, "r"); E.y = lambda i: yf([T.iscal(v) for v in i])
    return E, load(src)(E.n, lambda c: E.x((c,)), T.mk((E.n, 3), lambda i: E.y(i), T.float32))
def main():
    bad = []
    for src, want in OK:
        if os.environ.get("V"): print(src.split("\n",1)[1], flush=True)
        def one():
            E, got = run(src)
            if isinstance(got, T.Tensor): got = got.item()
            return CTX.prove(eq(num(got), num(want(E))), "value")
        CTX.reset_all()
        try: r = CTX.explore(one)
        except BaseException as e: r = ["%s: %s" % (type(e).__name__, e)]
        if not r or any(x is not True for x in r) or any(o.status != "proved" for o in CTX.obls): bad.append((src, r, [(o.name, o.status) for o in CTX.obls if o.status != "proved"]))
    for src, claim in WRONG:
        def one():
            E, got = run(src)
            if isinstance(got, T.Tensor): got = got.item()
            return CTX.prove(eq(num(got), num(claim(E))), "value")
        CTX.reset_all()
        try:
            CTX.explore(one)
            if all(o.status == "proved" for o in CTX.obls): bad.append((src, "a false claim is proved"))
        except Unsupported: pass
    for src in REFUSE:
        CTX.reset_all()
        try:
            r = CTX.explore(lambda: run(src)[1])
            if all(o.status == "proved" for o in CTX.obls): bad.append((src, "accepted", r))
        except (Unsupported, AttributeError, TypeError, NameError): pass
    return len(OK) + len(REFUSE) + len(WRONG), bad
if __name__ == "__main__":
    n, bad = main()
    for b in bad: print(*b, sep="\n   ")
    print("%d loop snippets, %d wrong" % (n, len(bad))); sys.exit(bool(bad))
