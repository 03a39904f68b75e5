#!/usr/bin/env python3
"""C05: every call binds its arguments to the parameters Python would bind them to, or is rejected."""
import itertools
import re
import sys
from mclib import *

COMMON = '''
def ev(k: int) -> int:
    print("ev", k)
    return k
'''
PRELUDE = COMMON + '''
def show(kw):
    s = ""
    if static.len(kw.args) > 0:
        keys = kw.__keys__()
        i = 0
        for v in kw.args:
            s += keys[i] + ":" + str(v) + ","
            i += 1
    return s
'''
PYPRE = COMMON + '''
def show(kw):
    return "".join(k + ":" + str(kw[k]) + "," for k in sorted(kw))
'''
NAMES = "abc"


def signatures():
    """(parameters, source of the parameter list, source of a text of their values)"""
    for n in range(pick(3, 4)):
        for d in range(n + 1):
            for star in (0, 1):
                for kw in (((),) + tuple((x,) for x in "rd") + (("r", "d"), ("d", "r")) if THOROUGH or n < 2 else ((), ("d",))):
                    # outside the language: a bare *, and a required parameter after one with a default
                    if kw and not star or "r" in kw and (d or kw == ("d", "r")):
                        continue
                    for rest in (0, 1):
                        ps = [x + (f"={i + 100}" if i >= n - d else "") for i, x in enumerate(NAMES[:n])]
                        if star:
                            ps.append("*args")
                        ps += [x + (f"={i + 200}" if t == "d" else "") for i, (x, t) in enumerate(zip("kl", kw))]
                        if rest:
                            ps.append("**kw")
                        out = "+ ' ' ".join(["''"] + [f"+ '{x}=' + str({x})" for x in list(NAMES[:n]) + list("kl"[:len(kw)])])
                        if star:
                            out += "+ ' args=' + str(args)"
                        if rest:
                            out += "+ ' kw=' + show(kw)"
                        yield ", ".join(ps), out


def calls():
    names = ("a", "b", "k", "z") if not THOROUGH else ("a", "b", "c", "k", "l", "z")
    for p in range(pick(4, 5)):
        for r in range(3 if not THOROUGH else 4):
            for ks in itertools.permutations(names, r) if r == 2 else itertools.combinations(names, r):
                yield [str(i + 1) for i in range(p)], [f"{k}={10 + i}" for i, k in enumerate(ks)]


def valid(sig, call):
    env = {}
    try:
        exec(f"def f({sig}): pass\nf({call})", env)
        return True
    except TypeError:
        return False


FORMS = [
    ("default evaluated once", "def f(a: int = ev(5)):\n    return a\nprint('defined')\nprint(f(), f(), f(1))"),
    ("mutable default shared", "def f(x: int, acc: List[int] = []):\n    acc.append(x)\n    return list(acc)\nprint(f(1), f(2), f(3, [9]), f(4))"),
    ("default keeps the value at definition", "n = 3\ndef f(a: int = n):\n    return a\nn = 4\nprint(f(), f(7))"),
    ("defaults in a loop of closures", "def mk(k: int):\n    def g(a: int, b: int = k * 10):\n        return a + b + k\n    return g\nfs = [mk(i) for i in range(3)]\nprint([h(1) for h in fs], [h(1, 2) for h in fs])"),
    ("forwarding everything", "def f(a, b=2, *args, k=5, **kw):\n    return str(a) + str(b) + str(args) + str(k) + show(kw)\ndef g(*args, **kw):\n    return f(*args, **kw)\nprint(g(1), g(1, 3), g(1, 3, 4, 5), g(1, k=7), g(b=8, a=9), g(1, 2, 3, k=4, z=5), g(1, z=5, y=6))"),
    ("forwarding with additions", "def f(*args, **kw):\n    return str(args) + show(kw)\ndef g(x, *args, **kw):\n    return f(0, *args, x, **kw) + f(*args, n=x, **kw)\nprint(g(1), g(1, 2), g(1, 2, 3, z=4), g(1, m='t'))"),
    ("decorator", "def deco(fn):\n    def inner(*args, **kw):\n        print('call', args, show(kw))\n        return fn(*args, **kw)\n    return inner\n@deco\ndef f(a: int, b: int = 2):\n    return a * 10 + b\nprint(f(1), f(1, 3), f(b=4, a=5), f(6, b=7))"),
    ("two decorators and a maker", "def times(k: int):\n    def deco(fn):\n        def inner(*args):\n            return fn(*args) * k\n        return inner\n    return deco\n@times(2)\n@times(5)\ndef f(a: int, b: int):\n    return a + b\nprint(f(1, 2), f(3, 4))"),
    ("overriding with another signature", "class A:\n    def __init__(self):\n        pass\n    def m(self, a: int, b: int = 2):\n        return a * 10 + b\n    def n(self, *args, **kw):\n        return self.m(*args, **kw)\na = A()\nprint(a.m(1), a.m(b=3, a=4), a.n(5), a.n(6, 7), a.n(b=8, a=9))"),
    ("different types through one parameter", "def f(a, b=None, *args):\n    return str(a) + '|' + str(b) + '|' + str(args)\nprint(f(1), f('x', 2.5), f([1, 2], {3: 4}, 'q', (5,)), f(b='s', a=True))"),
    ("evaluation order with keywords out of order", "def f(a, b, c=0, d=0):\n    return (a, b, c, d)\nprint(f(ev(1), d=ev(2), b=ev(3), c=ev(4)))\nprint(f(b=ev(1), a=ev(2)))\nprint(f(ev(1), *(ev(2), ev(3)), d=ev(4)))"),
    ("callee before arguments, receiver first", "class A:\n    def __init__(self):\n        pass\n    def m(self, a: int):\n        return a\ndef mk():\n    print('receiver')\n    return A()\nprint(mk().m(ev(3)))"),
    ("nested calls", "def f(a: int, b: int = 1, *args):\n    print('f', a, b, args)\n    return a + b + len(args)\nprint(f(f(1), b=f(f(2), 3)), f(f(4, 5, 6, 7), *(f(8), f(9, 1))))"),
    ("lambda defaults", "k = 3\ng = lambda a, b=10: a + b\nprint(g(1), g(1, 2), g(b=5, a=6), (lambda *a: len(a))(1, 2, 3))"),
    ("function values", "def f(a: int, b: int):\n    return a - b\ndef app(h, x: int, y: int):\n    return h(x, y)\nprint(app(f, 5, 3), app(lambda a, b: b - a, 5, 3), [h(7, 2) for h in (f, f)], list(map(f, [5, 6], [1, 2])))"),
    ("captured defaults", "def mk(k: int):\n    def g(a: int, b: int = k * 10, c: int = k + 1):\n        return (a, b, c, k)\n    return g\ng = mk(1)\nh = mk(2)\nprint(g(1), g(1, 2), g(1, 2, 3), g(1, b=2), g(1, c=2), g(c=5, a=6), h(1, c=2, b=3), h(1, 4))"),
    ("functions in a list", "def f(a: int, b: int = 4):\n    return (a, b)\nx = [f, f]\nx.append(f)\nprint([q(1, 2) for q in x], x[0](7), [q(b=i, a=3) for i, q in enumerate(x)], len([len, len]))"),
    ("recursion through defaults", "def f(n: int, acc: int = 1, step: int = 1) -> int:\n    if n <= 0:\n        return acc\n    return f(n - step, acc * n) if n % 2 else f(n - step, step=step, acc=acc + n)\nprint([f(i) for i in range(8)], f(9, 2, 3))"),
]
PARTIALS = [
    # Codon's own notation: f(a, ...) fixes some arguments and leaves the rest
    ("first", "f(1, ...)", "lambda *a, **k: f(1, *a, **k)", ["(2, 3)", "(2)", "(2, c=9)", "(b=4)", "(c=8, b=2)"]),
    ("by name", "f(b=5, ...)", "lambda a, c=30: f(a, 5, c)", ["(1)", "(1, c=2)", "(a=3)"]),
    ("last by name", "f(c=5, ...)", "lambda a, b: f(a, b, 5)", ["(1, 2)", "(b=1, a=2)", "(3, b=4)"]),
    ("two", "f(1, 2, ...)", "lambda c=30: f(1, 2, c)", ["()", "(3)", "(c=4)"]),
]


def partial_cases():
    head = "def f(a: int, b: int, c: int = 30):\n    return a * 10000 + b * 100 + c\n"
    env = {}
    exec(head, env)
    for name, codon, py, uses in PARTIALS:
        g = eval(py, env)
        env["g"] = g
        for u in uses:
            yield Case(f"partial {name} {u}", "", f"g = {codon}\nprint(g{u})\nprint(({codon}){u})", expect=(str(eval("g" + u, env)) + "\n") * 2)
            yield Case(f"partial once {name} {u}", "", f"print([h{u} for h in [{codon}]])", expect=str([eval("g" + u, env)]))
    yield Case("partial fixes the value", "", "x = 1\ng = f(x, ...)\nx = 5\nprint(g(2))\n", expect="10230\n")
    yield Case("partial of partial", "", "g = f(1, ...)\nh = g(2, ...)\nprint(h(), h(3))\n", expect="10230 10203\n")
    yield Case("partial evaluates its arguments once", "", "g = f(ev(1), ...)\nprint('made')\nprint(g(2), g(3))\n", expect="ev 1\nmade\n10230 10330\n")


def main():
    chk = Check("C05", "model_checking")
    build("mc", "codonrt")
    all_calls = [", ".join(p + k) for p, k in calls()]
    cases, bad = [], []
    for i, (sig, out) in enumerate(signatures()):
        # one function per way of being callable
        defs = f"def f{i}({sig}):\n    return {out}\n"
        me = ", " + sig if sig else ""
        defs += f"class C{i}:\n    v: str\n    def __init__(self{me}):\n        self.v = {out}\n    def m(self{me}):\n        return 'm' + {out}\n    @staticmethod\n    def s({sig}):\n        return 's' + {out}\n    def __call__(self{me}):\n        return 'c' + {out}\n"
        good = []
        for c in all_calls:
            if valid(sig, c):
                good.append(c)
            elif len(c) < 12 or THOROUGH:
                bad.append((sig, out, c))
        body = []
        for j, c in enumerate(good):
            body.append(f"print(f{i}({c}))")
            w = j % 4
            inst = f"C{i}({good[0]})"
            body.append([f"print(C{i}({c}).v)", f"print({inst}.m({c}))", f"print(C{i}.s({c}))", f"print({inst}({c}))"][w])
            pos = [x for x in c.split(", ") if x and "=" not in x]
            kws = [x for x in c.split(", ") if "=" in x]
            # every way of passing a run of positional arguments through a starred tuple
            for a in range(len(pos) + 1):
                for b in range(a + 1, len(pos) + 1):
                    star = "*(" + ", ".join(pos[a:b]) + ",)"
                    body.append(f"print(f{i}({', '.join(pos[:a] + [star] + pos[b:] + kws)}))")
            # evaluation order, left to right
            if len(pos) + len(kws) > 1:
                body.append(f"print(f{i}({re.sub(r'([0-9]+)', r'ev(1)', c) if False else ', '.join(pos_ev(x) for x in c.split(', '))}))")
            # through a lambda and through functools.partial's counterpart
            if not kws and len(pos) > 1:
                body.append(f"g = lambda x: f{i}({', '.join(pos[:-1])}, x)\nprint(g({pos[-1]}))")
        if body:
            cases.append(Case(f"def f({sig})", defs, "\n".join(body)))
    limit = int(os.environ.get("LIMIT", "0"))
    if limit:
        cases = cases[:: max(1, len(cases) // limit)]
        bad = bad[:: max(1, len(bad) // limit)]
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample(c.key + ": " + "; ".join(c.body.split("\n")[:3]))
    run_batches(chk, cases, modes=pick(("d",), ("d", "r")), batch=4, prelude=PRELUDE, py_prelude=PYPRE)

    forms = [Case("form " + k, "", src) for k, src in FORMS]
    run_batches(chk, forms, modes=("d", "r"), batch=1, prelude=PRELUDE, py_prelude="from __future__ import annotations\nfrom typing import *\n" + PYPRE, label="f")
    pre = PRELUDE + "def f(a: int, b: int, c: int = 30):\n    return a * 10000 + b * 100 + c\n"
    pc = list(partial_cases())
    for c in pc:
        c.expect = c.expect.rstrip("\n")
    run_batches(chk, pc, modes=("d", "r"), batch=8, prelude=pre, label="p")

    # calls that Python rejects are rejected by the compiler
    files = []
    for i, (sig, out, c) in enumerate(bad):
        p = os.path.join(chk.tmp, f"bad{i}.py")
        with open(p, "w") as f:
            f.write(PRELUDE + f"def f({sig}):\n    return {out}\nprint(f({c}))\n")
        files.append((p, p + ".out"))
    st = mc_run(files, "c", limit=pick(400, 2500))
    for (p, o), (sig, out, c) in zip(files, bad):
        if st[p] == 0 or not slurp(o).startswith("E:"):
            chk.violation(f"reject f({sig}) called f({c})", f"status {st[p]}\n{slurp(o)[:500]}", slurp(p))
    chk.count(rejected_calls=len(bad))
    chk.space("cases rejected_calls", "observed_lines rejected_calls", "cases_compared rejected_calls")
    chk.finish()


def pos_ev(x):
    k, eq, v = x.rpartition("=")
    return f"{k}{eq}ev({v})"


if __name__ == "__main__":
    main()
