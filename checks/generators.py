#!/usr/bin/env python3
"""C04: a generator resumes exactly where it stopped, for every body, branch history and interleaving."""
import itertools
import re
import control_flow as cf
from mclib import *

DRIVER = '''
def sub(k: int):
    yield k
    if c():
        yield k + 1
    t(k + 2)
def step(it) -> int:
    # 1000.. a value, 1 and 2 exceptions, 0 the end
    try:
        return 1000 + next(it)
    except E1:
        return 1
    except E2:
        return 2
    except StopIteration:
        return 0
def drive(f, depth: int, sched: int):
    g.h = 7
    g.n = 0
    for tape in range(1 << depth):
        # alone, to the end and beyond it
        g.reset(tape, depth)
        it = f(5)
        hold(it)
        while True:
            v = step(it)
            mix(v)
            if v < 1000:
                break
        if v == 0:
            mix(step(it))
        for x in g.log:
            mix(x)
        mix(g.pos)
        g.n += len(g.log)
        # in a for statement
        g.reset(tape, depth)
        try:
            for v in f(7):
                mix(v)
                t(v)
        except E1:
            mix(1)
        except E2:
            mix(2)
        for x in g.log:
            mix(x)
        # two instances, every schedule
        for s in range(1 << sched):
            g.reset(tape, depth)
            a, b = f(1), f(3)
            hold(a)
            hold(b)
            da, db = False, False
            for k in range(sched):
                if (s >> k) & 1:
                    if not db:
                        v = step(b)
                        db = v < 1000
                        mix(v)
                elif not da:
                    v = step(a)
                    da = v < 1000
                    mix(v)
            for x in g.log:
                mix(x)
            g.n += len(g.log)
    print(g.h, g.n)
'''
# CPython would run the finally blocks of abandoned generators: keep them
PRELUDE = cf.PRELUDE + 'def hold(it):\n    pass\n' + DRIVER
PYPRE = cf.PYPRE + 'from typing import Iterator as Generator\nimport atexit, os, sys\natexit.register(lambda: (sys.stdout.flush(), os._exit(1 if hasattr(sys, "last_type") else 0)))\nHELD = []\ndef hold(it):\n    HELD.append(it)\n' + DRIVER
JUMPS = ["", "break", "continue", "return", "raise E1()", "raise E2()", "yield from sub({k})", "yield {k} + p"]


def build_fn(name, chain, jumps):
    mark = itertools.count(1)

    def block(level, slot, inner):
        lines = [f"yield {next(mark)} + n", "n += p"]
        j = jumps.get((level, slot), "")
        if j:
            k = next(mark)
            lines.append("if c():\n    " + j.format(k=k))
        if inner is not None:
            lines.append(inner)
            lines.append(f"t({next(mark)} + n)")
        return "\n".join(lines)

    def comp(level):
        if level == len(chain):
            return None
        ci, si = chain[level]
        nm, slots, tpl = cf.COMPOUNDS[ci]
        blocks = []
        for s in range(len(slots)):
            blocks.append(cf.indent(block(level, s, comp(level + 1) if s == si else None)))
        return tpl.format(*blocks, d=level, m=next(mark) * 100)

    body = f"n = p * 10\nt({next(mark)} + n)\n" + comp(0) + f"\nyield {next(mark)} + n\nt({next(mark)})"
    return f"def {name}(p: int):\n{cf.indent(body)}"


def generate():
    seen = set()
    for depth in (1, 2, 3):
        for ch in cf.chains(depth):
            if depth == 3 and not THOROUGH:
                continue
            inner = (depth - 1, ch[-1][1])
            poss = [(l, s) for l in range(depth) for s in range(len(cf.COMPOUNDS[ch[l][0]][1]))]
            for j1 in JUMPS:
                if not cf.legal(ch, inner, j1):
                    continue
                for p2 in poss if depth == 1 or THOROUGH and depth == 2 else poss[:1]:
                    for j2 in JUMPS:
                        if (j2 and (p2 == inner or depth == 3 or depth == 2 and not THOROUGH and j2[0] not in "y")) or (not j2 and p2 != poss[0]):
                            continue
                        if j2 and not cf.legal(ch, p2, j2):
                            continue
                        jm = {inner: j1}
                        if j2:
                            jm[p2] = j2
                        src = build_fn("f", ch, jm)
                        if src not in seen:
                            seen.add(src)
                            yield "/".join(f"{cf.COMPOUNDS[c][0]}.{cf.COMPOUNDS[c][1][s]}" for c, s in ch) + "+" + ",".join(
                                f"{l}.{s}:{j}" for (l, s), j in sorted(jm.items())), src


# generators in other places: one program each, printed in full
FORMS = [
    ("expression over a variable changed later", "def f():\n    k = 2\n    it = (x * k for x in range(4))\n    a = [next(it)]\n    k = 5\n    for x in it:\n        a.append(x)\n    return a"),
    ("nested expression", "def f():\n    return [x * 10 + y for x in (i * i for i in range(4)) if x % 2 == 0 for y in (j + x for j in range(3)) if y != 2]"),
    ("expression evaluates its first iterable at once", "def hh(x: int):\n    print('h', x)\n    return [x, x + 1]\ndef f():\n    it = (a + b for a in hh(1) for b in hh(a))\n    print('made')\n    return list(it)"),
    ("recursive", "def walk(n: int) -> Generator[int]:\n    if n:\n        yield from walk(n - 1)\n        yield n\n        yield from walk(n - 1)\ndef f():\n    return list(walk(5))"),
    ("method", "class Aa:\n    v: list[int]\n    def __init__(self):\n        self.v = []\n    def __iter__(self):\n        for x in self.v:\n            yield x\n            yield x + 10\ndef f():\n    a = Aa()\n    a.v = [1, 2, 3]\n    return [x for x in a][:5]"),
    ("defaults and keywords", "def gen(a: int, b: int = 2, c: int = 3):\n    while a < b:\n        yield a * c\n        a += 1\ndef f():\n    return list(gen(1, c=7)) + list(gen(b=4, a=0)) + list(gen(3, 2, 1))"),
    ("closure", "def f():\n    n = 0\n    def gen():\n        for i in range(n + 3):\n            yield i + n\n    a = list(gen())\n    n = 2\n    return a + list(gen())"),
    ("chain of generators", "def ev(it):\n    for x in it:\n        if x % 2 == 0:\n            yield x\ndef sq(it):\n    for x in it:\n        yield x * x\ndef f():\n    return list(sq(ev(sq(ev(range(12))))))"),
    ("two levels of yield from", "def ga():\n    yield 1\n    yield 2\ndef gb():\n    yield 0\n    yield from ga()\n    yield from [7, 8]\n    yield from (x for x in (9, 10))\ndef f():\n    it = gb()\n    return [next(it), next(it)] + [x * 100 for x in it]"),
    ("zip of one generator with itself", "def gen():\n    i = 0\n    while i < 6:\n        yield i\n        i += 1\ndef f():\n    it = gen()\n    return [a * 10 + b for a, b in zip(it, it)]"),
    ("break and go on", "def gen():\n    for i in range(6):\n        yield i\ndef f():\n    it = gen()\n    a = []\n    for x in it:\n        if x == 2:\n            break\n        a.append(x)\n    for x in it:\n        a.append(x * 100)\n    return a"),
    ("strings and tuples", "def gen(s: str):\n    for i, ch in enumerate(s):\n        yield (i, ch, ch * i)\ndef f():\n    return [a * len(c) + ord(b) for a, b, c in gen('abcd')]"),
    ("sum, min, max, any, all, sorted", "def gen(n: int):\n    for i in range(n):\n        yield (i * 7) % 5\ndef f():\n    return [sum(gen(6)), min(gen(6)), max(gen(6)), int(any(x == 3 for x in gen(6))), int(all(x < 4 for x in gen(6)))] + sorted(gen(6))"),
    ("map, filter, reversed, enumerate", "def f():\n    return [a + b for a, b in enumerate(map(lambda x: x * 3, filter(lambda x: x != 2, range(5))))] + list(reversed([1, 2, 3]))"),
    ("exception in the consumer", "def gen():\n    for i in range(5):\n        yield i\ndef f():\n    it = gen()\n    a = []\n    try:\n        for x in it:\n            a.append(x)\n            if x == 1:\n                raise ValueError('x')\n    except ValueError:\n        a.append(-1)\n    for x in it:\n        a.append(x)\n    return a"),
    ("exhausted by a for statement, then used again", "def gen():\n    yield 1\ndef f():\n    it = gen()\n    return list(it) + list(it)"),
    ("next after an exception", "def gen(n: int):\n    yield 1\n    if n:\n        raise ValueError('x')\ndef f():\n    it = gen(1)\n    a = [next(it)]\n    try:\n        next(it)\n    except ValueError:\n        a.append(2)\n    try:\n        a.append(next(it, 3))\n    except ValueError:\n        a.append(4)\n    return a"),
    ("next beyond the end", "def gen(n: int):\n    for i in range(n):\n        yield i\ndef f():\n    it = gen(2)\n    return [next(it, 9) for i in range(6)]"),
    ("empty", "def gen(n: int):\n    if n:\n        yield 1\ndef f():\n    return list(gen(0)) + [x for x in gen(0)] + [7]"),
    ("many alive at once", "def gen(k: int):\n    n = k\n    while n < 40:\n        yield n\n        n += k + 1\ndef f():\n    its = [gen(k) for k in range(8)]\n    a = []\n    for r in range(4):\n        for it in its:\n            a.append(next(it))\n    return a"),
    ("local collections", "def gen():\n    seen = [0]\n    d = {0: 1}\n    for i in range(1, 5):\n        seen.append(seen[-1] + i)\n        d[i] = len(seen)\n        yield sum(seen) + d[i - 1]\ndef f():\n    a, b = gen(), gen()\n    return [next(a), next(a), next(b), next(a), next(b)]"),
]
SENDS = '''
def acc(start: int):
    m = start
    while True:
        a = (yield)
        if a < 0:
            break
        m = m * 10 + a
    yield m
def gaps(start: int):
    m = start
    while m < 50000:
        yield m
        a = (yield)
        m += a
    yield -m
'''


def sends():
    """Every sequence of values sent."""
    n = pick(4, 6)
    vals = (0, 1, 7)
    for k in range(n + 1):
        for seq in itertools.product(vals, repeat=k):
            body = "it = acc(3)\nnext(it)\n" + "".join(f"it.send({v})\n" for v in seq) + "print(it.send(-1))\n"
            yield f"send {seq}", body
            body = "it = gaps(3)\nx = next(it)\nprint(x)\n" + "".join(f"next(it)\nx = it.send({v * 9})\nprint(x)\n" for v in seq if True) 
            yield f"gaps {seq}", body


def main():
    chk = Check("C04", "model_checking")
    build("mc", "codonrt")
    depth, sched = pick((4, 4), (5, 6))
    cases = []
    for i, (key, src) in enumerate(generate()):
        cases.append(Case(key, src.replace("def f(", f"def f{i}("), f"drive(f{i}, {depth}, {sched})"))
    for i, (key, src) in enumerate(FORMS):
        src = re.sub(r"\b(gen|hh|walk|ev|sq|Aa|ga|gb)\b", lambda m: m.group(1) + str(i), src)
        cases.append(Case("form: " + key, src.replace("def f(", f"def form{i}("), f"print(form{i}())"))
    limit = int(os.environ.get("LIMIT", "0"))
    if limit:
        cases = cases[:: max(1, len(cases) // limit)]
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample(c.defs)
    modes = ("d", "r") if THOROUGH else ("t",)
    run_batches(chk, cases, modes=modes, batch=60, prelude=PRELUDE, py_prelude=PYPRE)
    run_batches(chk, [Case(k, "", b) for k, b in sends()], modes=("d", "r"), batch=60, prelude=SENDS, py_prelude=SENDS, label="s")
    chk.space("cases", "observed_lines", "cases_compared")
    chk.finish()


if __name__ == "__main__":
    main()
