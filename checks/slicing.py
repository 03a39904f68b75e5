#!/usr/bin/env python3
"""C11: every index and slice of every short sequence, read, assigned and deleted."""
from digests import *

BIG = ["-9223372036854775807", "9223372036854775807", "-4611686018427387905", "4611686018427387904"]
PRE = DIGEST + '''
def mk(n: int) -> List[int]:
    return [10 + i for i in range(n)]
def rng(m: int) -> List[int]:
    return list(range(-m, m + 1)) + [%s]
def steps() -> List[int]:
    return [1, 2, 3, 5, -1, -2, -3, -5, 0, %s]
''' % (", ".join(BIG), ", ".join(BIG))


def forms():
    for a in ("", "i"):
        for b in ("", "j"):
            for c in (None, "", "k"):
                yield a + ":" + b + ("" if c is None else ":" + c), a, b, c


def nest(a, b, c, m, inner):
    """Loops over the values that occur in the form."""
    s, ind = "", "    "
    for v, on, vals in (("i", a, f"rng({m})"), ("j", b, f"rng({m})"), ("k", c, "steps()")):
        if on:
            s += f"{ind}for {v} in {vals}:\n"
            ind += "    "
    for l in inner.split("\n"):
        s += ind + l + "\n"
    return s


def attempt(code, what):
    lines = "\n".join("    " + l for l in code.split("\n"))
    return f"try:\n{lines}\nexcept ValueError:\n    dg.add({what} + ' ValueError')\nexcept IndexError:\n    dg.add({what} + ' IndexError')"


def families():
    m = pick(6, 8)
    src, blocks = "", []
    for t, (f, a, b, c) in enumerate(forms()):
        w = "r(n)" + "".join(f" + ',' + r({v})" for v, on in (("i", a), ("j", b), ("k", c)) if on)
        src += f"def get{t}(dg: Dg, n: int):\n    a = mk(n)\n    s = 'abcdefghijklm'[:n]\n    q = range(3, 3 + 2 * n, 2)\n"
        src += nest(a, b, c, m, attempt(f"dg.add({w} + ' ' + r(a[{f}]) + s[{f}])", w) )
        src += f"def del{t}(dg: Dg, n: int):\n" + nest(a, b, c, m, attempt(f"a = mk(n)\ndel a[{f}]\ndg.add({w} + ' ' + r(a))", w))
        src += f"def set{t}(dg: Dg, n: int):\n    for l in range(5):\n" + nest(a, b, c, m, attempt(f"a = mk(n)\na[{f}] = [x for x in range(l)]\ndg.add({w} + ' ' + r(l) + r(a))", w + " + ' ' + r(l)")).replace("\n    ", "\n        ").replace("    ", "        ", 1)
        src += f"def self{t}(dg: Dg, n: int):\n" + nest(a, b, c, m, attempt(f"a = mk(n)\na[{f}] = a\ndg.add({w} + ' ' + r(a))", w))
        for op in ("get", "del", "set", "self"):
            for n in range(pick(6, 8)):
                blocks.append((f"{op} [{f}] of {n}", f"{op}{t}({{dg}}, {n})"))
    yield "slices", src, blocks

    src = f'''
def index(dg: Dg, n: int):
    a = mk(n)
    s = 'abcdefghijklm'[:n]
    q = range(3, 3 + 2 * n, 2)
    z = range(3, 3 - 3 * n, -3)
    for i in rng(20):
        w = r(n) + ',' + r(i) + ' '
        try:
            dg.add(w + r(a[i]))
        except IndexError:
            dg.add(w + 'IndexError')
        try:
            dg.add(w + s[i])
        except IndexError:
            dg.add(w + 'str IndexError')
        try:
            dg.add(w + r(q[i]) + r(z[i]))
        except IndexError:
            dg.add(w + 'range IndexError')
        b = mk(n)
        try:
            b[i] = 99
            dg.add(w + r(b))
        except IndexError:
            dg.add(w + 'set IndexError')
        try:
            del b[i]
            dg.add(w + r(b))
        except IndexError:
            dg.add(w + 'del IndexError')
        try:
            dg.add(w + r(b.pop(i)) + r(b))
        except IndexError:
            dg.add(w + 'pop IndexError')
        b = mk(n)
        b.insert(i, 99)
        dg.add(w + r(b))
        try:
            b[i] += 5
            dg.add(w + r(b))
        except IndexError:
            dg.add(w + 'iadd IndexError')
def ranges(dg: Dg, lo: int):
    m = {pick(7, 11)}
    for a in [lo]:
        for b in range(-m, m + 1):
            for s in (1, 2, 3, 4, 7, 20, -1, -2, -3, -4, -7, -20):
                q = range(a, b, s)
                w = r(a) + ',' + r(b) + ',' + r(s) + ' '
                dg.add(w + r(len(q)) + r(list(q)) + r(bool(q)) + r([x for x in reversed(q)]) + r(x in q for x in range(0)) if False else w + r(len(q)) + r(list(q)) + r(bool(q)) + r([x for x in reversed(q)]))
                dg.add(w + r([x for x in range(-m - 2, m + 2) if x in q]))
                dg.add(w + r(q))
                c = 0
                for x in range(a, b, s):
                    c = (c * 31 + x + 100) % 1000003
                dg.add(w + r(c))
                for x in q:
                    if q[list(q).index(x)] != x:
                        dg.add(w + 'item')
'''
    yield "indices", src, [(f"index of {n}", f"index({{dg}}, {n})") for n in range(pick(7, 12))] + \
        [(f"range from {a}", f"ranges({{dg}}, {a})") for a in range(-pick(7, 11), pick(8, 12))]

    # a tuple's indices are compile-time constants
    src, blocks = "", []
    for n in range(1, pick(4, 6)):
        lines = [f"t = ({', '.join(repr(x) for x in (10, 'a', 2.5, True, 7)[:n])},)"]
        for i in range(-n, n):
            lines.append(f"dg.add(r(t[{i}]))")
        ends = [""] + [str(x) for x in range(-n - 2, n + 3)]
        for i in ends:
            for j in ends:
                for k in ("", ":1", ":2", ":-1", ":-2", ":3"):
                    lines.append(f"dg.add('{i}:{j}{k} ' + r(t[{i}:{j}{k}]))")
        src += f"def tup{n}(dg: Dg):\n" + "".join(f"    {l}\n" for l in lines)
        blocks.append((f"tuple of {n}", f"tup{n}({{dg}})"))
    yield "tuples", src, blocks


def main():
    chk = Check("C11", "model_checking")
    build("mc", "codonrt")
    run_blocks(chk, families(), modes=pick(("d",), ("d", "r")), prelude=PRE, limit=pick(300, 2500))
    chk.space("blocks", "observations", "observations")
    chk.finish()


if __name__ == "__main__":
    main()
