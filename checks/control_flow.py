"""Structured control flow: every nest of compound statements up to the bound, every placement of
jumps in it, and every sequence of branch decisions, compared with CPython step by step."""
import itertools, sys
from mclib import *

PRELUDE = '''
class E1(Exception):
    def __init__(self):
        super().__init__("e1")
class E2(Exception):
    def __init__(self):
        super().__init__("e2")
class G:
    tape: int
    pos: int
    len: int
    h: int
    n: int
    log: list[int]
    def __init__(self):
        self.tape = 0
        self.pos = 0
        self.len = 0
        self.h = 7
        self.n = 0
        self.log = []
    def reset(self, tape: int, ln: int):
        self.tape = tape
        self.pos = 0
        self.len = ln
        self.log.clear()
g = G()
def c():
    if g.pos >= g.len:
        return False
    b = (g.tape >> g.pos) & 1
    g.pos += 1
    return b == 1
def t(k: int):
    g.log.append(k)
def r():
    i = 0
    while i < 2:
        yield i
        i += 1
class M:
    k: int
    def __init__(self, k: int):
        self.k = k
    def __enter__(self):
        t(self.k)
    def __exit__(self, *args):
        t(self.k + 1)
def mix(v: int):
    g.h = (g.h * 1000003 + v + 12345) % 1099511627689
def explore(f: Function[[], int], depth: int):
    g.h = 7
    g.n = 0
    for tape in range(1 << depth):
        g.reset(tape, depth)
        try:
            v = f()
            mix(1000 + v)
        except E1:
            mix(1)
        except E2:
            mix(2)
        for x in g.log:
            mix(x)
        mix(g.pos)
        g.n += len(g.log)
    print(g.h, g.n)
'''
PYPRE = '''
class Function:
    def __class_getitem__(cls, k): return cls
''' + PRELUDE

# compound statements: name, slots, template; {0}.. are the slots' blocks
COMPOUNDS = [
    ("if", ["then", "else"], "if c():\n{0}\nelse:\n{1}"),
    ("while", ["body", "else"], "while c():\n{0}\nelse:\n{1}"),
    ("for", ["body", "else"], "for i{d} in r():\n{0}\nelse:\n{1}"),
    ("fori", ["body"], "for i{d} in range(2):\n{0}"),
    ("tryx", ["body", "exc"], "try:\n{0}\nexcept E1:\n{1}"),
    ("tryxe", ["body", "exc", "else", "fin"], "try:\n{0}\nexcept E1:\n{1}\nelse:\n{2}\nfinally:\n{3}"),
    ("tryf", ["body", "fin"], "try:\n{0}\nfinally:\n{1}"),
    ("with", ["body"], "with M({m}):\n{0}"),
]
JUMPS = ["", "break", "continue", "return {k}", "raise E1()", "raise E2()"]
LOOPS = {("while", "body"), ("for", "body"), ("fori", "body")}


def indent(s):
    return "\n".join("    " + l for l in s.split("\n"))


def build_fn(name, chain, jumps):
    """chain: [(compound index, slot index)...]; jumps: {(level, slot): jump}; the innermost level
    len(chain) is the block that sits in the last chosen slot."""
    mark = itertools.count(1)

    def block(level, slot, inner):
        lines = [f"t({next(mark)})"]
        j = jumps.get((level, slot), "")
        if j:
            k = next(mark)
            lines.append("if c():\n    " + j.format(k=k))
        if inner is not None:
            lines.append(inner)
            lines.append(f"t({next(mark)})")
        return "\n".join(lines)

    def comp(level):
        if level == len(chain):
            return None
        ci, si = chain[level]
        nm, slots, tpl = COMPOUNDS[ci]
        blocks = []
        for s in range(len(slots)):
            blocks.append(indent(block(level, s, comp(level + 1) if s == si else None)))
        return tpl.format(*blocks, d=level, m=next(mark) * 100)

    body = f"t({next(mark)})\n" + comp(0) + f"\nt({next(mark)})\nreturn 0"
    return f"def {name}():\n{indent(body)}"


def legal(chain, pos, jump):
    """break/continue need a loop around them"""
    if not jump.startswith(("break", "continue")):
        return True
    level, slot = pos
    enclosing = [(COMPOUNDS[c][0], COMPOUNDS[c][1][s]) for c, s in chain[:level]]
    enclosing.append((COMPOUNDS[chain[level][0]][0], COMPOUNDS[chain[level][0]][1][slot]))
    return any(e in LOOPS for e in enclosing)


def chains(depth):
    opts = [(ci, si) for ci, c in enumerate(COMPOUNDS) for si in range(len(c[1]))]
    return itertools.product(opts, repeat=depth)


def generate():
    seen = set()

    def emit(chain, jumps):
        # the slot recorded for the last level only says where nothing follows
        src = build_fn("f", chain, jumps)
        if src in seen:
            return
        seen.add(src)
        key = "/".join(f"{COMPOUNDS[c][0]}.{COMPOUNDS[c][1][s]}" for c, s in chain) + "+" + ",".join(
            f"{l}.{s}:{j.split(' ')[0]}{j[6:8] if j.startswith('raise') else ''}" for (l, s), j in sorted(jumps.items()))
        yield key, src

    # depth 1 and 2: two jumps anywhere; depth 3: one jump, innermost
    for depth in (1, 2):
        for ch in chains(depth):
            poss = [(l, s) for l in range(depth) for s in range(len(COMPOUNDS[ch[l][0]][1]))]
            inner = (depth - 1, ch[-1][1])
            for p2 in poss:
                for j1 in JUMPS[1:]:
                    if not legal(ch, inner, j1):
                        continue
                    for j2 in JUMPS:
                        if (j2 and p2 == inner) or (not j2 and p2 != poss[0]):
                            continue
                        if j2 and not legal(ch, p2, j2):
                            continue
                        if depth == 2 and j2 and not THOROUGH:
                            # quick: the second jump matters where a handler or finaliser runs
                            nm, sl = COMPOUNDS[ch[p2[0]][0]][0], COMPOUNDS[ch[p2[0]][0]][1][p2[1]]
                            if sl not in ("fin", "exc") or j2.startswith("raise E2"):
                                continue
                        jm = {inner: j1}
                        if j2:
                            jm[p2] = j2
                        yield from emit(ch, jm)
    keep = {0: (0, 1), 1: (0,), 2: (0,), 3: (0,), 4: (0, 1), 5: (1, 3), 6: (0, 1), 7: (0,)}
    for ch in chains(3):
        if not THOROUGH and any(s not in keep[c] for c, s in ch):
            continue
        inner = (2, ch[-1][1])
        for j1 in JUMPS[1:]:
            if not THOROUGH and j1.startswith(("raise E2", "continue")):
                continue
            if legal(ch, inner, j1):
                yield from emit(ch, {inner: j1})


def main():
    chk = Check("C03", "model_checking")
    build("mc", "codonrt")
    depth = pick(5, 7)
    cases = []
    for i, (key, src) in enumerate(generate()):
        cases.append(Case(key, src.replace("def f(", f"def f{i}("), f"explore(f{i}, {depth})"))
    limit = int(os.environ.get("LIMIT", "0"))
    if limit:
        cases = cases[:: max(1, len(cases) // limit)]
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample(c.defs)
    modes = ("d", "r") if THOROUGH else ("d", "t")
    run_batches(chk, cases, modes=modes, batch=100, prelude=PRELUDE, py_prelude=PYPRE)
    chk.space("cases", "observed_lines", "cases_compared")
    chk.finish()


if __name__ == "__main__":
    main()
