"""Outlining every region of every bounded function, and inlining every bounded function into every
kind of place; the transformed program must do what CPython does with the original, for every
sequence of branch decisions."""
import os, sys
from mclib import *
from control_flow import PRELUDE as CF_PRELUDE, PYPRE as CF_PYPRE, indent

FAMILY = os.environ.get("FAMILY")
MORE = '''
GG = 0
def mixes(f: Function[[int], int], depth: int):
    global GG
    g.h = 7
    g.n = 0
    for tape in range(1 << depth):
        g.reset(tape, depth)
        GG = 5
        try:
            v = f(tape)
            mix(1000 + v)
        except E1:
            mix(1)
        except E2:
            mix(2)
        for x in g.log:
            mix(x)
        mix(GG)
        mix(g.pos)
        g.n += len(g.log)
    print(g.h, g.n)
'''
PRELUDE = CF_PRELUDE + MORE
PYPRE = CF_PYPRE + MORE

COMPOUNDS = [
    ("if", ["then", "else"], "if c():\n{0}\nelse:\n{1}"),
    ("while", ["body", "else"], "while c():\n{0}\nelse:\n{1}"),
    ("for", ["body"], "for i{d} in r():\n    x += i{d}\n{0}"),
    ("fori", ["body", "else"], "for i{d} in range(2):\n    y += i{d}\n{0}\nelse:\n{1}"),
    ("tryx", ["body", "exc"], "try:\n{0}\nexcept E1:\n{1}"),
    ("tryf", ["body", "fin"], "try:\n{0}\nfinally:\n{1}"),
]
JUMPS = ["", "break", "continue", "return x + {k}", "return y", "raise E1()"]
LOOPS = {("while", "body"), ("for", "body"), ("fori", "body")}


def body_of(chain, jumps, globals_=True):
    """The body of f(a): blocks along the chain change x, y, a and GG; jumps sit in them."""
    n = [0]

    def k():
        n[0] += 1
        return n[0]

    def block(level, slot, inner, on_path):
        lines = [f"x = x * 3 + {k()}"]
        if on_path and slot % 2 == 0:
            lines.append(f"p{level} = x + a")
        j = jumps.get((level, slot), "")
        if j:
            lines.append("if c():\n    " + j.format(k=k()))
        if inner is not None:
            lines.append(inner)
        if on_path and slot % 2 == 0:
            lines.append(f"y += p{level}")
            if globals_:
                lines.append(f"GG += {k()}")
        else:
            lines.append(f"a = y + {k()}")
        lines.append("t(x)")
        return "\n".join(lines)

    def comp(level):
        if level == len(chain):
            return None
        ci, si = chain[level]
        nm, slots, tpl = COMPOUNDS[ci]
        return tpl.format(*[indent(block(level, s, comp(level + 1) if s == si else None, s == si))
                            for s in range(len(slots))], d=level)

    return "x = a + 1\ny = 2\n" + comp(0) + "\nt(y)\nreturn x + y * 2 + a"


def legal(chain, pos, jump):
    if not jump.startswith(("break", "continue")):
        return True
    level, slot = pos
    enc = [(COMPOUNDS[c][0], COMPOUNDS[c][1][s]) for c, s in chain[:level]]
    enc.append((COMPOUNDS[chain[level][0]][0], COMPOUNDS[chain[level][0]][1][slot]))
    return any(e in LOOPS for e in enc)


def bodies():
    opts = [(ci, si) for ci, c in enumerate(COMPOUNDS) for si in range(len(c[1]))]
    seen = set()
    for depth in (1, 2):
        for ch in itertools_product(opts, depth):
            inner = (depth - 1, ch[-1][1])
            for j in JUMPS:
                if not legal(ch, inner, j):
                    continue
                if depth == 2 and not THOROUGH and (j in ("return y", "") or ch[0][1] and COMPOUNDS[ch[0][0]][0] in ("if", "while", "fori")
                                                    or ch[1][1] and COMPOUNDS[ch[1][0]][0] in ("if", "while", "fori")):
                    continue
                jm = {inner: j} if j else {}
                b = body_of(ch, jm)
                if b in seen:
                    continue
                seen.add(b)
                key = "/".join(f"{COMPOUNDS[c][0]}.{COMPOUNDS[c][1][s]}" for c, s in ch) + "+" + j.split(" ")[0] + ("y" if j.endswith(" y") else "")
                yield key, b
                if j and depth == 1:
                    for j2 in JUMPS[1:]:
                        for s2 in range(len(COMPOUNDS[ch[0][0]][1])):
                            if s2 != ch[0][1] and legal(ch, (0, s2), j2):
                                yield key + f"|{s2}{j2}", body_of(ch, {inner: j, (0, s2): j2})


def blocks():
    """Bodies of plain nested blocks (statically true conditions), with returns anywhere in them."""
    simple = ["t({k})", "return a + {k}", "if c():\n    return a * {k}"]
    inner = list(itertools_product(simple, 1)) + list(itertools_product(simple, 2))
    items = simple + ["if isinstance(a, int):\n" + indent("\n".join(b)) for b in inner]
    for n in (1, 2):
        for seq in itertools_product(range(len(items)), n):
            if all(i < len(simple) for i in seq):
                continue
            b = "\n".join(items[i] for i in seq) + "\nt(98)\nreturn a + 99"
            parts = b.split("{k}")
            yield "blocks:" + ",".join(map(str, seq)), "".join(x + (str(i + 1) if i < len(parts) - 1 else "") for i, x in enumerate(parts))


def itertools_product(opts, n):
    import itertools
    return itertools.product(opts, repeat=n)


def passlog(path):
    res = {}
    for l in slurp(path).splitlines():
        a, b = l.split("\t")
        res.setdefault(a, []).append(b)
    return res


def outlining(chk, depth):
    bs = list(bodies())
    log = os.path.join(chk.tmp, "passlog")
    # how many regions each body has
    cases = [Case(f"probe{i}", f"def outn_{i}(a):\n    global GG\n" + indent(b), f"outn_{i}(1)", None)
             for i, (k, b) in enumerate(bs)]
    src = PRELUDE + "\n".join(c.defs for c in cases) + "\n" + "\n".join(
        f"g.reset(0, 0)\ntry:\n    outn_{i}(0)\nexcept E1:\n    pass" for i in range(len(bs)))
    p = os.path.join(chk.tmp, "probe.py")
    open(p, "w").write(src)
    st = mc_run([(p, p + ".out")], "d", ("-X",), extra_env=dict(MC_PASSLOG=log))
    n = {k: int(v[0]) for k, v in passlog(log).items()}
    if st[p] or len(n) != len(bs):
        chk.violation("probe", slurp(p + ".out") + str(st))
        return 0
    os.remove(log)
    cases = []
    names = {}
    for i, (key, b) in enumerate(bs):
        for r in range(n[f"outn_{i}"]):
            for o in ((1, 3) if THOROUGH else ((1,) if r % 2 else (3,))):
                f = f"outl_{r}_{o}_{i}"
                names[f] = key
                cases.append(Case(f"outline:{key}:{r}:{o}", f"def {f}(a):\n    global GG\n" + indent(b), f"mixes({f}, {depth})"))
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample(c.key + "\n" + c.defs)
    for mode in ("d", "r") if THOROUGH else ("d",):
        run_batches(chk, cases, modes=(mode,), batch=100, prelude=PRELUDE, py_prelude=PYPRE, flags=("-X",),
                    extra_env=dict(MC_PASSLOG=log))
        res = passlog(log)
        os.remove(log)
        for f, key in names.items():
            if f not in res:
                chk.violation(f"region:{key}:{f}", "the region was not tried: the function changed shape")
                continue
            how = res[f][0]
            if how == "refused":
                # nothing in these regions forbids it
                chk.violation(f"refused:{key}:{f}", "a region without yields was refused")
            elif "bad" in how:
                chk.violation(f"kinds:{key}:{f}", how)
            chk.count(regions_outlined=int(how.startswith("outlined")), with_outflows=int(how.startswith("outlined") and not how.endswith(" 0")))
    return len(cases)


PLACES = {
    "stmt": "    {f}(a)\n    return a",
    "ret": "    return {f}(a)",
    "assign": "    x = 4\n    x = {f}(x + a)\n    return x",
    "args": "    return {f}({f}(a) + 1)",
    "sum": "    y = 3\n    return {f}(y) * 100 + {f}(a) + y",
    "loop": "    s = 0\n    for i in range(3):\n        if c():\n            continue\n        s += {f}(i)\n    return s + a",
    "while": "    n = 0\n    while n < 2 and {f}(n) != 1:\n        n += 1\n        if c():\n            break\n    else:\n        n += 100\n    return n",
    "cond": "    return {f}(a) if c() else {f}(7)",
    "and": "    if c() and {f}(a) > 3 or c():\n        return 1\n    return 2",
    "try": "    try:\n        return {f}(a)\n    except E1:\n        return {f}(a + 1)\n    finally:\n        t(900)",
    "comp": "    return sum([{f}(i) for i in range(2)])",
    "list": "    L = [t2(1), {f}(a), t2(2)]\n    return L[1]",
    "alias": "    x = a\n    {f}(x)\n    y = x\n    {f}(y)\n    return x * 10 + y",
}


def inlining(chk, depth):
    pre, pypre = PRELUDE + "def t2(k: int):\n    t(k)\n    return k\n", PYPRE + "def t2(k: int):\n    t(k)\n    return k\n"
    bs = [("straight", "return a * 2 + 1"), ("two", "x = a * 2\nt(x)\nreturn x + 1"), ("arg", "a += 5\nt(a)\nreturn a"),
          ("nested", "x = 0\nif a > 1:\n    return 5\nreturn x"), ("rec", "t(a)\nif a > 30:\n    return a\nreturn SELF(a * 3 + 40)"),
          ("global", "global GG\nGG += a\nreturn GG"), ("throw", "if a > 1:\n    raise E1()\nreturn 1"),
          ("tail", "t(a)\nif c():\n    return 1\nelse:\n    return 2")]
    bs += list(bodies()) + list(blocks())
    cases, names = [], {}
    k = 0
    for key, b in bs:
        small = "/" not in key
        for pn, place in PLACES.items():
            if not THOROUGH and not small and pn not in ("sum", "while", "try"):
                continue
            if not THOROUGH and key.startswith("blocks") and pn not in ("sum", "args"):
                continue
            if not THOROUGH and "|" in key and pn not in ("args", "loop", "try"):
                continue
            for kind in ("inln", "inla"):
                if kind == "inln" and not small:
                    continue
                k += 1
                f = f"{kind}_{k}"
                names[f] = (key, pn)
                glob = "" if "global" in b else "    global GG\n" if "GG" in b else ""
                d = (f"def {f}(a: int) -> int:\n{glob}" + indent(b.replace("SELF", f)) + f"\ndef at{k}(a: int) -> int:\n" + place.format(f=f))
                cases.append(Case(f"inline:{key}:{pn}:{kind}", d, f"mixes(at{k}, {depth})"))
    log = os.path.join(chk.tmp, "passlog")
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        chk.sample(c.key + "\n" + c.defs)
    for mode in ("d", "r") if THOROUGH else ("d",):
        run_batches(chk, cases, modes=(mode,), batch=100, prelude=pre, py_prelude=pypre, flags=("-X",),
                    extra_env=dict(MC_PASSLOG=log), label="i")
        res = passlog(log)
        os.remove(log)
        for f, (key, pn) in names.items():
            if f not in res:
                chk.violation(f"inline:{key}:{pn}", "no call was seen")
            elif f.startswith("inla") and "refused" in res[f]:
                chk.violation(f"inline:{key}:{pn}", "aggressive inlining refused a function with a body")
            elif f.startswith("inln") and key in ("straight", "two", "arg", "global") and "refused" in res[f]:
                chk.violation(f"inline:{key}:{pn}", "a function with one return at its end was refused")
            chk.count(inlined=res.get(f, []).count("inlined"), inline_refused=res.get(f, []).count("refused"))
    return len(cases)


def main():
    chk = Check("C22", "model_checking")
    build("mc", "codonrt", "xform")
    n = 0
    # the utilities on every bounded IR program, run by a reference interpreter before and after
    if FAMILY in (None, "ir"):
        harness(chk, "xform", "inline", pick(2, 3), 8, timeout=pick(600, 3000))
        harness(chk, "xform", "outline", 3, 8, timeout=pick(600, 3000))
        n += chk.coverage["programs"]
    depth = pick(4, 6)
    if FAMILY in (None, "outline"):
        n += outlining(chk, depth)
    if FAMILY in (None, "inline"):
        n += inlining(chk, depth)
    chk.space("programs cases", "executions observed_lines", "inlined outlined cases_compared")
    chk.finish()


if __name__ == "__main__":
    main()
