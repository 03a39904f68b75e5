"""Blocks of observations run by both implementations from one source and compared by digest.

A family is (name, source, blocks): source defines functions taking a digest object; a block is
(key, call) where call is an expression with {dg} standing for the digest. A block whose digest
differs is run again with every observation printed, so each difference is about one input."""
import re
from mclib import *

DIGEST = '''
class Dg:
    h: int
    n: int
    show: bool
    def __init__(self, show: bool):
        self.h = 7
        self.n = 0
        self.show = show
    def add(self, s: str):
        if self.show:
            print(s)
        self.n += 1
        h = self.h
        for c in s:
            h = (h * 131 + ord(c)) % 10000000000000061
        self.h = h
    def done(self):
        print("digest", self.h, self.n)
def r(x):
    return str(x)
'''
PYHEAD = "from __future__ import annotations\nfrom typing import *\n"


def both(chk, progs, mode, py_head, py, label, limit, fix, flags=()):
    refs = python_outputs([py_head + fix(s) for s in progs], chk.tmp, exe=py)
    files = []
    for i, s in enumerate(progs):
        p = os.path.join(chk.tmp, f"{label}{mode}{i}.py")
        with open(p, "w") as f:
            f.write(s)
        files.append((p, p + ".out"))
    st = mc_run(files, mode, flags=flags, limit=limit)
    return refs, [(st[p], slurp(o)) for p, o in files]


def body(prelude, src, blocks, show):
    s = prelude + src
    for i, (key, call) in enumerate(blocks):
        s += f"def block{i}():\n    dg = Dg({show})\n    print({MARK + key!r})\n    {call.format(dg='dg')}\n    dg.done()\nblock{i}()\n"
    return s + f"print('{MARK}END')\n"


def run_blocks(chk, families, modes=("d",), parts=8, prelude=DIGEST, py_head=PYHEAD, py="python3", limit=300,
               label="", counter="observations", fix=lambda s: s, shown=4, flags=()):
    only = os.environ.get("FAMILY")
    progs = []
    for name, src, blocks in families:
        if only and not re.fullmatch(only, name):
            continue
        step = (len(blocks) + parts - 1) // parts
        for j in range(0, len(blocks), step):
            progs.append((name, src, blocks[j:j + step]))
        chk.sample(f"{name}: {blocks[0][1]}")
    for mode in modes:
        refs, res = both(chk, [body(prelude, s, b, False) for _, s, b in progs], mode, py_head, py, label, limit, fix, flags)
        again, silent = [], set()
        for (name, src, blocks), ref, (st, out) in zip(progs, refs, res):
            want, got = split_cases(ref), split_cases(out)
            for b in blocks:
                m = re.search(r"digest \d+ (\d+)", want[b[0]])
                if not m:
                    print(f"reference of {b[0]} has no digest")
                    sys.exit(2)
                chk.count(**{counter: int(m.group(1)), "blocks": 1})
                if got.get(b[0]) != want[b[0]]:
                    again.append((name, src, b))
                    if "digest" in got.get(b[0], ""):
                        silent.add(b[0])
        if again:
            refs, res = both(chk, [body(prelude, s, [b], True) for _, s, b in again], mode, py_head, py, label + "x", limit, fix, flags)
            for (name, src, b), ref, (st, out) in zip(again, refs, res):
                u, v = ref.split("\n"), out.split("\n")
                n = 0
                if st and len(v) < 3:
                    chk.violation(f"{mode}:{b[0]}:fails", f"status {st}\n{out[-1500:]}", body(prelude, src, [b], True))
                    continue
                for i, x in enumerate(u):
                    y = v[i] if i < len(v) else f"<status {st}>"
                    if x != y and not x.startswith("digest"):
                        if chk.violation(f"{mode}:{b[0]}:{x}", f"expected {x}\ngot      {y}", body(prelude, src, [b], True)):
                            n += 1
                        if n >= shown or i >= len(v):
                            break
                if u == v and not st and b[0] in silent:
                    chk.violation(f"{mode}:{b[0]}:digest", "the digest of this block differs when it runs after others", body(prelude, src, [b], True))
                if n == 0 and st:
                    chk.violation(f"{mode}:{b[0]}:status", f"status {st}\n{out[-1500:]}", body(prelude, src, [b], True))
