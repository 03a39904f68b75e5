#!/usr/bin/env python3
"""C10: every short history of operations on every built-in container, against CPython's containers."""
import re
from mclib import *

# One program source for both implementations. A history is a number: its digits are operations.
# After every history the whole state is rendered; a rolling digest of the renderings is printed
# per block of histories, and a block that differs is run again with every rendering printed.
PRE = '''
from collections import deque, Counter, defaultdict
class D:
    h: int
    n: int
    show: bool
    def __init__(self, show: bool):
        self.h = 7
        self.n = 0
        self.show = show
    def add(self, s: str):
        if self.show:
            print(s)
        self.n += 1
        h = self.h
        for c in s:
            h = (h * 131 + ord(c)) % 2305843009213693951 % 10000000000000000
        self.h = h
    def done(self):
        print("digest", self.h, self.n)
class K:
    # all keys collide in pairs of classes
    v: int
    def __init__(self, v: int):
        self.v = v
    def __hash__(self):
        return self.v % 2
    def __eq__(self, o: K):
        return self.v == o.v
    def __ne__(self, o: K):
        return self.v != o.v
    def __lt__(self, o: K):
        return self.v < o.v
    def __le__(self, o: K):
        return self.v <= o.v
    def __gt__(self, o: K):
        return self.v > o.v
    def __ge__(self, o: K):
        return self.v >= o.v
    def __repr__(self):
        return "K" + str(self.v)
    def __str__(self):
        return "K" + str(self.v)
def r(x):
    return str(x)
'''
PY = "from typing import *\nfrom __future__ import annotations\n"
PYPRE = "from __future__ import annotations\nfrom typing import *\n" + PRE


def interp(name, setup, ops, render, types):
    """Source of an interpreter for histories of this family of operations."""
    s = f"def one_{name}(seq: List[int], dg: D):\n"
    s += "".join(f"    {l}\n" for l in setup.split("\n"))
    s += "    log = ''\n    for op in seq:\n        try:\n"
    for i, (_, code) in enumerate(ops):
        s += f"            {'if' if i == 0 else 'elif'} op == {i}:\n"
        s += "".join(f"                {l}\n" for l in code.split("\n"))
    for e in ("IndexError", "KeyError", "ValueError"):
        s += f"        except {e}:\n            log += '!{e[0]} '\n"
    s += f"        {render}\n"
    s += "    dg.add(log)\n"
    s += f"""def run_{name}(first: int, n: int, show: bool):
    dg = D(show)
    seq = [first] + [0] * n
    while True:
        one_{name}(seq, dg)
        i = n
        while i > 0 and seq[i] == {len(ops) - 1}:
            seq[i] = 0
            i -= 1
        if i == 0:
            break
        seq[i] += 1
    dg.done()
"""
    return s


LIST_OPS = [
    ("append", "a.append(v)"), ("append2", "a.append(v + 1)\na.append(v)"),
    ("insert0", "a.insert(0, v)"), ("insert-1", "a.insert(-1, v)"), ("insert2", "a.insert(2, v)"), ("insert9", "a.insert(9, v)"), ("insert-9", "a.insert(-9, v)"),
    ("pop", "log += r(a.pop()) + ' '"), ("pop0", "log += r(a.pop(0)) + ' '"), ("pop-2", "log += r(a.pop(-2)) + ' '"), ("pop2", "log += r(a.pop(2)) + ' '"),
    ("del1", "del a[1]"), ("del-1", "del a[-1]"), ("set1", "a[1] = v"), ("set-2", "a[-2] = v"), ("get", "log += r(a[0]) + r(a[-1]) + ' '"),
    ("iadd", "a += [v, v + 1]"), ("iaddself", "a += a"), ("extend", "a.extend([v, 5, v])"), ("extendgen", "a.extend(x + v for x in range(2))"),
    ("imul2", "a *= 2"), ("imul0", "a *= 0"), ("imul-1", "a *= -1"), ("add", "a = a + [v]"), ("mul", "a = a * 2\na = 1 * a"),
    ("slice", "a = a[1:]"), ("slicerev", "a = a[::-1]"), ("slice2", "a = a[::2]"), ("sliceset", "a[1:2] = [v, v, v]"), ("sliceset0", "a[:0] = [v]"),
    ("slicesetself", "a[1:1] = a"), ("slicesetstep", "a[::2] = [v] * ((len(a) + 1) // 2)"), ("slicesetbad", "a[::2] = [v]"), ("slicedel", "del a[1:3]"), ("slicedel2", "del a[::2]"), ("sliceclear", "a[:] = []"),
    ("reverse", "a.reverse()"), ("sort", "a.sort()"), ("sortrev", "a.sort(reverse=True)"), ("clear", "a.clear()"),
    ("index", "log += r(a.index(5)) + ' '"), ("count", "log += r(a.count(0)) + ' '"), ("contains", "log += r(0 in a) + r(77 in a) + ' '"),
    ("copy", "b = a\na = a.copy()\na.append(v)"), ("alias", "b = a"), ("useb", "a, b = b, a"), ("cmp", "log += r(a < b) + r(a == b) + r(a >= b) + r(a != b) + r(a > b) + r(a <= b) + ' '"),
    ("extb", "a.extend(b)"), ("slicesetb", "a[1:2] = b"), ("sum", "log += r(sum(a)) + r(list(reversed(a))) + r([x for x in a if x % 2]) + ' '"), ("minmax", "log += r(min(a)) + r(max(a)) + ' '" ),
    ("lst", "a = list(x for x in a)\nlog += r(len(a)) + r(bool(a))")
]
STR_LIST_OPS = [
    ("append", "a.append('x' + r(len(a)))"), ("insert", "a.insert(1, '')"), ("pop", "log += a.pop(0)"), ("iadd", "a += ['y', 'x0']"), ("imul", "a *= 2"), ("join", "log += ','.join(a)"),
    ("sort", "a.sort()"), ("sortkey", "a.sort(key=lambda s: -len(s))"), ("index", "log += r(a.index('y'))"), ("slice", "a[1:3] = ['q', 'r', 's']"), ("del", "del a[::2]"), ("cmp", "log += r(a < ['x0', 'y'])"), ("contains", "log += r('y' in a)"), ("rev", "a = a[::-1]"),
]
MAP_OPS = [
    ("set1", "d1[k(1)] = v"), ("set3", "d1[k(3)] = v"), ("set2", "d1[k(2)] = v + 1"), ("fill8", "for i in range(8):\n    d1[k(i)] = i"), ("fill100", "for i in range(100, 130, 3):\n    d1[k(i)] = i"),
    ("del1", "del d1[k(1)]"), ("del3", "del d1[k(3)]"), ("dropeven", "for i in range(0, 130, 2):\n    if k(i) in d1:\n        del d1[k(i)]"), ("dropodd", "for i in range(1, 130, 2):\n    d1.pop(k(i), 0)" ), ("pop2", "log += r(d1.pop(k(2)))"),
    ("get", "log += r(d1.get(k(1), -1)) + r(d1.get(k(2), -1)) + ' '"), ("index", "log += r(d1[k(3)])"), ("in", "log += r(k(1) in d1) + r(k(2) not in d1) + ' '"),
    ("setdefault", "log += r(d1.setdefault(k(1), v))"), ("update", "d1.update({k(1): 7, k(5): 8})"), ("iadd", "d1[k(1)] += 5"), ("imax", "d1[k(2)] = max(d1.get(k(2), 0), v)"), ("incr", "d1[k(3)] = d1.get(k(3), 0) + 1"),
    ("clear", "d1.clear()"), ("copy", "d2 = d1.copy()"), ("alias", "d2 = d1"), ("swap", "d1, d2 = d2, d1"), ("or", "d1 = d1 | d2"), ("ior", "d1 |= d2"), ("eq", "log += r(d1 == d2) + r(d1 != d2) + ' '"),
    ("popitem", "kk, vv = d1.popitem()\nlog += r(kk in d1)\nd1[kk] = vv"), ("comp", "d1 = {x: y + 1 for x, y in d1.items() if y % 3}"), ("values", "log += r(sorted(d1.values())) + r(sorted(d1.keys()))"), ("resize", "d1 = dict((x, y) for x, y in d1.items())\nlog += r(bool(d1))"),
]
MAP_OPS = [o for o in MAP_OPS if o[0] != "dropodd"] + [("dropodd", "for i in range(1, 130, 2):\n    if k(i) in d1:\n        log += r(d1.pop(k(i)))")]
SET_OPS = [
    ("add1", "s.add(k(1))"), ("add2", "s.add(k(2))"), ("add3", "s.add(k(3))"), ("fill", "for i in range(9):\n    s.add(k(i))"), ("fill100", "s.update([k(i) for i in range(100, 130, 3)])"),
    ("remove1", "s.remove(k(1))"), ("discard2", "s.discard(k(2))"), ("discard3", "s.discard(k(3))"), ("dropeven", "for i in range(0, 130, 2):\n    s.discard(k(i))"), ("dropodd", "for i in range(1, 130, 2):\n    if k(i) in s:\n        s.remove(k(i))"),
    ("in", "log += r(k(1) in s) + r(k(2) in s) + ' '"), ("clear", "s.clear()"), ("copy", "t = s.copy()"), ("alias", "t = s"), ("swap", "s, t = t, s"), ("settuple", "t = {k(2), k(3), k(5), k(7)}"),
    ("or", "s = s | t"), ("and", "s = s & t"), ("sub", "s = s - t"), ("xor", "s = s ^ t"), ("ior", "s |= t"), ("iand", "s &= t"), ("isub", "s -= t"), ("ixor", "s ^= t"),
    ("cmp", "log += r(s < t) + r(s <= t) + r(s == t) + r(s != t) + r(s >= t) + r(s > t) + ' '"), ("rel", "log += r(s.isdisjoint(t)) + r(s.issubset(t)) + r(s.issuperset(t)) + ' '"),
    ("union", "s = s.union(t)"), ("inter", "s = s.intersection(t)"), ("diff", "s = s.difference(t)"), ("sdiff", "s = s.symmetric_difference(t)"),
    ("interu", "s.intersection_update(t)"), ("diffu", "s.difference_update(t)"), ("sdiffu", "s.symmetric_difference_update(t)"), ("updateset", "s.update(t)"),
    ("pop", "if len(s) == 0:\n    raise KeyError('empty')\nx = s.pop()\nlog += r(x in s) + r(len(s))\ns.add(x)"), ("comp", "s = {x for x in s if x != k(2)}\nlog += r(bool(s))"),
]
DEQUE_OPS = [
    ("append", "a.append(v)"), ("appendleft", "a.appendleft(v)"), ("pop", "log += r(a.pop())"), ("popleft", "log += r(a.popleft())"), ("append5", "for i in range(5):\n    a.append(v + i)"), ("left7", "for i in range(7):\n    a.appendleft(v - i)"),
    ("popleft3", "for i in range(3):\n    log += r(a.popleft())"), ("pop3", "for i in range(3):\n    log += r(a.pop())"), ("clear", "a.clear()"), ("copy", "b = a.copy()"), ("swap", "a, b = b, a"), ("alias", "b = a"),
    ("get", "log += r(a[0]) + r(a[-1]) + r(a[1]) + r(a[-2])"), ("in", "log += r(5 in a) + r(0 in a)"), ("bool", "log += r(bool(a)) + r(len(a))"), ("rotate", "a.append(a.popleft())"),
]
COUNTER_OPS = [
    ("up", "c.update('abca')"), ("upc", "c.update(e)"), ("sub", "c.subtract('aab')"), ("subc", "c.subtract(e)"), ("set", "c['b'] = 4"), ("inc", "c['a'] += 1"), ("dec", "c['c'] -= 2"), ("del", "del c['a']"), ("get", "log += r(c['a']) + r(c['zz'])"),
    ("add", "c = c + e"), ("minus", "c = c - e"), ("and", "c = c & e"), ("or", "c = c | e"), ("iadd", "c += e"), ("isub", "c -= e"), ("iand", "c &= e"), ("ior", "c |= e"), ("pos", "c = +c"), ("neg", "c = -c"), ("swap", "c, e = e, c"), ("copy", "e = c.copy()"),
    ("eq", "log += r(c == e) + r(c != e)"), ("total", "log += r(c.total()) + r(sorted(c.elements()))"), ("most", "log += r([y for x, y in c.most_common()]) + r([y for x, y in c.most_common(2)]) + r([y for x, y in c.most_common(1)]) + r(c.most_common(0))"), ("clear", "c.clear()"),
]
DEFAULT_OPS = [
    ("inc1", "d[1] += 1"), ("inc2", "d[2] += v"), ("get", "log += r(d[3])"), ("probe", "log += r(3 in d) + r(d.get(4, -1)) + r(4 in d)"), ("set", "d[5] = v"), ("del", "if 1 in d:\n    del d[1]"), ("copy", "e = d.copy()\ne[7] += 1"), ("swap", "d, e = e, d"), ("eq", "log += r(d == e)"),
    ("list", "l[v % 3].append(v)"), ("listget", "log += r(len(l[2])) + r(1 in l)"), ("nest", "m[v % 2][d[2]] += 1"), ("pop", "log += r(d.pop(2))"), ("setdefault", "log += r(d.setdefault(3, 9))"), ("update", "d.update({1: 5, 9: 2})"), ("clear", "d.clear()"),
]


def families():
    srt = "log += r(sorted(d1.items())) + r(len(d1)) + ';'"
    for kn, kf, kt in (("int", "return i", "int"), ("str", "return 'k' + str(i)", "str"), ("hash", "return K(i)", "K"), ("tuple", "return (i % 3, str(i))", "Tuple[int, str]"), ("float", "return i + 0.5", "float")):
        setup = f"def k(i: int):\n    {kf}\nd1 = {{k(2): 0}}\nd2 = {{k(1): 7}}\nv = 0"
        yield f"dict_{kn}", setup, MAP_OPS, srt + "\n        v += 1", 2 if kn == "int" else 0
        setup = f"def k(i: int):\n    {kf}\ns = {{k(2)}}\nt = {{k(1), k(2)}}"
        yield f"set_{kn}", setup, SET_OPS, "log += r(sorted(s)) + r(len(s)) + r(len(t)) + ';'", 2 if kn == "int" else 0
    yield "list_int", "a = [3]\nb = [1, 5]\nv = 0", LIST_OPS, "log += r(a) + r(len(b)) + ';'\n        v += 1\n        if len(a) > 60:\n            a = a[:5]", 1
    yield "list_str", "a = ['x0']", STR_LIST_OPS, "log += '|'.join(a) + ';'\n        if len(a) > 60:\n            a = a[:5]", 2
    dq = "log += r([x for x in a]) + r(len(a)) + r(len(b)) + ';'\n        v += 1"
    yield "deque", "a = deque([1, 2])\nb = deque([5])\nv = 0", DEQUE_OPS, dq, 3
    for m in (0, 1, 2, 3, 4, 7, 8, 15, 16):
        yield f"deque_max{m}", f"a = deque(maxlen={m}) if len(seq) > 99 else deque[int](maxlen={m})\nb = a.copy()\nv = 0", DEQUE_OPS, dq, 0
    yield "counter", "c = Counter('abb')\ne = Counter('bc')", COUNTER_OPS, "log += r(sorted(c.items())) + ';'", 2
    yield "defaultdict", "d = defaultdict(int)\ne = defaultdict(int)\nl = defaultdict(list)\nm = defaultdict(lambda: defaultdict(int))\nv = 0\nl[0].append(4)\nm[0][0] = 1", DEFAULT_OPS, "log += r(sorted(d.items())) + r(sorted(l.items())) + r(len(m)) + ';'\n        v += 1", 2


def cases(show=None):
    for name, setup, ops, render, depth in families():
        py_setup = setup
        n = {0: pick(2, 3), 1: pick(2, 3), 2: pick(3, 3), 3: pick(4, 5)}[depth]
        src = interp(name, setup, ops, render, "")
        for i in range(len(ops)):
            yield name, src, Case(f"{name}:{ops[i][0]}", "", f"run_{name}({i}, {n}, False)"), n, i


def main():
    chk = Check("C10", "model_checking")
    build("mc", "codonrt")
    only = os.environ.get("FAMILY")
    fams = {}
    for name, src, c, n, i in cases():
        if only and not re.fullmatch(only, name):
            continue
        fams.setdefault(name, (src, [], n))[1].append((i, c))
        chk.sample(c.key)
    jobs, info = [], {}
    for name, (src, cs, n) in fams.items():
        k = 8 if n > 2 else pick(1, 4)
        step = (len(cs) + k - 1) // k
        for j in range(0, len(cs), step):
            part = [c for _, c in cs[j:j + step]]
            part[0].defs = src
            jobs.append((name, part))
        for i, c in cs:
            info[c.key] = (name, i, n)

    differ = {}

    # one program per part: the families' definitions come with the first case
    progs = [(f"{name}.{j}", program(part, PRE)) for j, (name, part) in enumerate(jobs)]
    for mode in ("d", "r") if THOROUGH else ("d",):
        refs, res = run_pair(chk, progs, mode)
        for (label, src), ref, (st, out) in zip(progs, refs, res):
            want, got = split_cases(ref), split_cases(out)
            for key in want:
                if key == "END":
                    continue
                m = re.search(r"digest -?\d+ (\d+)", want[key])
                chk.count(histories=int(m.group(1)), blocks=1)
                if got.get(key) != want[key]:
                    name, i, n = info[key]
                    differ[mode, name] = differ.get((mode, name), 0) + 1
                    if differ[mode, name] > 3:
                        chk.violation(f"{mode}:{key}", "differs as well")
                        continue
                    explain(chk, mode, key, name, fams[name][0], i, n, st, out)
    chk.space("blocks", "histories", "histories")
    chk.finish()


def py_source(s):
    return "from __future__ import annotations\nfrom typing import *\n" + s.replace("deque[int](maxlen", "deque(maxlen")


def run_pair(chk, progs, mode):
    refs = python_outputs([py_source(s) for _, s in progs], chk.tmp)
    files = []
    for label, s in progs:
        p = os.path.join(chk.tmp, f"{mode}-{label}.py")
        with open(p, "w") as f:
            f.write(s)
        files.append((p, p + ".out"))
    st = mc_run(files, mode, limit=pick(300, 2500))
    return refs, [(st[p], slurp(o)) for p, o in files]


def explain(chk, mode, key, name, src, i, n, st, out):
    """Finds the histories of a block that differ."""
    for m in range(0, n + 1):
        s = PRE + src + f"\nrun_{name}({i}, {m}, True)\n"
        refs, res = run_pair(chk, [(f"explain{m}", s)], mode)
        a, b = refs[0].split("\n"), res[0][1].split("\n")
        if res[0][0] == 0 and a == b:
            continue
        ops = next(o for nm, _, o, _, _ in families() if nm == name)
        if res[0][0] and len(b) < 3:
            chk.violation(f"{mode}:{name}:fails", f"status {res[0][0]}\n{res[0][1][-1500:]}", s)
            return
        shown = 0
        for x, (u, v) in enumerate(zip(a, b + [f"<status {res[0][0]}>"] * len(a))):
            if u != v and not u.startswith("digest"):
                digits, y = [], x
                for _ in range(m):
                    digits.append(y % len(ops))
                    y //= len(ops)
                hist = [ops[t][0] for t in [i] + digits[::-1]]
                chk.violation(f"{mode}:{name}:{','.join(hist)}", f"history {hist}\nexpected {u}\ngot      {v}", s)
                shown += 1
                if shown >= 3:
                    break
        return
    chk.violation(f"{mode}:{key}", f"status {st}\n{out[-1500:]}", None)


if __name__ == "__main__":
    main()
