#!/usr/bin/env python3
"""C27: every sorting, selection and searching routine on every short sequence and on every long
sequence made of runs, against the definition (a permutation, in order, stable where promised)."""
import re
from mclib import *

# Elements are key * 1000000 + position, so a result can be judged by its definition.
PRE = '''
K = 1000000
def key(x: int) -> int:
    return x // K
def fkey(x: int) -> float:
    return -(x // K) / 4.0
def skey(x: int) -> str:
    return "abcdefghij"[:3 + (x // K) % 3] + str(x // K % 10)
def tkey(x: int):
    return (x // K % 2, x // K)
class Stats:
    n: int
    bad: int
    def __init__(self):
        self.n = 0
        self.bad = 0
S = Stats()
def bad(what: str, a: List[int], got: List[int]):
    S.bad += 1
    if S.bad < 4:
        print("WRONG", what, a, "->", got)
def judge(what: str, a: List[int], got: List[int], k, stable: bool, rev: bool):
    # a[i] ends in i: got must contain every position once, keys in order, positions in order within a key
    S.n += 1
    n = len(a)
    if len(got) != n:
        return bad(what, a, got)
    seen = [0] * n
    for x in got:
        p = x % K
        if p >= n or a[p] != x or seen[p]:
            return bad(what, a, got)
        seen[p] = 1
    for i in range(1, n):
        u, v = k(got[i - 1]), k(got[i])
        if (u < v if rev else v < u) or (stable and u == v and got[i - 1] % K > got[i] % K):
            return bad(what, a, got)
def done():
    print("ok" if S.bad == 0 else "bad", S.n)
    S.n = 0
    S.bad = 0
def short(n: int, k: int):
    # every sequence of length n over k keys
    for c in range(k ** n):
        a = []
        for i in range(n):
            a.append(c % k * K + i)
            c //= k
        yield a
def perms(n: int):
    p = list(range(n))
    while True:
        yield [p[i] * K + i for i in range(n)]
        i = n - 2
        while i >= 0 and p[i] > p[i + 1]:
            i -= 1
        if i < 0:
            break
        j = n - 1
        while p[j] < p[i]:
            j -= 1
        p[i], p[j] = p[j], p[i]
        lo = i + 1
        hi = n - 1
        while lo < hi:
            p[lo], p[hi] = p[hi], p[lo]
            lo += 1
            hi -= 1
def run(kind: int, n: int, base: int, step: int):
    # 0 rising, 1 falling, 2 constant, 3 rising in pairs, 4 sawtooth
    r = []
    for i in range(n):
        if kind == 0:
            r.append(base + i * step)
        elif kind == 1:
            r.append(base + (n - i) * step)
        elif kind == 2:
            r.append(base)
        elif kind == 3:
            r.append(base + i // 2 * step)
        else:
            r.append(base + i % 5 * step)
    return r
def mark(v: List[int]):
    return [v[i] * K + i for i in range(len(v))]
def runs2(lens: List[int]):
    for n in lens:
        for m in lens:
            for k1 in range(5):
                for k2 in range(5):
                    for base, s1, s2 in ((0, 1, 1), (3, 2, 2), (n // 2, 2, 1), (n + 9, 1, 1), (n, 1, 3)):
                        yield mark(run(k1, n, base, s1) + run(k2, m, 5, s2))
def runs3(lens: List[int]):
    for n in lens:
        for m in lens:
            for l in lens:
                for ks in range(27):
                    for base in (0, 7, 1000):
                        yield mark(run(ks % 3, n, base, 1) + run(ks // 3 % 3, m, 11, 2) + run(ks // 9, l, 3, 1))
def strides(lens: List[int]):
    # i -> i * s mod n (n prime: every permutation of this family), and with few distinct keys
    for n in lens:
        for s in range(1, n, max(1, n // 40)):
            yield mark([i * s % n for i in range(n)])
            yield mark([i * s % n // 7 for i in range(n)])
            yield mark([i * i * s % n for i in range(n)])
def nearly(lens: List[int]):
    # sorted but for one element, at every place and value; and one swap
    for n in lens:
        for i in range(n):
            for j in range(0, n + 1, max(1, n // 12)):
                v = list(range(0, 2 * n, 2))
                v[i] = 2 * j - 1 + 2
                yield mark(v)
        for i in range(n):
            for j in range(i):
                if (i + j) % max(1, n // 16) == 0:
                    v = list(range(n))
                    v[i], v[j] = v[j], v[i]
                    yield mark(v)
'''

LISTS = ["short(n, 3) for n in range({a})", "short(n, 5) for n in range({b})", "perms(n) for n in range(1, {c})"]


def spaces():
    yield "short3", f"for n in range({pick(9, 11)}):\n    for a in short(n, 3):\n        "
    yield "short5", f"for n in range({pick(6, 8)}):\n    for a in short(n, 5):\n        "
    yield "binary", f"for n in range({pick(14, 18)}):\n    for a in short(n, 2):\n        "
    yield "perms", f"for n in range(1, {pick(8, 10)}):\n    for a in perms(n):\n        "
    yield "runs2", f"for w in (0,):\n    for a in runs2({pick('[1, 2, 7, 15, 31, 33, 64, 100]', '[1, 2, 3, 7, 12, 15, 16, 31, 32, 33, 63, 64, 65, 100, 128, 200, 257, 500]')}):\n        "
    yield "runs3", f"for w in (0,):\n    for a in runs3({pick('[1, 20, 33, 70]', '[1, 5, 20, 33, 64, 70, 129, 300]')}):\n        "
    yield "strides", f"for w in (0,):\n    for a in strides({pick('[11, 23, 31, 67, 127, 131, 257, 521]', '[11, 13, 17, 19, 23, 29, 31, 37, 61, 67, 127, 131, 251, 257, 521, 1031, 4099]')}):\n        "
    yield "nearly", f"for w in (0,):\n    for a in nearly({pick('[5, 12, 23, 24, 25, 40, 64, 130]', '[4, 5, 8, 12, 16, 23, 24, 25, 32, 40, 63, 64, 65, 127, 130, 200]')}):\n        "


def cases():
    quadratic = {"insertion"}
    for sp, head in spaces():
        for alg in ("tim", "pdq", "insertion", "heap", "quick", "auto"):
            stable = alg in ("tim", "insertion", "auto")
            body = head + f"b = list(a)\n        b.sort(key=key, algorithm='{alg}')\n        judge('{alg}', a, b, key, {stable}, False)\ndone()"
            yield Case(f"list.sort:{alg}:{sp}", "", body)
        body = head + "b = list(a)\n        b.sort(key=key, reverse=True)\n        judge('reverse', a, b, key, True, True)\n        judge('sorted reverse', a, sorted(a, key=fkey, reverse=True), fkey, True, True)\ndone()"
        yield Case(f"reverse:{sp}", "", body)
        body = head + "judge('float', a, sorted(a, key=fkey), fkey, True, False)\n        judge('str', a, sorted(a, key=skey), skey, True, False)\n        judge('tuple', a, sorted(a, key=tkey), tkey, True, False)\ndone()"
        yield Case(f"keys:{sp}", "", body)
        # no key: the elements themselves, with equal ones
        body = head + """b = [key(x) for x in a]
        c = sorted(b)
        judge('plain int', a, [0] * 0 if not same(b, c) else a2(a, c), key, False, False)
        d = sorted([-x / 4.0 for x in b])
        judge('plain float', a, a2(a, [int(-x * 4.0) for x in reversed(d)]), key, False, False)
        judge('plain str', a, a2(a, [int(s[1:]) for s in sorted(['x' + str(x + 10000) for x in b])], 10000), key, False, False)
        judge('plain tuple', a, a2(a, [t[0] for t in sorted([(x, x % 3) for x in b])]), key, False, False)
        judge('plain list', a, a2(a, [t[0] for t in sorted([[x, x % 3] for x in b])]), key, False, False)
done()"""
        yield Case(f"plain:{sp}", "", body)
        body = head + """h = [0][:0]
        for x in a:
            heapq.heappush(h, key(x))
        judge('heappush', a, a2(a, [heapq.heappop(h) for _ in range(len(a))]), key, False, False)
        h = [key(x) for x in a]
        heapq.heapify(h)
        judge('heapify', a, a2(a, [heapq.heappop(h) for _ in range(len(a))]), key, False, False)
        for m in (1, 2, 3, 5):
            s = sorted(a, key=key)
            if [x for x in heapq.nsmallest(m, a, key=key)] != s[:m]:
                bad('nsmallest', a, heapq.nsmallest(m, a, key=key))
            if heapq.nlargest(m, a, key=key) != sorted(a, key=key, reverse=True)[:m]:
                bad('nlargest', a, heapq.nlargest(m, a, key=key))
            t = [key(x) for x in a]
            if heapq.nsmallest(m, t) != sorted(t)[:m] or heapq.nlargest(m, t) != sorted(t, reverse=True)[:m]:
                bad('nsmallest/nlargest', a, t)
        for cut in (len(a) // 2, 1):
            u, v = sorted(a[:cut], key=key), sorted(a[cut:], key=key)
            judge('merge', a, list(heapq.merge(u, v, key=key)), key, True, False)
        if len(a) > 1:
            t = [key(x) for x in a]
            h = t[1:]
            heapq.heapify(h)
            g = [heapq.heappushpop(h, t[0])]
            g += [heapq.heappop(h) for _ in range(len(h))]
            judge('heappushpop', a, a2(a, g), key, False, False)
            h = t[1:]
            heapq.heapify(h)
            low = h[0]
            g = [heapq.heapreplace(h, t[0])]
            if g[0] != low:
                bad('heapreplace', a, g)
            judge('heapreplace', a, a2(a, sorted(g + [heapq.heappop(h) for _ in range(len(h))])), key, False, False)
done()"""
        yield Case(f"heapq:{sp}", "", body)
        body = head + """s = sorted(a, key=key)
        t = [key(x) for x in s]
        u = t[:0]
        for x in a:
            bisect.insort(u, key(x))
        judge('insort', a, a2(a, u), key, False, False)
        u = t[:0]
        for x in a:
            bisect.insort_left(u, key(x))
        judge('insort_left', a, a2(a, u), key, False, False)
        for x in set(t) | {-1, 2, 1000}:
            l, r = bisect.bisect_left(t, x), bisect.bisect_right(t, x)
            if l != sum(1 for y in t if y < x) or r != sum(1 for y in t if y <= x):
                bad('bisect', a, [x, l, r])
            S.n += 1
done()"""
        yield Case(f"bisect:{sp}", "", body)


LPRE = '''
import heapq, bisect
def same(b: List[int], c: List[int]):
    return len(b) == len(c)
def a2(a: List[int], keys: List[int], off: int = 0) -> List[int]:
    # elements of a with the given keys, in order of position within a key
    where = Dict[int, List[int]]()
    for x in a:
        if key(x) in where:
            where[key(x)].append(x)
        else:
            where[key(x)] = [x]
    at = Dict[int, int]()
    r = List[int]()
    for k in keys:
        k -= off
        p = at.get(k, 0)
        at[k] = p + 1
        if k in where and p < len(where[k]):
            r.append(where[k][p])
        else:
            r.append(-1)
    return r
'''

NPRE = '''
import numpy as np
def vals(a: List[int]):
    return [key(x) for x in a]
def order(what: str, a: List[int], got, stable: bool):
    judge(what, a, [a[int(i)] if 0 <= int(i) < len(a) else -1 for i in got], key, stable, False)
def content(what: str, a: List[int], got):
    S.n += 1
    want = sorted(vals(a))
    if len(got) != len(want):
        return bad(what, a, [int(x) for x in got])
    for i in range(len(want)):
        if int(got[i]) != want[i]:
            return bad(what, a, [int(x) for x in got])
'''


def numpy_cases():
    kinds = ("quicksort", "mergesort", "heapsort", "stable")
    for sp, head in spaces():
        if sp == "perms":
            head = head.replace(str(pick(8, 10)), str(pick(7, 9)))
        if sp == "short3":
            head = head.replace(str(pick(9, 11)), str(pick(7, 9)))
        if sp == "binary":
            head = head.replace(str(pick(14, 18)), str(pick(11, 15)))
        for dt in ("np.int64", "np.int32", "np.uint16", "np.int8", "np.float64", "np.float32"):
            if dt == "np.int8" and sp not in ("short3", "short5", "binary", "perms"):
                continue
            body = head + f"v = np.array(vals(a), dtype={dt})\n        "
            body += "\n        ".join(
                [f"content('sort {k}', a, np.sort(v, kind='{k}'))" for k in kinds]
                + [f"order('argsort {k}', a, np.argsort(v, kind='{k}'), {k in ('mergesort', 'stable')})" for k in kinds])
            yield Case(f"numpy:{dt}:{sp}", "", body + "\ndone()")
        body = head + """v = np.array(vals(a))
        n = len(a)
        if n > 0:
            ss = np.sort(v)
            for kth in set([0, 1, n // 3, n // 2, n - 1]):
                if kth >= n:
                    continue
                S.n += 1
                p = np.partition(v, kth)
                q = np.argpartition(v, kth)
                if int(p[kth]) != int(ss[kth]) or int(v[int(q[kth])]) != int(ss[kth]):
                    bad('partition', a, [kth, int(p[kth]), int(q[kth])])
                for i in range(n):
                    if (i < kth and (p[i] > p[kth] or v[int(q[i])] > v[int(q[kth])])) or (i > kth and (p[i] < p[kth] or v[int(q[i])] < v[int(q[kth])])):
                        bad('partition order', a, [kth, i])
                        break
                content('partition content', a, np.sort(p))
            w = np.array([x % 3 for x in vals(a)])
            ix = np.lexsort((v, w))
            for i in range(1, n):
                s, t = int(ix[i - 1]), int(ix[i])
                if (int(w[s]), int(v[s]), s) >= (int(w[t]), int(v[t]), t):
                    bad('lexsort', a, [s, t])
            for x in (-1, 0, 1, 2, int(ss[n // 2]), 10000):
                l, r = np.searchsorted(ss, x), np.searchsorted(ss, x, side='right')
                if int(l) != sum(1 for y in ss if y < x) or int(r) != sum(1 for y in ss if y <= x):
                    bad('searchsorted', a, [x, int(l), int(r)])
done()"""
        yield Case(f"numpy:select:{sp}", "", body)
    # not-a-number sorts last; strided and multi-dimensional arrays sort along each axis
    body = f"for n in range({pick(8, 9)}):\n    for a in short(n, 4):\n        "
    body += """v = np.array([np.nan if key(x) == 3 else (-0.0 if key(x) == 1 else key(x) - 1.0) for x in a], dtype=float)
        nans = sum(1 for x in a if key(x) == 3)
        for r in (np.sort(v), np.sort(v, kind='mergesort'), np.sort(v, kind='heapsort'), v[np.argsort(v)], v[np.argsort(v, kind='stable')], v[np.argsort(v, kind='heapsort')]):
            S.n += 1
            m = n - nans
            if sum(1 for x in r[m:] if x != x) != nans or sum(1 for x in r[:m] if x != x) or sum(r[:m]) != sum(x for x in v if x == x):
                bad('nan', a, [0])
            for i in range(1, m):
                if r[i] < r[i - 1]:
                    bad('nan order', a, [i])
done()"""
    yield Case("numpy:nan", "", body)
    body = f"for a in short({pick(8, 9)}, 3):\n    "
    body += """m = np.array(vals(a)[:6]).reshape(2, 3)
    for k in ('quicksort', 'mergesort', 'heapsort'):
        S.n += 1
        for axis in (0, 1):
            s = np.sort(m, axis=axis, kind=k)
            g = np.argsort(m, axis=axis, kind=k)
            f = m[:, ::-1].copy()
            u = f[:, ::-1]
            u.sort(axis=axis, kind=k)
            for i in range(2):
                for j in range(3):
                    col = [int(m[x, j]) for x in range(2)] if axis == 0 else [int(m[i, x]) for x in range(3)]
                    at = i if axis == 0 else j
                    w = sorted(col)[at]
                    if int(s[i, j]) != w or col[int(g[i, j])] != w or int(u[i, j]) != w:
                        bad('axis', a, [axis, i, j])
        h = np.array(vals(a))
        h[::2].sort(kind=k)
        if [int(x) for x in h[::2]] != sorted(vals(a)[::2]) or [int(x) for x in h[1::2]] != vals(a)[1::2]:
            bad('strided', a, [int(x) for x in h])
done()"""
    yield Case("numpy:axes", "", body)


def main():
    chk = Check("C27", "model_checking")
    build("mc", "codonrt", "vecsort")
    only = os.environ.get("FAMILY")
    if only in (None, "native"):
        harness(chk, "vecsort", pick(0, 1), 8, timeout=pick(600, 3000))

    def lines(got):
        for (_, key), (st, out) in got.items():
            m = re.search(r"^(?:ok|bad) (\d+)$", out, re.M)
            chk.count(sequences=int(m.group(1)) if m else 0)

    norm = lambda s: re.sub(r"^ok [1-9]\d*$", "ok", s, flags=re.M)
    for name, cs, pre, modes in (("lists", list(cases()), PRE + LPRE, ("d", "r") if THOROUGH else ("r",)),
                                 ("numpy", list(numpy_cases()), PRE + NPRE, ("r",))):
        if only and only != name:
            continue
        for c in cs:
            c.expect = "ok"
            c.defs = "def case" + re.sub(r"\W", "_", c.key) + "():\n    " + c.body.replace("\n", "\n    ")
            c.body = "case" + re.sub(r"\W", "_", c.key) + "()"
        chk.sample(cs[0].defs)
        t0 = time.time()
        lines(run_batches(chk, cs, modes=modes, batch=3, prelude=pre, label=name, normalise=norm, limit=pick(300, 2500)))
        if os.environ.get("MC_TIME"):
            print(name, len(cs), f"{time.time() - t0:.1f}s", len(chk.violations))
    chk.space("cases native_sorts", "sequences", "native_sorts cases_compared")
    chk.finish()


if __name__ == "__main__":
    main()
