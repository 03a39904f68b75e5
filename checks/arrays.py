#!/usr/bin/env python3
"""C13: programs over NumPy arrays keep NumPy's meaning, fused and forwarded or not."""
import itertools
from digests import *

HEAD = '''import numpy as np
def s(x):
    return ' '.join([f"{float(v):.10g}" for v in x])
def init(k: int, n: int):
    return (np.arange(n) * 7 + k) % 5 * 0.5
class W:
    n: int
    def __init__(self):
        self.n = 0
w = W()
def mut(x):
    w.n += 1
    x[1] = x[1] + w.n
    return x
def neg(x):
    w.n += 2
    return -x
'''
PY = "import warnings\nwarnings.simplefilter('ignore')\n"

# statements over the arrays a, b, t, u and v (v may alias) and the flag c
EXPR = [
    "t = a * 2 + b",
    "u = t - a * b + 1",
    "t = 1 - (a - b * 2)",
    "u = 2 * t + 3 * a - b",
    "v = a * b + t * u",
    "a = u + t * 3",
    "t = np.maximum(a, b) - np.abs(u) * 2",
]
EFFECT = [
    "a[0] = 7.5",
    "b += t * 2 - 1",
    "t[1:] = t[:-1] * 2 + 1",
    "v[2] = -1.0",
    "v = a",
    "a[:] = a[::-1] - t * b",
    "b = mut(a) + b * 2 - t",
    "if c:\n        a[1] = 9.0",
    "if c:\n        t = a + b * 2 - u",
    "for k in range(2):\n        t = t * 0.5 + b - a",
    "for k in range(2):\n        u = a + t * 2\n        a[k] = 3.0\n        v = u - b * 2",
    "while w.n < 2:\n        mut(b)\n        u = b * 2 + t - a",
    "try:\n        t = a * 3 - b\n        if c:\n            raise ValueError('x')\n        a[2] = 4.0\n    except ValueError:\n        u = t + b * 2",
    "v = t\n    t = t * 2 + a - b",
    "a, b = b, a",
    "u[:] = neg(t) + t * 2 - mut(t)",
]
LAST = [
    "u = t - a * b + 1",
    "u = 2 * t + 3 * a - b",
    "v = a + t * (v - u)",
    "t = (t + u) * 2 - v * a",
]


def programs():
    one = EXPR + EFFECT
    for p in itertools.product(EXPR, EFFECT, LAST):
        yield p
    if THOROUGH:
        for p in itertools.product(EXPR, one, one):
            if p[2] not in LAST:
                yield p
        for p in itertools.product(EXPR[:3], EFFECT, EFFECT, LAST[:1]):
            yield p


def program_cases():
    for i, p in enumerate(programs()):
        lines = "\n    ".join(p)
        defs = (f"def f{i}(c: bool, n: int):\n    w.n = 0\n    a = init(1, n)\n    b = init(2, n)\n    t = init(3, n)\n    u = init(4, n)\n    v = u\n    {lines}\n"
                f"    print('|'.join([s(a), s(b), s(t), s(u), s(v)]))\n")
        yield Case("; ".join(x.replace("\n        ", " ").replace("\n    ", "; ") for x in p), defs, f"f{i}(False, 4)\nf{i}(True, 4)\nf{i}(True, 5)")


# --- values enumerated at run time
PRE = "import numpy as np\n" + DIGEST + '''
def fl(x) -> str:
    return f"{float(x):.10g}"
def s1(x):
    return ' '.join([fl(v) for v in x])
def s2(x):
    return '/'.join([s1(v) for v in x])
def sl(m: int):
    out = []
    for i in range(-m - 1, m + 2):
        for j in range(-m - 1, m + 2):
            out.append((i, j))
    return out
def s3(x):
    return '#'.join([s2(v) for v in x])
'''
PYH = PYHEAD + PY


def gen(names_exprs, name, args, setup):
    """A function that tries every expression; its text is part of the observation."""
    s=f"def {name}(dg: Dg, {args}):\n"
    s+="\n".join("    "+l for l in setup[0].split("\n"))+"\n"
    for e,kind in names_exprs:
        f={"s":"fl","1":"s1","2":"s2","3":"s3","r":"r","n":"s1","N":"s2"}[kind]
        s+="\n".join(setup[1]+l for l in f"try:\n    dg.add(w + {e!r} + '=' + {f}({e}))\nexcept:\n    dg.add(w + {e!r} + ' error')".split("\n"))+"\n"
    return s


def slices():
    src = '''
def overlap(dg: Dg, n: int, k: int, l: int):
    for i in range(n + 1):
        for j in range(n + 1):
            for p in range(n + 1):
                for q in range(n + 1):
                    if k < 0 and j == n or l < 0 and q == n:
                        continue
                    a = np.arange(n) + 10
                    w = ' '.join([r(n), r(i), r(j), r(k), r(p), r(q), r(l)])
                    try:
                        a[i:j:k] = a[p:q:l]
                        dg.add(w + '=' + s1(a))
                    except ValueError:
                        dg.add(w + ' ValueError')
def overlap_add(dg: Dg, n: int, k: int, l: int):
    for i in range(n + 1):
        for j in range(n + 1):
            for p in range(n + 1):
                for q in range(n + 1):
                    a = np.arange(n) + 10
                    w = ' '.join([r(n), r(i), r(j), r(k), r(p), r(q), r(l)])
                    try:
                        a[i:j:k] += a[p:q:l]
                        dg.add(w + '=' + s1(a))
                    except ValueError:
                        dg.add(w + ' ValueError')
def view(dg: Dg, n: int, k: int, l: int):
    for i, j in sl(n):
        for p, q in sl(2):
            a = np.arange(n) + 10
            w = ' '.join([r(n), r(i), r(j), r(k), r(p), r(q), r(l)])
            b = a[i:j:k]
            c = b[p:q:l]
            dg.add(w + '=' + s1(b) + ';' + s1(c) + ' ' + r(c.size) )
            c[:] = 5
            b += 1
            dg.add(w + '=' + s1(a))
'''
    blocks=[]
    for k in (1,2,-1,-2):
        for l in (1,2,-1,-2):
            for n in pick((3, 4), (1, 2, 3, 4, 5, 6)):
                for f in ("overlap","overlap_add","view"):
                    blocks.append((f"{f} {n} {k} {l}", f"{f}({{dg}}, {n}, {k}, {l})"))
    yield "slices", src, blocks
    src = '''
def masks(dg: Dg, n: int):
    for m in range(1 << n):
        a = np.arange(n) * 3 + 1
        b = np.zeros(n, dtype=bool) if False else (np.arange(n) < 0)
        for i in range(n):
            b[i] = bool((m >> i) & 1)
        w = r(n) + ' ' + r(m) + ' '
        dg.add(w + s1(a[b]) + ';' + s1(np.where(b, a, -a)) + ';' + r(int(b.sum())) + ';' + r(int(np.count_nonzero(b))))
        dg.add(w + r(bool(b.any())) + r(bool(b.all())) + s1(~b))
        a[b] = -1
        dg.add(w + s1(a))
        a[b] += 5
        dg.add(w + s1(a))
        try:
            a[b] = np.arange(2)
            dg.add(w + s1(a))
        except ValueError:
            dg.add(w + 'ValueError')
def ints(dg: Dg, n: int):
    for i in range(-n - 1, n + 1):
        for j in range(-n - 1, n + 1):
            for k in range(-n, n):
                w = ' '.join([r(n), r(i), r(j), r(k)]) + ' '
                a = np.arange(n) * 3 + 1
                x = np.array([i, j, k])
                try:
                    dg.add(w + s1(a[x]))
                    a[x] = np.array([7, 8, 9])
                    dg.add(w + s1(a))
                    a[x] += 1
                    dg.add(w + s1(a))
                except IndexError:
                    dg.add(w + 'IndexError')
'''
    yield "fancy", src, [(f"{f} {n}", f"{f}({{dg}}, {n})") for f in ("masks","ints") for n in (1,2,3,4)]
    src = '''
def red2(dg: Dg, n: int, m: int):
    for k in range(3):
        a0 = (np.arange(n * m) * 7 + k) % 5
        for t in range(4):
            a = a0.reshape(n, m)
            if t == 1:
                a = a.T
            elif t == 2:
                a = a[::-1, ::-1]
            elif t == 3:
                a = a.T[::-1]
            w = ' '.join([r(n), r(m), r(k), r(t)]) + ' '
            dg.add(w + s2(a) + ';' + s2(a.T) + ';' + s1(a.flatten()) + ';' + s1(a.ravel()))
            dg.add(w + fl(a.sum()) + ' ' + fl(a.max()) + ' ' + fl(a.min()) + ' ' + fl(a.mean()) + ' ' + fl(a.prod()) + ' ' + r(int(a.argmax())) + ' ' + r(int(a.argmin())))
            dg.add(w + s1(a.sum(axis=0)) + ';' + s1(a.sum(axis=1)) + ';' + s1(a.sum(axis=-1)))
            dg.add(w + s1(a.max(axis=0)) + ';' + s1(a.min(axis=1)) + ';' + s1(a.mean(axis=0)) + ';' + s1(a.prod(axis=1)))
            dg.add(w + s1(a.argmax(axis=0)) + ';' + s1(a.argmin(axis=1)))
            dg.add(w + s1(a.cumsum()) + ';' + s2(a.cumsum(axis=0)) + ';' + s2(a.cumsum(axis=1)) + ';' + s2(np.cumprod(a, axis=1)))
            dg.add(w + s2(np.sort(a, axis=0)) + ';' + s2(np.sort(a, axis=1)) + ';' + s1(np.sort(a, axis=None)))
            dg.add(w + s2(np.argsort(a, axis=0, kind='stable')) + ';' + s2(np.argsort(a, axis=1, kind='stable')))
            dg.add(w + s2(np.concatenate((a, a), axis=0)) + ';' + s2(np.concatenate((a, a), axis=1)))
            dg.add(w + s2(np.roll(a, 1, axis=0)) + ';' + s2(np.roll(a, -2, axis=1)) + ';' + s2(np.roll(a, 3)))
            dg.add(w + s2(np.flip(a)) + ';' + s2(np.flip(a, axis=0)) + ';' + s2(np.flip(a, axis=1)) + ';' + s2(np.rot90(a)))
            dg.add(w + s2(np.diff(a, axis=0)) + ';' + s2(np.diff(a)) + ';' + s2(np.repeat(a, 2, axis=0)) + ';' + s1(np.repeat(a, 2)))
            dg.add(w + s2(np.tile(a, 2)) + ';' + s2(np.tile(a, (2, 1))))
            dg.add(w + s1(np.diagonal(a)) + ';' + fl(np.trace(a)) + ';' + s2(np.tril(a)) + ';' + s2(np.triu(a, 1)))
            dg.add(w + fl(np.std(a)) + ' ' + s1(np.var(a, axis=0)) + ' ' + fl(np.median(a)) + ' ' + s1(np.ptp(a, axis=1)))
            dg.add(w + s1(np.unique(a)) + ';' + s1(np.nonzero(a)[0]) + ';' + s1(np.nonzero(a)[1]))
            dg.add(w + s1(np.any(a, axis=0)) + ';' + s1(np.all(a, axis=1)) + ';' + s2(np.clip(a, 1, 3)))
'''
    yield "two", src, [(f"red2 {n} {m}", f"red2({{dg}}, {n}, {m})") for n in (1,2,3) for m in (1,2,3)]
    src = '''
def bc(dg: Dg, n: int, m: int):
    for p in range(1, 4):
        for q in range(1, 4):
            a = np.arange(n * m).reshape(n, m) + 1
            b = np.arange(p * q).reshape(p, q) * 10
            c = np.arange(q) * 100
            w = ' '.join([r(n), r(m), r(p), r(q)]) + ' '
            try:
                dg.add(w + s2(a + b) + ';' + s2(b - a) + ';' + s2(a * b + a))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(a + c))
                dg.add(w + s2(c - a * 2 + c))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                a += b
                dg.add(w + s2(a))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                a[:] = c
                dg.add(w + s2(a))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                a[:, 0] = c
                dg.add(w + s2(a))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(np.maximum(a, b)) + ';' + s2(np.where(a > b, a, b)))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(a @ b))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s1(a @ c))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(np.vstack((a, b))))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(np.hstack((a, b))))
            except ValueError:
                dg.add(w + 'ValueError')
            try:
                dg.add(w + s2(a.reshape(p, q)) + s2(a.T.reshape(p, q)) + s2(a.T.reshape(p, -1)))
            except ValueError:
                dg.add(w + 'ValueError')
'''
    yield "broadcast", src, [(f"bc {n} {m}", f"bc({{dg}}, {n}, {m})") for n in (1,2,3) for m in (1,2,3)]


def vectors():
    e3=[]
    for op in ("sum","max","min","prod","mean","any","all","std"):
        for ax in ("0","1","2","-1"):
            e3.append((f"a.{op}(axis={ax})","2"))
            e3.append((f"a.{op}(axis={ax}, keepdims=True)","3"))
        for ax in ("(0, 1)","(1, 2)","(0, 2)","(2, 0)"):
            e3.append((f"a.{op}(axis={ax})","1"))
        e3.append((f"a.{op}()","s"))
    for op in ("argmax","argmin"):
        for ax in ("0","1","2","-1"):
            e3.append((f"a.{op}(axis={ax})","2"))
        e3.append((f"a.{op}()","s"))
    for ax in (0,1,2):
        e3+= [(f"np.cumsum(a, axis={ax})","3"),(f"np.sort(a, axis={ax})","3"),(f"np.argsort(a, axis={ax}, kind='stable')","3"),(f"np.flip(a, axis={ax})","3"),(f"np.roll(a, 1, axis={ax})","3"),(f"np.diff(a, axis={ax})","3"),(f"np.median(a, axis={ax})","2"),(f"np.moveaxis(a, {ax}, 0)","3"),(f"np.swapaxes(a, {ax}, 1)","3"),(f"np.repeat(a, 2, axis={ax})","3"),(f"np.concatenate((a, a[::-1]), axis={ax})","3"),(f"np.sum(a, axis={ax}, where=a > 1)","2"),(f"np.max(a, axis={ax}, where=a < 3, initial=-1)","2")]
    e3+=[("np.ravel(a)","1"),("a.flatten()","1"),("a.flatten('F')","1"),("a.reshape(-1)","1"),("a.T","3"),("np.sum(a, where=a > 1)","s"),("a[:, 0]","2"),("a[0]","2"),("a[..., 0]","2"),("a[:, ::-1]","3"),("a[:, :, None][:, :, 0]","3"),("a[a > 1]","1"),("a + a[0]","3"),("a * a[:, :1]","3"),("np.einsum('i,i', a[0, 0], a[0, 0])" ,"s")][:-1]
    for i in range(0,len(e3),40):
        yield f"three{i}", gen(e3[i:i+40], f"three{i}", "n: int, m: int, l: int", ("for t in range(5):\n    a = (np.arange(n * m * l) * 7 % 5).reshape(n, m, l)\n    if t == 1:\n        a = a.T\n    elif t == 2:\n        a = a[::-1, :, ::-1]\n    elif t == 3:\n        a = np.swapaxes(a, 0, 1)\n    elif t == 4:\n        a = np.swapaxes(a, 1, 2)[:, ::-1]\n    w = ' '.join([r(n), r(m), r(l), r(t)]) + ' '", "        "[:8])), [(f"three{i} {n} {m} {l}", f"three{i}({{dg}}, {n}, {m}, {l})") for n in (1,2) for m in (1,2,3) for l in (1,2)]
    e1=[]
    for e in ("np.sort(a)","np.argsort(a, kind='stable')","np.unique(a)","np.searchsorted(np.sort(a), b)","np.searchsorted(np.sort(a), b, side='right')","np.cumsum(a)","np.cumprod(a)","np.diff(a)","np.ediff1d(a)","np.union1d(a, b)","np.intersect1d(a, b)","np.setdiff1d(a, b)","np.setxor1d(a, b)","np.isin(a, b)","np.bincount(a)","np.convolve(a, b)","np.convolve(a, b, 'same')","np.convolve(a, b, 'valid')","np.correlate(a, b)","np.correlate(a, b, 'full')","np.append(a, b)","np.insert(a, 1, 9)","np.delete(a, 0)","np.delete(a, -1)","np.trim_zeros(a)","np.flatnonzero(a)","np.pad(a, 1)","np.pad(a, (0, 2), mode='edge')","np.take(a, b % 4)","np.outer(a, b).ravel()","np.kron(a, b)","np.clip(a, 1, 2)","np.digitize(a, np.array([1, 2]))","np.interp(b * 0.5, np.arange(4), a)","np.gradient(a * 1.0)","np.partition(a, 2)[2:3]","np.select([a > 2, a > 1], [a, -a], 7)","np.where(a > b, a, b)","np.extract(a > 1, b)","np.compress(a > 1, b)","np.roll(a, 1)","np.roll(a, -5)","np.flip(a)","np.repeat(a, 2)","np.tile(a, 2)","np.resize(a, 6)","np.fmax(a, b)","a // (b + 1)","a % (b + 1)","-a // (b + 1)","-a % (b + 1)","a ** b","a << b","a >> b","a & b","a | b","a ^ b","~a","a == b","a < b","np.minimum(a, b)","np.gcd(a, b)","np.lcm(a, b)","np.sign(a - b)","np.abs(a - b)","np.add.accumulate(a)","np.multiply.accumulate(a)","np.maximum.accumulate(a)","np.vstack((a, b)).ravel()","np.column_stack((a, b)).ravel()","np.dstack((a, b)).ravel()","np.stack((a, b), axis=1).ravel()","np.logical_and(a, b)","np.logical_xor(a > 1, b > 1)","np.array_split(a, 3)[1]","np.split(a, 2)[1]","np.hstack((a, b))","np.histogram(a, bins=3)[0]","np.quantile(a, np.array([0.25, 0.5]))","np.percentile(a, np.array([10, 90]))","a.astype(float) / (b + 1)","np.rint(a / 2)","np.floor(a / 3)","np.ceil(a / 3)","np.trunc(-a / 3)","np.fmod(-a, b + 1)","np.copysign(a, b - 2)","np.hypot(a, b)","np.arctan2(a, b)","np.exp(a)","np.sqrt(a)","np.power(a * 1.0, b)",):
        e1.append((e,"1"))
    for e in ("np.dot(a, b)","np.vdot(a, b)","np.inner(a, b)","a.sum()","a.mean()","a.var()","np.median(a)","np.average(a, weights=b + 1)","np.array_equal(a, b)","np.argmax(a)","np.argmin(a)","np.ptp(a)","np.count_nonzero(a)","np.quantile(a, 0.3)","np.percentile(a, 70)","np.any(a)","np.all(a)","np.add.reduce(a)","np.maximum.reduce(a)"):
        e1.append((e,"s"))
    for i in range(0,len(e1),45):
        yield f"vec{i}", gen(e1[i:i+45], f"vec{i}", "n: int", ("for x in range(4 ** n):\n    a = np.array([x // 4 ** j % 4 for j in range(n)])\n    b = np.array([(x * 7 + 3) // 4 ** j % 4 for j in range(n)])\n    w = r(n) + ' ' + r(x) + ' '","        ")), [(f"vec{i} {n}", f"vec{i}({{dg}}, {n})") for n in (1,2,3,4)]


ST = ["np.add(a, b, out=c[::2])","np.add(c[:n], 1, out=c[1:n + 1])","np.negative(c, out=c[::-1])","np.multiply(c[::-1], 2, out=c)","np.add(a, b, out=a)","np.add(a, b, out=c[1:n + 1], where=a > 1)",
"np.sqrt(c[:n] * 1.0, out=d)","np.cumsum(a, out=c[:n])","np.cumsum(a, out=c[::-2])","np.copyto(c[1:], c[:-1])","np.copyto(c[::2], a)","np.copyto(c, 5, where=c > 2)","np.put(c, [0, -1, 1], [7, 8])","np.putmask(c, c > 2, [1, 2, 3])","np.place(c, c > 1, [7, 8])","c[::2].sort()","c[::-1].sort()","c[1:].fill(3)","np.add.at(c, [0, 0, 1], 2)","np.subtract.at(c, [1, -1, 1], [1, 2, 3])","c[[0, 0, 1]] += 1","c[::2] *= b","c[1:] -= c[:-1]","c[:-1] += c[1:]","c[::-1] += c","c[::2] = a","c[::2][::-1] = a","c[c > 1] = c[c > 1][::-1] * 2","c[b] = c[:n] + 10","c[b] = c[1:n + 1]","c[[1, 0]] = c[:2]","c[::2], c[1::2] = c[1::2] + c[:1], c[::2]","c //= 2","c %= 3","c **= 2","c <<= 1","c ^= 5","c |= c[::-1]","c[-1:] = 4","c[n:] = c[:n]", "c[:] = c[::-1]", "d[:] = a", "d[::-1] = d", "d += a", "d[:] = d * 2 - d[::-1]", "d *= d[::-1]", "c.sort(); c[:n] -= a", "a[:] = b; a[0] = 9", "x = c[1:]; x[0] = 50; x += x[0]", "x = c.reshape(2, n)[:, 0]; x[:] = 8","x = c.reshape(2, n).T; x[0] = x[n - 1] + 1", "x = c.reshape(2, n); x += x[0]", "x = c.reshape(2, n); x[:, 0] = x[1, 0]; x[0] += x[:, 0].sum()", "x = c.reshape(n, 2); x[:, 0] -= x[:, 1]", "x = c.reshape(n, 2); x[:, ::-1] = x", "x = c.reshape(n, 2); np.add(x, x[::-1], out=x)", "x = c.reshape(n, 2); x.sum(axis=1, out=a)", "x = c.reshape(n, 2); x.sum(axis=0, out=x[0])", "x = c.reshape(n, 2); x.max(axis=1, out=c[::2])", "x = c.reshape(n, 2); x.sort(axis=0)", "x = c.reshape(n, 2); x.T.sort(axis=0)", "x = c.reshape(n, 2); np.fill_diagonal(x, 77)", "x = c.reshape(n, 2); np.fill_diagonal(x.T, 77)", "x = c.reshape(n, 2); x[x > 2] = 0", "x = c.reshape(n, 2); x.T[x.T > 2] += 10", "x = c.reshape(n, 2); x[-1] = x[0, ::-1]", "x = c.reshape(n, 2); x[:, [1, 0]] = x", "x = c.reshape(n, 2); x[[0, -1]] = x[[-1, 0]]", "x = c.reshape(n, 2); np.cumsum(x, axis=0, out=x)","x = c.reshape(n, 2); np.cumsum(x, axis=1, out=x[::-1])", "x = c.reshape(n, 2); x.mean(axis=0, out=d[:2])", "x = c.reshape(n, 2); x.argmax(axis=1, out=a)", "x = c.reshape(n, 2); np.take(x, [0, 0], axis=1, out=x)", "x = c.reshape(n, 2); np.clip(x, 1, 2, out=x.reshape(n, 2)[::-1])", "x = c.reshape(n, 2); np.matmul(x.T, x, out=c[:4].reshape(2, 2))"]


def outputs():
    for i in range(0,len(ST),25):
        src=f"def out{i}(dg: Dg, n: int):\n    for z in range(3 ** n):\n        w = r(n) + ' ' + r(z) + ' '\n"
        for e in ST[i:i+25]:
            b="a = np.array([z // 3 ** j % 3 for j in range(n)])\nb = np.array([(z * 7 + 3) // 3 ** j % n for j in range(n)])\nc = (np.arange(2 * n) * 5 + z) % 7\nd = np.arange(n) * 1.5 + z % 5\n"
            b+="try:\n"+"\n".join("    "+l.strip() for l in e.split(";"))+f"\nexcept:\n    dg.add(w + 'error')\ndg.add(w + {e!r} + '=' + s1(a) + '/' + s1(b) + '/' + s1(c) + '/' + s1(d))"
            src+="\n".join("        "+l for l in b.split("\n"))+"\n"
        yield f"out{i}", src, [(f"out{i} {n}", f"out{i}({{dg}}, {n})") for n in (2,3,4)]


def main():
    chk = Check("C13", "model_checking")
    build("mc", "codonrt")
    pc = list(program_cases())
    limit = int(os.environ.get("LIMIT", "0"))
    if limit:
        pc = pc[:: max(1, len(pc) // limit)]
    chk.sample(pc[0].key)
    run_batches(chk, pc, modes=pick(("t",), ("t", "r")), batch=max(8, len(pc) // 8 + 1) if not THOROUGH else 60, prelude=HEAD, py_prelude=PY + HEAD, py="python3-vt", limit=pick(500, 1500), label="p")
    fams = list(slices()) + list(vectors()) + list(outputs())
    run_blocks(chk, fams, modes=pick(("t",), ("t", "d")), parts=1, prelude=PRE, py_head=PYH, py="python3-vt", limit=pick(600, 1500), label="v")
    chk.space("cases blocks", "observed_lines observations", "cases_compared")
    chk.finish()


if __name__ == "__main__":
    main()
