#!/usr/bin/env python3
"""C02: arithmetic of every integer type is arithmetic modulo 2^N of its width and signedness."""
from digests import *

# The reference: a class per width with wrapping operators; W/F/Q/M are identities or the plain operator in the compiled code.
PY = PYHEAD + '''
import struct
FLOOR = False
def bits(x):
    return "nan" if x != x else struct.pack(">d", x).hex()
def W(x):
    return (x + 2 ** 63) % 2 ** 64 - 2 ** 63
def F(x):
    return float(x)
def quo(x, y):
    if FLOOR:
        return x // y
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q
def Q(x, y):
    return W(quo(x, y))
def M(x, y):
    return x - y * quo(x, y)
class Base:
    def __init__(self, x):
        if isinstance(x, Base):
            x = x.v
        if isinstance(x, str):
            x = int(x)
        x = int(x) % 2 ** self.N
        if self.S and x >= 2 ** (self.N - 1):
            x -= 2 ** self.N
        self.v = x
    def of(self, x):
        return type(self)(x)
    def __add__(a, b): return a.of(a.v + b.v)
    def __sub__(a, b): return a.of(a.v - b.v)
    def __mul__(a, b): return a.of(a.v * b.v)
    def __and__(a, b): return a.of(a.v & b.v)
    def __or__(a, b): return a.of(a.v | b.v)
    def __xor__(a, b): return a.of(a.v ^ b.v)
    def __lshift__(a, b): return a.of(a.v << b.v)
    def __rshift__(a, b): return a.of(a.v >> b.v)
    def __floordiv__(a, b):
        q = abs(a.v) // abs(b.v)
        return a.of(q if (a.v < 0) == (b.v < 0) else -q)
    def __mod__(a, b): return a.of(a.v - b.v * (a // b).v)
    def __truediv__(a, b): return float(a.v) / float(b.v)
    def __divmod__(a, b): return a.of(a.v // b.v), a.of(a.v % b.v)
    def __pow__(a, b): return a.of(pow(a.v, b.v, 2 ** a.N))
    def __eq__(a, b): return a.v == b.v
    def __ne__(a, b): return a.v != b.v
    def __lt__(a, b): return a.v < b.v
    def __le__(a, b): return a.v <= b.v
    def __gt__(a, b): return a.v > b.v
    def __ge__(a, b): return a.v >= b.v
    def __hash__(a): return W(a.v)
    def __neg__(a): return a.of(-a.v)
    def __pos__(a): return a
    def __invert__(a): return a.of(~a.v)
    def __abs__(a): return a.of(abs(a.v))
    def __bool__(a): return a.v != 0
    def __int__(a): return W(a.v)
    def __float__(a): return float(a.v)
    def __str__(a): return str(a.v)
    def __repr__(a): return type(a).__name__ + "(" + str(a.v) + ")"
    def popcnt(a): return bin(a.v % 2 ** a.N).count("1")
    def bit_length(a): return a.v.bit_length()
cache = {}
def made(signed, n):
    k = (signed, n)
    if k not in cache:
        cache[k] = type(("Int" if signed else "UInt") + "[" + str(n) + "]", (Base,), dict(N=n, S=signed))
    return cache[k]
class IntMaker(type):
    def __getitem__(c, n):
        return made(c.S, n)
class Int(metaclass=IntMaker):
    S = True
class UInt(metaclass=IntMaker):
    S = False
def hsh(x): return W(x.v)
def intlen(x): return x.bit_length()
def pc(x): return bin(x % 2 ** 64).count("1")
def ipow(x, y): return W(pow(x, y, 2 ** 64)) if y >= 0 else 0
def pow_(x, y): return x ** y
'''
CODON = DIGEST + '''
def bits(x: float) -> str:
    if x != x:
        return "nan"
    b = __ptr__(x).as_byte()
    s = ""
    for i in range(7, -1, -1):
        s += hex(int(b[i]) & 255)[2:].zfill(2)
    return s
def W(x): return x
def F(x): return x
def Q(x, y): return x // y
def M(x, y): return x % y
def hsh(x): return hash(x)
def intlen(x): return x.bit_length()
def pc(x): return x.popcnt()
def ipow(x, y): return x ** y
'''
SMALL = (1, 2, 3, 4, 5, 6, 7, 8)
WIDE = (9, 13, 16, 24, 31, 32, 33, 48, 63, 64)
HUGE = (65, 96, 127, 128)

SRC = '''
def pair(dg: Dg, x, y, N: Literal[int], S: Literal[int]):
    a = str(x) + " " + str(y) + ": "
    dg.add(a + "+ " + str(x + y) + " - " + str(x - y) + " * " + str(x * y))
    dg.add(a + "& " + str(x & y) + " | " + str(x | y) + " ^ " + str(x ^ y))
    dg.add(a + "cmp " + str(x == y) + str(x != y) + str(x < y) + str(x <= y) + str(x > y) + str(x >= y))
    zero = x - x
    if y != zero and not (S == 1 and ~y == zero):
        dg.add(a + "// " + str(x // y) + " % " + str(x % y))
        q, m = divmod(x, y)
        dg.add(a + "divmod " + str(q) + " " + str(m))
    if y != zero and N < 1000:
        dg.add(a + "/ " + bits(x / y))
    if y >= zero and len(str(y)) < 4 and int(y) < N:
        dg.add(a + "<< " + str(x << y) + " >> " + str(x >> y))
    if y >= zero:
        dg.add(a + "** " + str(x ** y))
def one(dg: Dg, x):
    dg.add(str(x) + " " + repr(x) + " " + str(-x) + " " + str(+x) + " " + str(~x) + " " + str(abs(x)) + " " + str(bool(x)))
    dg.add(str(x) + " int " + str(int(x)) + " hash " + str(hsh(x)) + " popcnt " + str(x.popcnt()) + " bits " + str(x.bit_length()))
    dg.add(str(x) + " float " + bits(float(x)))
def every(dg: Dg, N: Literal[int]):
    for i in range(2 ** N):
        a, b = Int[N](i), UInt[N](i)
        one(dg, a)
        one(dg, b)
        for j in range(2 ** N):
            pair(dg, a, Int[N](j), N=N, S=1)
            pair(dg, b, UInt[N](j), N=N, S=0)
'''


def grid(n):
    """Boundary values of n bits as integers."""
    v = {0, 1, 2, 3, 5, 7, 10, 100, 2 ** n - 1, 2 ** n - 2, 2 ** n - 3, 2 ** n - 10}
    for k in (n // 4, n // 2, max(0, n - 2), n - 1):
        v |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    v |= {2 ** n // 3, 2 ** n // 5, 2 ** n - 2 ** n // 7}
    return sorted(x % 2 ** n for x in v)


def families():
    blocks = [(f"every {n}", f"every({{dg}}, N={n})") for n in (SMALL[:pick(6, 8)])]
    src = SRC
    for n in WIDE + HUGE:
        vals = sorted(set(grid(n)))
        for s, t in ((1, "Int"), (0, "UInt")):
            lst = [x - 2 ** n if s and x >= 2 ** (n - 1) else x for x in vals]
            # built from texts in Codon for widths beyond 64 bits
            items = ", ".join(f"{t}[{n}]({x})" if -2 ** 63 <= x < 2 ** 63 else f'{t}[{n}]("{x - 2 ** n if x >= 2 ** (n - 1) else x}")' for x in lst)
            src += f"def grid{t}{n}(dg: Dg):\n    v = [{items}]\n    for x in v:\n        one(dg, x)\n        for y in v:\n            pair(dg, x, y, N={n}, S={s})\n"
            blocks.append((f"grid {t}[{n}]", f"grid{t}{n}({{dg}})"))
    yield "types", src, blocks

    # conversions between every two types
    ws = pick((1, 2, 3, 8, 13, 16, 31, 32, 33, 63, 64, 65, 128), (1, 2, 3, 4, 7, 8, 9, 13, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128))
    src, blocks = "", []
    for n in ws:
        src += f"def conv{n}(dg: Dg):\n"
        vals = sorted(set(x if x < 2 ** (n - 1) else x - 2 ** n for x in grid(n)))
        vals = [x for x in vals if -2 ** 63 <= x < 2 ** 63]
        src += f"    for i in [{', '.join(map(str, vals))}]:\n        a, b = Int[{n}](i), UInt[{n}](i)\n"
        for m in ws:
            src += f"        dg.add('{n} {m} ' + str(a) + ' ' + str(Int[{m}](a)) + ' ' + str(UInt[{m}](a)) + ' ' + str(Int[{m}](b)) + ' ' + str(UInt[{m}](b)))\n"
        blocks.append((f"convert {n}", f"conv{n}({{dg}})"))
    yield "convert", src, blocks

    # the plain int, alone, with floats and with booleans
    ints = sorted({s * (2 ** k + d) for s in (1, -1) for k in (0, 1, 2, 5, 8, 15, 16, 31, 32, 33, 47, 52, 53, 54, 61, 62) for d in (-1, 0, 1)} | {0, 10, 1000, -3, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63 + 2, 3037000500})
    floats = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-2.5", "3.0", "1e10", "4503599627370496.5", "9007199254740992.0", "9007199254740994.0", "-9007199254740992.0", "9223372036854775808.0", "-9223372036854775808.0", "1e300", "-1e-300", "float('inf')", "float('-inf')", "float('nan')"]
    src = f'''
PYTHON = False
VALUES = [{", ".join(map(str, ints))}]
FLOATS = [{", ".join(floats)}]
def plain(dg: Dg, part: int):
    for i in range(part, len(VALUES), 8):
        x = VALUES[i]
        dg.add(str(x) + " " + str(W(-x)) + " " + str(~x) + " " + str(W(abs(x))) + str(bool(x)) + str(int(x)) + " " + bits(float(x)) + str(hash(x) == hash(W(x + 0))) + str(intlen(x)) + " " + str(pc(x)))
        for y in VALUES:
            a = str(x) + " " + str(y) + ": "
            dg.add(a + "+ " + str(W(x + y)) + " - " + str(W(x - y)) + " * " + str(W(x * y)) + " & " + str(x & y) + " | " + str(x | y) + " ^ " + str(x ^ y))
            dg.add(a + "cmp " + str(x == y) + str(x != y) + str(x < y) + str(x <= y) + str(x > y) + str(x >= y) + str(min(x, y)) + str(max(x, y)))
            if y != 0:
                dg.add(a + "// " + str(Q(x, y)) + " % " + str(M(x, y)) + " / " + bits(F(x) / F(y)))
                q, m = divmod(x, y)
                dg.add(a + "divmod " + str(W(q)) + " " + str(m))
            if 0 <= y < 64:
                dg.add(a + "<< " + str(W(x << y)) + " >> " + str(x >> y))
            if 0 <= y < 2000 or y > 2 ** 40:
                dg.add(a + "** " + str(ipow(x, y)))
            z = x
            z = W(z + y)
            z ^= x
            z = W(z - y)
            z |= 1
            z &= y
            dg.add(a + "aug " + str(z))
def mixed(dg: Dg, part: int):
    for i in range(part, len(VALUES), 8):
        x = VALUES[i]
        for b in (True, False):
            dg.add(str(x) + str(b) + str(W(x + int(b))) + str(W(x + b)) + str(x == int(b)) + str(x < int(b)) + str(W(x * int(b))) + str(W(x - int(b))))
        j = 0
        for y in FLOATS:
            j += 1
            a = str(x) + " float" + str(j) + " "
            dg.add(a + "+-* " + bits(F(x) + y) + " " + bits(F(x) - y) + " " + bits(F(x) * y) + " " + bits(y + F(x)) + " " + bits(y - F(x)) + " " + bits(y * F(x)))
            dg.add(a + "cmp " + str(F(x) == y) + str(F(x) != y) + str(F(x) < y) + str(F(x) <= y) + str(F(x) > y) + str(F(x) >= y) + str(y == F(x)) + str(y != F(x)) + str(y < F(x)) + str(y <= F(x)) + str(y > F(x)) + str(y >= F(x)))
            if y != 0.0:
                dg.add(a + "/ " + bits(F(x) / y))
            if x != 0:
                dg.add(a + "r/ " + bits(y / F(x)))
'''
    more = floats[:-3] + ["0.1", "-0.1", "0.3", "2.0", "7.0", "-7.0", "7.5", "1e16", "-1e22", "5e-324", "1.7976931348623157e308", "0.9999999999999999", "1.0000000000000002"] + floats[-3:]
    src += f'''
MORE = [{", ".join(more)}]
def floating(dg: Dg, part: int):
    for i in range(part, len(MORE), 8):
        x = MORE[i]
        a = str(i) + " "
        dg.add(a + bits(-x) + bits(+x) + bits(abs(x)) + str(bool(x)))
        if abs(x) < 9e18:
            dg.add(a + "int " + str(int(x)))
        j = 0
        for y in MORE:
            b = a + str(j) + " "
            j += 1
            dg.add(b + "+-* " + bits(x + y) + bits(x - y) + bits(x * y))
            dg.add(b + "cmp " + str(x == y) + str(x != y) + str(x < y) + str(x <= y) + str(x > y) + str(x >= y))
            if y != 0.0:
                q, m = divmod(x, y)
                dg.add(b + "divmod " + bits(q) + " " + bits(m) + " / " + bits(x / y))
                if PYTHON:
                    dg.add(b + "// % " + bits(x // y) + " " + bits(x % y))
    if PYTHON:
        for i in range(part, len(VALUES), 8):
            for y in MORE:
                if y != 0.0:
                    x = VALUES[i]
                    dg.add(str(x) + " // % " + bits(F(x) // y) + " " + bits(F(x) % y))
                    if x != 0:
                        dg.add(str(x) + " r// % " + bits(y // F(x)) + " " + bits(y % F(x)))
'''
    blocks = [(f"plain {i}", f"plain({{dg}}, {i})") for i in range(8)] + [(f"mixed {i}", f"mixed({{dg}}, {i})") for i in range(8)] + [(f"floating {i}", f"floating({{dg}}, {i})") for i in range(8)]
    yield "plain", src, blocks


def main():
    chk = Check("C02", "model_checking")
    build("mc", "codonrt")
    fam = list(families())
    run_blocks(chk, fam, modes=("d", "r"), prelude=CODON, fix=lambda s: s.replace(CODON, DIGEST), py_head=PY, limit=pick(300, 2500))
    fam[2] = (fam[2][0], fam[2][1].replace("PYTHON = False", "PYTHON = True"), fam[2][2])
    run_blocks(chk, fam[2:], modes=("d",), prelude=CODON, fix=lambda s: s.replace(CODON, DIGEST), py_head=PY.replace("FLOOR = False", "FLOOR = True"), limit=pick(300, 2500), flags=("-n",), label="n")
    chk.space("blocks", "observations", "observations")
    chk.finish()


if __name__ == "__main__":
    main()
