#!/usr/bin/env python3
"""C28: every string method on every short string over small alphabets, against CPython."""
from digests import *

PRE = DIGEST + '''
def strings(alpha: str, lo: int, hi: int) -> List[str]:
    out = List[str]()
    level = [""]
    for n in range(hi + 1):
        if n >= lo:
            out += level
        level = [s + c for s in level for c in alpha]
    return out
'''


def fix(s):
    return s.replace("List[str]()", "[]").replace("List[int]()", "[]")


def families():
    n, m = pick(8, 11), pick(3, 4)
    src = f'''
def search(dg: Dg, p: str):
    for s in strings("ab", 0, {n}):
        w = s + "," + p + " "
        dg.add(w + r(s.find(p)) + "," + r(s.rfind(p)) + "," + r(s.count(p)) + "," + r(p in s) + r(s.startswith(p)) + r(s.endswith(p)))
        try:
            dg.add(w + r(s.index(p)) + "," + r(s.rindex(p)))
        except ValueError:
            dg.add(w + "ValueError")
def replacing(dg: Dg, p: str):
    for s in strings("ab", 0, {n - 1}):
        for x in ("", "a", "ba", "cabc"):
            for k in (-1, 0, 1, 2, 3, 99):
                dg.add(s + "," + p + "," + x + "," + r(k) + " " + s.replace(p, x, k))
            dg.add(s + "," + p + "," + x + " " + s.replace(p, x))
def parting(dg: Dg, p: str):
    for s in strings("ab", 0, {n}):
        w = s + "," + p + " "
        try:
            a, b, c = s.partition(p)
            dg.add(w + "|".join([a, b, c]))
            a, b, c = s.rpartition(p)
            dg.add(w + "|".join([a, b, c]))
            dg.add(w + "|".join(s.split(p)) + " " + "|".join(s.rsplit(p)))
            for k in (-1, 0, 1, 2, 3):
                dg.add(w + r(k) + "|".join(s.split(p, k)) + " " + "|".join(s.rsplit(p, k)))
        except ValueError:
            dg.add(w + "ValueError")
def ranged(dg: Dg, p: str):
    for s in strings("ab", 0, 4):
        for i in range(-6, 7):
            dg.add(s + "," + p + "," + r(i) + " " + r(s.find(p, i)) + r(s.rfind(p, i)) + r(s.count(p, i)) + r(s.startswith(p, i)) + r(s.endswith(p, i)))
            for j in range(-6, 7):
                w = s + "," + p + "," + r(i) + "," + r(j) + " "
                dg.add(w + r(s.find(p, i, j)) + "," + r(s.rfind(p, i, j)) + "," + r(s.count(p, i, j)) + "," + r(s.startswith(p, i, j)) + r(s.endswith(p, i, j)))
                try:
                    dg.add(w + r(s.index(p, i, j)) + "," + r(s.rindex(p, i, j)))
                except ValueError:
                    dg.add(w + "ValueError")
def long(dg: Dg, k: int):
    # periodic and nearly periodic texts around the sizes where the search changes its method
    texts = List[str]()
    pats = List[str]()
    for n in (1, 3, 5, 17, 40, 99, 130, 260, 600, 3000):
        for u in ("a", "ab", "aab", "abcd", "aaaaaaab"):
            texts.append((u * n)[:3000])
            texts.append((u * n)[:2000] + "x" + (u * n)[:300])
            texts.append("x" + (u * n)[:1000])
    for n in (1, 2, 4, 7, 15, 16, 33, 90, 100, 101, 130, 260):
        for u in ("a", "ab", "aab", "abcd", "aaaaaaab"):
            pats.append((u * n)[:n])
            pats.append((u * n)[:n] + "x")
            pats.append("x" + (u * n)[:n])
            pats.append((u * n)[:n // 2] + "x" + (u * n)[:n // 2])
    p = pats[k]
    for i in range(len(texts)):
        s = texts[i]
        dg.add(r(k) + "," + r(i) + " " + r(s.find(p)) + "," + r(s.rfind(p)) + "," + r(s.count(p)) + "," + r(p in s) + "," + r(len(s.split(p))) + "," + r(len(s.replace(p, "yz"))) + "," + r(len(s.rsplit(p, 2)[0])))
'''
    pats = ["".join(t) for k in range(m + 1) for t in __import__("itertools").product("ab", repeat=k)]
    blocks = [(f"{f} '{p}'", f"{f}({{dg}}, '{p}')") for f in ("search", "replacing", "parting") for p in pats]
    blocks += [(f"ranged '{p}'", f"ranged({{dg}}, '{p}')") for p in ("", "a", "b", "ab", "ba", "aa", "aba")]
    blocks += [(f"long {k}", f"long({{dg}}, {k})") for k in range(12 * 5 * 4)]
    yield "search", src, blocks

    src = f'''
def white(dg: Dg, c: str):
    for t in strings("a \\t\\n", 0, {pick(5, 7)}):
        s = c + t
        w = repr(s) + " "
        dg.add(w + "|".join(s.split()) + "," + "|".join(s.rsplit()) + "," + s.strip() + "," + s.lstrip() + "," + s.rstrip())
        for k in range(-1, 4):
            dg.add(w + r(k) + " " + "|".join(s.split(None, k)) + "," + "|".join(s.rsplit(None, k)))
        dg.add(w + "|".join(s.split(" ")) + "," + "|".join(s.splitlines()) + "," + "|".join(s.splitlines(True)) + r(s.isspace()))
def lines(dg: Dg, c: str):
    for t in strings("a\\r\\n\\v\\f", 0, {pick(5, 6)}):
        s = c + t
        w = repr(s) + " "
        dg.add(w + "|".join(s.split()) + r(s.isspace()) + s.strip() + "," + "|".join(s.strip("\\n").split("\\n")))
    for t in strings("a\\r\\n", 0, {pick(7, 9)}):
        s = c + t
        dg.add(repr(s) + " " + "|".join(s.splitlines()) + "," + "|".join(s.splitlines(True)))
def tabs(dg: Dg, k: int):
    for s in strings("a\\t\\n", 0, {pick(6, 8)}):
        dg.add(repr(s) + " " + repr(s.expandtabs(k)) )
def strips(dg: Dg, c: str):
    for s in strings("abc", 0, {pick(5, 7)}):
        dg.add(s + "," + c + " " + s.strip(c) + "," + s.lstrip(c) + "," + s.rstrip(c))
'''
    blocks = [(f"white {c!r}", f"white({{dg}}, {c!r})") for c in ("", "a", " ", "\t")] + [(f"lines {c!r}", f"lines({{dg}}, {c!r})") for c in ("", "\r", "\n", "a")]
    blocks += [(f"tabs {k}", f"tabs({{dg}}, {k})") for k in (0, 1, 2, 3, 4, 8)] + [(f"strips {c}", f"strips({{dg}}, {c!r})") for c in ("a", "b", "ab", "ca", "abc", "z", "az")]
    yield "white", src, blocks

    src = f'''
def casing(dg: Dg, c: str):
    for t in strings("aB1_ ", 0, {pick(5, 6)}):
        s = c + t
        w = s + " "
        dg.add(w + s.lower() + "," + s.upper() + "," + s.title() + "," + s.capitalize() + "," + s.swapcase() + "," + s.casefold())
        dg.add(w + r(s.islower()) + r(s.isupper()) + r(s.istitle()) + r(s.isalpha()) + r(s.isalnum()) + r(s.isdigit()) + r(s.isdecimal()) + r(s.isnumeric()) + r(s.isspace()) + r(s.isidentifier()) + r(s.isprintable()) + r(s.isascii()))
def chars(dg: Dg, lo: int):
    for i in range(lo, lo + 16):
        if 28 <= i < 32:
            continue  # spaces to Unicode only
        c = chr(i)
        w = r(i) + " "
        for s in (c, c + "a", "a" + c, c + c, "Z" + c + "z", "1" + c):
            dg.add(w + repr(s) + r(len(s)) + r(s.islower()) + r(s.isupper()) + r(s.istitle()) + r(s.isalpha()) + r(s.isalnum()) + r(s.isdigit()) + r(s.isspace()) + r(s.isidentifier()) + r(s.isprintable()))
            dg.add(w + repr(s.lower()) + repr(s.upper()) + repr(s.title()) + repr(s.capitalize()) + repr(s.swapcase()) + repr(s.strip()) + r(len(s.split())) + r(ord(s[0])))
def padding(dg: Dg, s: str):
    for k in range(-2, 12):
        dg.add(s + r(k) + " " + s.zfill(k) + "," + s.ljust(k) + "|" + s.rjust(k) + "|" + s.center(k) + "|" + s.ljust(k, "*") + "|" + s.rjust(k, "*") + "|" + s.center(k, "*") + "|" + s * k)
def pairs(dg: Dg, s: str):
    for t in strings("ab\\x01~", 0, 3):
        dg.add(repr(s) + repr(t) + r(s < t) + r(s <= t) + r(s == t) + r(s != t) + r(s > t) + r(s >= t) + r(hash(s) == hash(t)) + s + t + s.join(t) + t.join([s, "q", s]) + r(s in t) + r(sorted([s, t, "b"])) + r([c for c in reversed(t)]) + r(min(s + "x", t + "x")))
'''
    blocks = [(f"casing {c}", f"casing({{dg}}, {c!r})") for c in ("", "a", "B", "1", "_", " ")] + [(f"chars {i}", f"chars({{dg}}, {i})") for i in range(0, 128, 16)]
    blocks += [(f"padding {s}", f"padding({{dg}}, {s!r})") for s in ("", "a", "ab", "abc", "-1", "+12", "-", "--1", "1-", "a-b", "+a")]
    blocks += [(f"pairs {s!r}", f"pairs({{dg}}, {s!r})") for s in ("", "a", "b", "ab", "ba", "aa", "\x01", "~", "a\x01", "aab")]
    yield "chars", src, blocks


def main():
    chk = Check("C28", "model_checking")
    build("mc", "codonrt")
    run_blocks(chk, families(), modes=pick(("d",), ("d", "r")), prelude=PRE, limit=pick(300, 2500), fix=fix)
    chk.space("blocks", "observations", "observations")
    chk.finish()


if __name__ == "__main__":
    main()
