#!/usr/bin/env python3
"""C12: numbers and text convert to each other exactly, for every format specification in a grid."""
from digests import *

INTS = ["0", "1", "-1", "7", "-8", "42", "255", "-256", "999", "1000", "-1000", "123456", "-1234567", "2147483648", "9223372036854775807", "-9223372036854775807"]
FLOATS = ["0.0", "-0.0", "0.5", "1.5", "2.5", "-2.5", "1.0", "-1.0", "0.1", "9.995", "99.5", "0.00001234", "-123456.789", "999999.5", "1e15", "1e16", "1e22", "1.7976931348623157e308", "5e-324", "1e-300", "3.0000000000000004"]
SPECIAL = ["float('inf')", "float('-inf')", "float('nan')"]
STRS = ["''", "'a'", "'abc'", "'hello world'", "'*'"]


def families():
    src = f'''
def fints(dg: Dg, align: str, sign: str):
    for alt in ("", "#"):
        for zero in ("", "0"):
            for width in ("", "1", "5", "12", "30"):
                for comma in ("", ","):
                    for t in ("", "d", "x", "X", "b", "o"):
                        if zero and (align or comma or not width):
                            continue
                        if comma and t not in ("", "d"):
                            continue
                        if alt and t in ("o", "b"):
                            continue  # spelled as in C
                        s = align + sign + alt + zero + width + comma + t
                        for x in [{", ".join(INTS)}]:
                            dg.add(r(x) + " " + s + " [" + x.__format__(s) + "]")
def ffloats(dg: Dg, align: str, sign: str):
    for zero in ("", "0"):
        for width in ("", "1", "8", "25"):
            for comma in ("", ","):
                for prec in (".0", ".1", ".2", ".3", ".10", ".17", ""):
                    for t in ("e", "E", "f", "F", "g", "G"):
                        if zero and (align or comma or not width):
                            continue
                        if comma and (t not in ("f", "F") or width):
                            continue
                        s = align + sign + zero + width + comma + prec + t
                        i = 0
                        for x in [{", ".join(FLOATS + SPECIAL)}]:
                            i += 1
                            if x - x != 0.0 and (zero or comma or align == "0>"):
                                continue
                            dg.add(r(i) + " " + s + " [" + x.__format__(s) + "]")
def fstrs(dg: Dg, align: str, sign: str):
    for width in ("", "1", "3", "4", "7", "20"):
        for prec in ("", ".0", ".1", ".2", ".5", ".99"):
            for t in ("", "s"):
                s = align + width + prec + t
                for x in [{", ".join(STRS)}]:
                    dg.add(x + " " + s + " [" + x.__format__(s) + "]")
'''
    al = ["", "<", ">", "^", "*<", "*>", "x^", "0>"]
    blocks = [(f"int {a}|{s}", f"fints({{dg}}, '{a}', '{s}')") for a in al for s in ("", "+", "-", " ")]
    blocks += [(f"float {a}|{s}", f"ffloats({{dg}}, '{a}', '{s}')") for a in al for s in ("", "+", "-", " ")]
    blocks += [(f"str {a}", f"fstrs({{dg}}, '{a}', '')") for a in al]
    yield "specs", src, blocks

    n = pick(4, 5)
    src = f'''
def strings(alpha: str, lo: int, hi: int) -> List[str]:
    out = List[str]()
    level = [""]
    for n in range(hi + 1):
        if n >= lo:
            out += level
        level = [s + c for s in level for c in alpha]
    return out
def toint(dg: Dg, c: str):
    for s in strings("019+- x", 0, {n}):
        try:
            dg.add(repr(c + s) + " " + r(int(c + s)))
        except ValueError:
            dg.add(repr(c + s) + " ValueError")
def base(dg: Dg, b: int):
    for s in strings("017agzxbo-", 0, {n - 1}):
        try:
            dg.add(repr(s) + r(b) + " " + r(int(s, b)))
        except ValueError:
            dg.add(repr(s) + r(b) + " ValueError")
def edges(dg: Dg, k: int):
    m = 9223372036854775807
    for d in range(0, 12):
        for s in (r(m - d), "-" + r(m - d), "000" + r(m - d), " +" + r(m - d) + " "):
            dg.add(s + " " + r(int(s)) + r(int(s) == m - d))
    for b in range(2, 37):
        for x in (0, 1, b - 1, b, b * b, m, m - 1, m // b):
            y = x
            s = ""
            while True:
                s = "0123456789abcdefghijklmnopqrstuvwxyz"[y % b] + s
                y //= b
                if y == 0:
                    break
            dg.add(r(b) + s + r(int(s, b) == x) + r(int("-" + s.upper(), b) == -x))
def tofloat(dg: Dg, c: str):
    for s in strings("01.e-+ i", 0, {n}):
        try:
            x = float(c + s)
            dg.add(repr(c + s) + " " + x.__format__(".17g"))
        except ValueError:
            dg.add(repr(c + s) + " ValueError")
def grouped(dg: Dg, k: int):
    dg.add((99.5).__format__("8,.2f") + "|")
def words(dg: Dg, k: int):
    for s in ("inf", "INF", "Infinity", "-inf", "+infinity", "nan", "NaN", "-nan", "+nan", "+inf", "infi", "in", "na", "nann", "1e400", "-1e400", "1e-400", "0x10", "1e5 ", " 1e5", "_1", "1_", "", " ", "\\t3.5\\n", "1.e3", ".5", "5.", ".", "e5", "1e", "1e+", "0.1e-2", "00012", "1,000", "--1", "+-1", "1d5", "1f"):
        try:
            x = float(s)
            dg.add(repr(s) + " " + x.__format__(".17g").replace("-nan", "nan"))
        except ValueError:
            dg.add(repr(s) + " ValueError")
        try:
            dg.add(repr(s) + " " + r(int(s)))
        except ValueError:
            dg.add(repr(s) + " ValueError")
def around(dg: Dg, e: int):
    # decimal texts around every power of two and of ten: 17 digits identify the nearest double
    for m in ("1", "1.5", "4.5", "9.9999999999999999", "2.2250738585072011", "1.7976931348623158", "4.9406564584124654", "9007199254740993", "0.3", "7.2057594037927933", "123456789012345678901234567890"):
        for s in (m + "e" + r(e), "-" + m + "e" + r(e), m + "e-" + r(e)):
            x = float(s)
            y = x.__format__(".17g")
            dg.add(s + " " + y + " " + x.__format__(".16e") + r(float(y) == x or x != x))
    x = 2.0 ** float(e)
    for y in (x, x * 1.0000000000000002, x * 0.9999999999999999, 1.0 / x, x + 0.5, x - 0.5):
        for p in (0, 1, 5, 15, 16, 17, 25):
            dg.add(r(e) + " " + r(p) + " " + y.__format__("." + r(p) + "e") + " " + y.__format__("." + r(p) + "g") + " " + (y.__format__("." + r(p) + "f") if e < 80 else ""))
'''
    blocks = [(f"int {c!r}", f"toint({{dg}}, {c!r})") for c in ("", "0", "1", "-", " ", "9", "_")]
    blocks += [(f"base {b}", f"base({{dg}}, {b})") for b in (2, 3, 8, 10, 11, 16, 35, 36, 0)]
    blocks += [("edges", "edges({dg}, 0)"), ("words", "words({dg}, 0)"), ("grouped", "grouped({dg}, 0)")]
    blocks += [(f"float {c!r}", f"tofloat({{dg}}, {c!r})") for c in ("", "0", "1", "-", ".", " ", "1e", "n", "+")]
    blocks += [(f"around {e}", f"around({{dg}}, {e})") for e in range(0, 330, pick(7, 1)) ] + [(f"around {e}", f"around({{dg}}, {e})") for e in range(1, 64, pick(3, 2)) if e % pick(7, 1)]
    seen = set()
    yield "parse", src, [b for b in blocks if not (b[0] in seen or seen.add(b[0]))]

    # f-strings and % with several values, conversions and nested specifications
    vals = [("i", "42"), ("j", "-7"), ("f", "2.5"), ("s", "'ab'"), ("b", "True"), ("l", "[1, 2]"), ("t", "(1, 'x')"), ("n", "None")]
    src, blocks = "", []
    forms = []
    for v, x in vals:
        for conv in ("", "!r", "!s"):
            forms.append(f"{{{v}{conv}}}")
        forms.append(f"{{{v}=}}")
    specs = {"i": [":5", ":05d", ":<4", ":x", ":+"], "j": [":5", ":^6d"], "f": [":.2f", ":8.1e"], "s": [":4", ":>4", ":*^6"]}
    for v, ss in specs.items():
        forms += [f"{{{v}{x}}}" for x in ss]
    forms += ["{i + j}", "{s + 'q'}", "{l[0]}", "{[{i}, {j}]}", "{ {1: i}[1]}", "{'lit'}", "{i if b else j}", "{f\"{s}{i}\"}", "{ i }", "{len(s):3}"]
    lines = "".join(f"    {v} = {x}\n" for v, x in vals)
    for i, a in enumerate(forms):
        body = lines
        for b in ["", "-"] + forms:
            body += f"    dg.add(f'''{a}{b}{a}''')\n" if "'" in a + b else f"    dg.add(f'{a}{b}{a}')\n"
        src += f"def fs{i}(dg: Dg):\n{body}"
        blocks.append((f"fstring {a}", f"fs{i}({{dg}})".replace("{dg}", "{dg}")))
    yield "fstrings", src, [(k.replace("{", "<").replace("}", ">"), c) for k, c in blocks]


def fix(s):
    return s.replace("List[str]()", "[]")


def main():
    chk = Check("C12", "model_checking")
    build("mc", "codonrt")
    run_blocks(chk, families(), modes=pick(("d",), ("d", "r")), limit=pick(300, 2500), fix=fix)
    chk.space("blocks", "observations", "observations")
    chk.finish()


if __name__ == "__main__":
    main()
