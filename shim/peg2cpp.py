#!/usr/bin/env python3
"""Stand-in for codon/util/peg2cpp.cpp (which needs cpp-peglib itself).

usage: peg2cpp.py GRAMMAR.peg OUT.cpp NAME
Reads the grammar notation of exaloop's cpp-peglib fork and writes the same kind of
rule file as peg2cpp.cpp does, with macros already expanded."""
import re
import sys

src = open(sys.argv[1], encoding="utf-8").read()
prefix = sys.argv[3]
pos = 0


def err(msg):
    line = src.count("\n", 0, pos) + 1
    sys.exit(f"{sys.argv[1]}:{line}: {msg}: {src[pos:pos+40]!r}")


def skip():
    global pos
    while pos < len(src):
        if src[pos].isspace():
            pos += 1
        elif src[pos] == "#":
            while pos < len(src) and src[pos] != "\n":
                pos += 1
        else:
            break


def code_block():
    """a balanced { ... } C++ block at pos; returns it with its braces"""
    global pos
    start = pos
    depth = 0
    while pos < len(src):
        c = src[pos]
        if c in "\"'":
            q = c
            pos += 1
            while src[pos] != q:
                pos += 2 if src[pos] == "\\" else 1
            pos += 1
            continue
        if src.startswith("//", pos):
            pos = src.index("\n", pos)
            continue
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                pos += 1
                return src[start:pos]
        pos += 1
    err("unterminated block")


IDENT = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")


def ident():
    global pos
    m = IDENT.match(src, pos)
    if not m:
        err("identifier expected")
    pos = m.end()
    return m.group()


def peek_definition():
    """is there a rule header at pos (after blanks)?"""
    m = re.compile(
        r"~?[A-Za-z_][A-Za-z_0-9]*(\([A-Za-z_0-9, ]*\))?\s*<-|PREAMBLE\s*\{|[A-Za-z_][A-Za-z_0-9]*__PREDICATE\s*\{"
    ).match(src, pos)
    return bool(m)


ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", '"': '"', "[": "[", "]": "]", "-": "-", "^": "^"}


def unescape_one():
    global pos
    assert src[pos] == "\\"
    c = src[pos + 1]
    pos += 2
    if c not in ESC:
        err(f"unknown escape \\{c}")
    return ESC[c]


def parse_choice():
    """alternatives -> node ('cho', [...]) or the only alternative; nodes are dicts"""
    global pos
    skip()
    if src[pos] == "/":
        pos += 1
    alts = [parse_sequence()]
    while True:
        skip()
        if pos < len(src) and src[pos] == "/":
            pos += 1
            alts.append(parse_sequence())
        else:
            break
    if len(alts) == 1:
        return alts[0]
    return {"op": "cho", "args": alts, "code": ""}


def parse_sequence():
    global pos
    items = []
    code = ""
    while True:
        skip()
        if pos >= len(src) or src[pos] in "/)>," or peek_definition():
            break
        if src[pos] == "{":
            code = code_block()
            break
        items.append(parse_prefix())
    if len(items) == 1:
        node = items[0]
        if code:
            node = dict(node)
            node["code"] = code
        return node
    return {"op": "seq", "args": items, "code": code}


def parse_prefix():
    global pos
    c = src[pos]
    if c in "&!":
        pos += 1
        skip()
        return {"op": "apd" if c == "&" else "npd", "args": [parse_suffix()], "code": ""}
    if c == "^":
        pos += 1
        return {"op": "cut", "args": [], "code": ""}
    return parse_suffix()


def parse_suffix():
    global pos
    node = parse_primary()
    if pos < len(src) and src[pos] in "*+?":
        c = src[pos]
        pos += 1
        return {"op": {"*": "zom", "+": "oom", "?": "opt"}[c], "args": [node], "code": ""}
    return node


def parse_primary():
    global pos
    c = src[pos]
    if c == "(":
        pos += 1
        node = parse_choice()
        skip()
        if src[pos] != ")":
            err(") expected")
        pos += 1
        # keep a parenthesised node distinct from its content
        return dict(node)
    if c == "<":
        pos += 1
        node = parse_choice()
        skip()
        if src[pos] != ">":
            err("> expected")
        pos += 1
        return {"op": "tok", "args": [node], "code": ""}
    if c in "\"'":
        pos += 1
        s = ""
        while src[pos] != c:
            if src[pos] == "\\":
                s += unescape_one()
            else:
                s += src[pos]
                pos += 1
        pos += 1
        return {"op": "lit", "str": s, "args": [], "code": ""}
    if c == "[":
        pos += 1
        neg = False
        if src[pos] == "^":
            neg = True
            pos += 1
        ranges = []

        def one():
            global pos
            if src[pos] == "\\":
                return unescape_one()
            ch = src[pos]
            pos += 1
            return ch

        while src[pos] != "]":
            a = one()
            if src[pos] == "-" and src[pos + 1] != "]":
                pos += 1
                ranges.append((a, one()))
            else:
                ranges.append((a, a))
        pos += 1
        return {"op": "ncls" if neg else "cls", "ranges": ranges, "args": [], "code": ""}
    if c == ".":
        pos += 1
        return {"op": "dot", "args": [], "code": ""}
    name = ident()
    if pos < len(src) and src[pos] == "(":
        pos += 1
        args = []
        while True:
            args.append(parse_choice())
            skip()
            if src[pos] == ",":
                pos += 1
                continue
            if src[pos] == ")":
                pos += 1
                break
            err(", or ) expected")
        return {"op": "macro", "name": name, "args": args, "code": ""}
    return {"op": "ref", "name": name, "args": [], "code": ""}


preamble = ""
rules = {}
order = []
predicates = {}
macros = {}
while True:
    skip()
    if pos >= len(src):
        break
    if src.startswith("PREAMBLE", pos):
        pos += len("PREAMBLE")
        skip()
        preamble = code_block()[1:-1]
        continue
    ignore = False
    if src[pos] == "~":
        ignore = True
        pos += 1
    name = ident()
    if name.endswith("__PREDICATE"):
        skip()
        predicates[name[: -len("__PREDICATE")]] = code_block()
        continue
    memo = True
    if name.endswith("__NOPACKRAT"):
        memo = False
        name = name[: -len("__NOPACKRAT")]
    params = []
    if src[pos] == "(":
        end = src.index(")", pos)
        params = [x.strip() for x in src[pos + 1 : end].split(",")]
        pos = end + 1
    skip()
    if not src.startswith("<-", pos):
        err("<- expected")
    pos += 2
    node = parse_choice()
    if params:
        macros[name] = (params, node)
    else:
        rules[name] = {"node": node, "ignore": ignore, "memo": memo}
        order.append(name)


def cstr(s):
    out = ""
    for ch in s:
        if ch == "\n":
            out += "\\n"
        elif ch == "\r":
            out += "\\r"
        elif ch == "\t":
            out += "\\t"
        elif ch in "\\\"":
            out += "\\" + ch
        else:
            out += ch
    return '"' + out + '"'


def subst(node, env):
    if node["op"] == "ref" and node["name"] in env:
        return env[node["name"]]
    n = dict(node)
    n["args"] = [subst(a, env) for a in node["args"]]
    return n


def emit(node):
    op = node["op"]
    if op == "macro":
        params, body = macros[node["name"]]
        return emit(subst(body, dict(zip(params, node["args"]))))
    if op == "lit":
        return f"lit({cstr(node['str'])})"
    if op in ("cls", "ncls"):
        rs = ",".join(f"{{0x{ord(a):x}, 0x{ord(b):x}}}" for a, b in node["ranges"])
        return f"{op}(vc{{{rs}}})"
    if op == "ref":
        return f'ref(P, "{node["name"]}")'
    return f"{op}({', '.join(emit(a) for a in node['args'])})"


LOC = """  const auto &LI = VS.line_info();
  auto LOC = codon::SrcInfo(
    VS.path, LI.first + CTX.line_offset,
    LI.second + CTX.col_offset,
    VS.sv().size());
"""
CTX = "  auto &CTX = any_cast<ParseContext &>(DT);\n"
CCTX = "  const auto &CTX = any_cast<const ParseContext &>(DT);\n"


def wrap(code, const):
    code = code[1:-1]
    if "LOC" in code:
        code = LOC + code
    if "CTX" in code:
        code = (CCTX if const else CTX) + code
    return code


# memo entries are only reused in the parser state (indentation, parentheses) they were made in
STATE = """
template <typename C> static uint64_t parserState(C *c) {
  uint64_t r = 0;
  if constexpr (requires { c->indent.top(); c->indent.size(); })
    r = c->indent.empty() ? 0 : (c->indent.size() * 1024 + c->indent.top() + 1);
  if constexpr (requires { c->parens + 1; })
    r = r * 1024 + c->parens;
  return r;
}
static uint64_t state_of(const any &dt) {
  auto *c = any_cast<ParseContext>(&dt);
  return c ? parserState(c) : 0;
}
static bool state_set = (peg::state_fn() = state_of, true);
"""

out_rules, fns, acts = [], [], []
for name in order:
    r = rules[name]
    node = r["node"]
    out_rules.append(f'  {"~" if r["ignore"] else ""}P["{name}"] <= {emit(node)};')
    out_rules.append(f'  P["{name}"].name = "{name}";')
    if not r["memo"]:
        out_rules.append(f'  P["{name}"].enable_memoize = false;')
    code = node["code"]
    if not code and node["op"] == "cho":
        body, any_code = "", False
        for i, a in enumerate(node["args"]):
            if a["code"]:
                body += f"  if (VS.choice() == {i}) {a['code']}\n"
                any_code = True
            else:
                body += f"  if (VS.choice() == {i}) return V0;\n"
        if any_code:
            code = "{\n" + body + "}"
    if code:
        fns.append(f"auto fn_{name}(peg::SemanticValues &VS, any &DT) {{\n{wrap(code, False)}\n}};")
        acts.append(f'  P["{name}"] = fn_{name};')
    if name in predicates:
        fns.append(
            f"auto pred_{name}(const peg::SemanticValues &VS, const any &DT, std::string &MSG) {{\n{wrap(predicates[name], True)}\n}};"
        )
        acts.append(f'  P["{name}"].predicate = pred_{name};')

with open(sys.argv[2], "w") as f:
    f.write('#pragma clang diagnostic ignored "-Wreturn-type"\n')
    f.write(preamble + "\n")
    f.write(
        f"void init_{prefix}_rules(peg::Grammar &P) {{\n  using namespace peg;\n  using peg::seq;\n"
        "  using vc = vector<pair<char32_t, char32_t>>;\n" + "\n".join(out_rules) + "\n}\n"
    )
    f.write(STATE)
    f.write("\n".join(fns) + "\n")
    f.write(f"void init_{prefix}_actions(peg::Grammar &P) {{\n" + "\n".join(acts) + "\n}\n")
