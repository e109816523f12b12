#!/usr/bin/env python3
"""One-off: freeze the grammar that /repo's parser types describe as the reference table harness/src/refgram.rs.

The output is committed and reviewed (against camxes-ilmen and the parser's test corpus); checks never run this."""
import os, re, sys
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
D = R + "/src/parse/cst/rules/"
src = "".join(open(D + f).read() for f in ("mod.rs", "connectives.rs", "mekso.rs", "helpers.rs"))
src = re.sub(r"#\[test\].*?\n}\n", "", src, flags=re.S)
src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
src = re.sub(r"//[^\n]*", "", src)
TOK = re.compile(r"\s+|(\"(?:[^\"\\]|\\.)*\"|'arena|'_|[A-Za-z_][A-Za-z0-9_]*|::|->|[^\sA-Za-z_])")
toks = [m.group(1) for m in TOK.finditer(src) if m.group(1)]

# ---------------------------------------------------------------- token types
sel = open(D + "selmaho.rs").read()
body = sel[sel.index("token_types! {\n"):]
body = body[:body.index("\n}")]
tokens = {}
for line in body.splitlines()[1:]:
    m = re.match(r"\s*(?:#\[(\w+)\] )?(\w+),", line)
    tokens[m.group(2)] = m.group(1) or "single"


class P:
    def __init__(self, t):
        self.t, self.i = t, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        assert self.eat(x), (x, self.t[self.i - 5:self.i + 10])

    def attrs(self):
        out = []
        while self.peek() == "#":
            self.next()
            self.need("[")
            depth, a = 1, []
            while True:
                x = self.next()
                depth += (x == "[") - (x == "]")
                if not depth:
                    break
                a.append(x)
            out.append(a)
        return out

    def type(self):
        """a type as a tuple: ('name', args..) | ('ref', t) | ('slice', t) | ('tuple', ts..)"""
        if self.eat("&"):
            self.eat("'arena")
            self.eat("'_")
            return ("ref", self.type())
        if self.eat("["):
            t = self.type()
            self.need("]")
            return ("slice", t)
        if self.eat("("):
            ts = []
            while not self.eat(")"):
                ts.append(self.type())
                self.eat(",")
            return ("tuple", *ts)
        n = self.next()
        args = []
        if self.eat("<"):
            while not self.eat(">"):
                if self.eat("'arena") or self.eat("'_"):
                    pass
                else:
                    args.append(self.type())
                self.eat(",")
        return (n, *args)

    def fields(self, close, named):
        fs = []
        while not self.eat(close):
            at = self.attrs()
            if self.eat("pub"):
                pass
            if named:
                self.next()
                self.need(":")
            fs.append((at, self.type()))
            self.eat(",")
        return fs


def parse_attr(at, what):
    """values of `parse(what = "..")` and flags"""
    out = []
    for a in at:
        if a[0] == "parse":
            inner = a[2:-1]
            i = 0
            while i < len(inner):
                if inner[i] == what:
                    if i + 2 < len(inner) and inner[i + 1] == "=":
                        out.append(inner[i + 2].strip('"'))
                    elif i + 1 < len(inner) and inner[i + 1] == "(":
                        out.append(inner[i + 2].strip('"'))
                    else:
                        out.append(True)
                i += 1
        elif a[0] == what:
            out.append(True)
    return out


class Def:
    pass


defs, aliases = {}, {"Mekso": ("Expression",), "MeksoOperator": ("Operator",)}
p = P(toks)
while p.i < len(toks):
    at = p.attrs() if p.peek() == "#" and p.peek(1) == "[" else []
    vis = p.eat("pub")
    x = p.next()
    if x == "type" and vis:
        n = p.next()
        if p.eat("<"):
            while not p.eat(">"):
                p.next()
        p.need("=")
        aliases[n] = p.type()
        p.need(";")
    elif x in ("struct", "enum") and vis:
        d = Def()
        d.name, d.attrs, d.params = p.next(), at, []
        if p.eat("<"):
            while not p.eat(">"):
                y = p.next()
                if y not in ("'arena", ","):
                    d.params.append(y)
        d.kind = x
        if x == "struct":
            if p.eat("("):
                d.fields = p.fields(")", False)
                p.need(";")
            elif p.eat("{"):
                d.fields = p.fields("}", True)
        else:
            p.need("{")
            d.variants = []
            while not p.eat("}"):
                va = p.attrs()
                vn = p.next()
                if p.eat("("):
                    f = p.fields(")", False)
                else:
                    p.need("{")
                    f = p.fields("}", True)
                d.variants.append((va, vn, f))
                p.eat(",")
        defs[d.name] = d
    elif x == "macro_rules":
        depth = 0
        while True:
            y = p.next()
            depth += (y == "{") - (y == "}")
            if y == "}" and not depth:
                break
for n, inner in (("Ek", "A"), ("Jek", "Ja"), ("Gihek", "Giha")):
    d = Def()
    d.name, d.attrs, d.params, d.kind, d.fields = n, [], [], "struct", [([], ("NaSeTNai", (inner,)))]
    defs[n] = d

# ---------------------------------------------------------------- nodes
nodes, index, names = [], {}, []


def new(n):
    if n in seen:
        return seen[n]
    nodes.append(n)
    seen[n] = len(nodes) - 1
    return len(nodes) - 1


seen = {}


def name(s):
    if s not in names:
        names.append(s)
    return names.index(s)


def subst(t, env):
    if t[0] in env and len(t) == 1:
        return env[t[0]]
    return (t[0], *[subst(x, env) if isinstance(x, tuple) else x for x in t[1:]])


def build(t):
    t = resolve(t)
    if t in index:
        return index[t]
    nodes.append(None)
    me = index[t] = len(nodes) - 1
    nodes[me] = make(t)
    return me


def resolve(t):
    while t[0] in aliases and len(t) == 1:
        t = aliases[t[0]]
    return t


def field(at, t):
    w = parse_attr(at, "with")
    if w:
        while t[0] in ("ref",):
            t = t[1]
        assert t[0] == "slice", t
        n = new(({"many0": "MANY0", "many1": "MANY1"}[w[0]], build(t[1])))
    else:
        n = build(t)
    if parse_attr(at, "cut"):
        n = new(("CUT", n))
    seq = []
    for x in parse_attr(at, "not"):
        seq.append(new(("NOT", build(P([y.group(1) for y in TOK.finditer(x) if y.group(1)]).type()))))
    return seq + [n]


def fieldseq(fs):
    out = []
    for at, t in fs:
        out += field(at, t)
    return out


def make(t):
    k = t[0]
    if k == "ref":
        return ("SEQ", (build(t[1]),))
    if k == "Option":
        return ("OPT", build(t[1]))
    if k == "tuple":
        return ("SEQ", tuple(build(x) for x in t[1:]))
    if k == "Token":
        return ("ANY",)
    if k == "Bu":
        return ("TOK", "Bu")
    nb, nz = (lambda: new(("NOT", build(("Bu",))))), (lambda: new(("NOT", build(("Zei",)))))
    if k in tokens:
        leaf = new(("TOK", k))
        if tokens[k] == "raw":
            return ("SEQ", (leaf, nb(), nz()))
        s = [new(("MANY0", build(("Bahe",)))), leaf]
        if tokens[k] == "single":
            s.append(build(("Option", ("Indicators",))))
        s += [nb(), nz()]
        return ("NAME", name(k), new(("SEQ", tuple(s))))
    if k == "BuInner":
        return ("NAME", name(k), new(("BUINNER",)))
    if k == "ZoiDelimiter":
        return ("LEAF", name(k), "ANY")
    if k == "ZoiText":
        return ("LEAF", name(k), "AnyText")
    if k == "LohuSumti":
        return ("NAME", name(k), new(("SEQ", (build(("Lohu",)), new(("CUT", new(("TILL", build(("Token",)), build(("Lehu",))))))))))
    d = defs[k]
    assert len(d.params) == len(t) - 1, (t, d.params)
    env = dict(zip(d.params, t[1:]))
    env["Self"] = t
    if k == "Separated":
        first, rest = build(t[1]), build(("tuple", t[2], t[1]))
        return ("NAME", name(k), new(("SEQ", (first, new(("MANY0", rest))))))
    through = any(a[0] == "tree_node" and "passthrough_child" in a for a in d.attrs)

    def sub(fs):
        return [(at, subst(ty, env)) for at, ty in fs]

    if d.kind == "struct":
        n = new(("SEQ", tuple(fieldseq(sub(d.fields)))))
        if parse_attr(d.attrs, "postcond"):
            assert k in ("Time", "Space"), k
            n = new(("MUST", n))
        r = n if through else ("NAME", name(k), n)
    else:
        alts = []
        for va, vn, f in d.variants:
            n = new(("SEQ", tuple(fieldseq(sub(f)))))
            if parse_attr(va, "must_consume"):
                n = new(("MUST", n))
            alts.append(n if through else new(("NAME", name(k + "::" + vn), n)))
        r = ("ALT", tuple(alts))
    na = parse_attr(d.attrs, "not_after")
    if na:
        r = ("SEQ", (new(r) if not isinstance(r, int) else r, *[new(("NOT", build(P([y.group(1) for y in TOK.finditer(x) if y.group(1)]).type()))) for x in na]))
    return nodes[r] if isinstance(r, int) else r


root = build(("Text",))
# ---------------------------------------------------------------- output
kids, out = [], []
K = ["TOK", "ANY", "SEQ", "ALT", "OPT", "MANY0", "MANY1", "NOT", "CUT", "NAME", "MUST", "BUINNER", "TILL", "LEAF"]
for n in nodes:
    k = n[0]
    a = b = "0"
    if k == "TOK":
        a = f"S::{n[1]} as u16"
    elif k in ("SEQ", "ALT"):
        a, b = str(len(kids)), str(len(n[1]))
        kids += n[1]
    elif k in ("NAME", "TILL"):
        a, b = str(n[1]), str(n[2])
    elif k == "LEAF":
        a, b = str(n[1]), "999" if n[2] == "ANY" else f"S::{n[2]} as u16"
    elif k in ("ANY", "BUINNER"):
        pass
    else:
        a = str(n[1])
    out.append(f"({k}, {a}, {b})")
w = [f"pub const ROOT: u16 = {root};",
     "pub static NAMES: [&str; %d] = [%s];" % (len(names), ", ".join(f'"{x}"' for x in names)),
     "pub static KIDS: [u16; %d] = [%s];" % (len(kids), ", ".join(map(str, kids))),
     "#[rustfmt::skip]\npub static NODES: [(u8, u16, u16); %d] = [\n%s];" % (len(out), "".join(f"\t{x},\n" for x in out))]
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/refgram_table.rs")
open(path, "w").write("// The frozen grammar (tools/grammar.py): (kind, operand, operand); see refgram.rs.\nuse super::refgram::*;\nuse sneturfahi::lex::Selmaho as S;\n" + "\n".join(w) + "\n")
print(len(nodes), "nodes", len(names), "names", len(kids), "kids")
