#!/usr/bin/env python3
"""One-off: choose the sentence templates (token categories) of the parser queries: from lines `Cat Cat ..<tab>text`
on stdin, a small set that uses every rule of the reference grammar the corpus uses."""
import re, sys, os, functools
sys.setrecursionlimit(10000)
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/")
s = open(H + "refgram_table.rs").read()
NAMES = re.findall(r'"([^"]*)"', s[s.index("NAMES"):s.index("KIDS")])
KIDS = [int(x) for x in re.search(r"KIDS: \[u16; \d+\] = \[([^\]]*)\]", s).group(1).split(",")]
NODES = [(k, a.strip(), b.strip()) for k, a, b in re.findall(r"\((\w+), ([^,()]+), ([^,()]+)\)", s[s.index("NODES"):].split("= [", 1)[1])]
ROOT = 0


class Fail(Exception):
    pass


def cat(x):
    return re.sub(r"S::| as u16", "", x)


class G:
    def __init__(self, c):
        self.c, self.memo = c, {}

    def at(self, p):
        return self.c[p] if p < len(self.c) else None

    def run(self, n, p):
        """(end or 'F'/'X', used nodes)"""
        key = (n, p)
        if key not in self.memo:
            self.memo[key] = self.go(n, p)
        return self.memo[key]

    def go(self, n, p):
        k, a, b = NODES[n]
        E = frozenset()
        me = frozenset([n])
        t = self.at(p)
        if k == "TOK":
            return (p + 1, me) if t == cat(a) else ("F", E)
        if k == "ANY":
            return (p + 1, me) if t else ("F", E)
        if k == "LEAF":
            return (p + 1, me) if t and (b == "999" or cat(b) == t) else ("F", E)
        if k == "BUINNER":
            return (p + 1, me) if t and t not in "Bu Zei Si Su Sa Faho".split() else ("F", E)
        if k == "SEQ":
            u = me
            for i in range(int(a), int(a) + int(b)):
                e, x = self.run(KIDS[i], p)
                if e in ("F", "X"):
                    return e, E
                p, u = e, u | x
            return p, u
        if k == "ALT":
            for i in range(int(a), int(a) + int(b)):
                e, x = self.run(KIDS[i], p)
                if e != "F":
                    return e, x | me
            return "F", E
        if k == "OPT":
            e, x = self.run(int(a), p)
            return (p, E) if e == "F" else (e, x | me)
        if k in ("MANY0", "MANY1"):
            u, c, first = me, 0, k == "MANY1"
            while True:
                e, x = self.run(int(a), p)
                if e == "X" or (e == "F" and first):
                    return e, E
                if e == "F":
                    return p, (u | {(n, min(c, 2))}) if c else E
                if e == p and not first:
                    return "F", E
                p, u, c, first = e, u | x, c + 1, False
        if k == "NOT":
            e, x = self.run(int(a), p)
            return (p, E) if e == "F" else (e, E) if e == "X" else ("F", E)
        if k == "CUT":
            e, x = self.run(int(a), p)
            return ("X", E) if e == "F" else (e, x)
        if k == "NAME":
            e, x = self.run(int(b), p)
            return (e, x | me) if e not in ("F", "X") and e > p else (e, E)
        if k == "MUST":
            e, x = self.run(int(a), p)
            return ("F", E) if e == p else (e, x)
        u = me
        while True:
            e, x = self.run(int(b), p)
            if e != "F":
                return e, u | x
            e, x = self.run(int(a), p)
            if e in ("F", "X"):
                return e, E
            p, u = e, u | x


if __name__ == "__main__":
    sents = []
    for l in sys.stdin:
        w = l.split("\t")[0].split()
        e, u = G(w).run(ROOT, 0)
        if e != len(w):
            print("REJECTED", l.strip(), e, file=sys.stderr)
        else:
            sents.append((w, u))
    allu = frozenset().union(*(u for w, u in sents))
    named = [i for i, n in enumerate(NODES) if n[0] == "NAME"]
    print(len(sents), "sentences;", len(allu), "uses;", sum(1 for i in named if i in allu), "of", len(named), "named rules used", file=sys.stderr)
    missing = {NAMES[int(NODES[i][1])] for i in named if i not in allu} - {NAMES[int(NODES[i][1])] for i in named if i in allu}
    print("unused names:", sorted(missing), file=sys.stderr)
    left, picked = set(allu), []
    lim = int(sys.argv[1]) if len(sys.argv) > 1 else 12
    pool = [(w, u) for w, u in sents if len(w) <= lim]
    while left:
        w, u = max(pool, key=lambda x: (len(x[1] & left) / (2 + len(x[0])), -len(x[0])))
        if not u & left:
            break
        left -= u
        picked.append(w)
    print(len(picked), "picked, uncovered", len(left), file=sys.stderr)
    for w in picked:
        print(" ".join(w))
