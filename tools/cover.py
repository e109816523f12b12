#!/usr/bin/env python3
"""One-off: sentences of token categories that use every part of the reference grammar in every place it occurs
(each element of a rule filled, each optional one left out, each repetition twice, each alternative), generated from
the table itself.  Writes the chosen ones to covers.txt; checks never run this."""
import os, random, re, sys
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pick
from pick import KIDS, NODES, NAMES, cat, ROOT
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class U(pick.G):
    """uses: (place in a rule, filled / empty / repeated), (alternative)"""
    def go(self, n, p):
        k, a, b = NODES[n]
        E = frozenset()
        if k == "SEQ":
            u = set()
            for i in range(int(a), int(a) + int(b)):
                e, x = self.run(KIDS[i], p)
                if e in ("F", "X"):
                    return e, E
                kk = NODES[KIDS[i]][0]
                if kk in ("OPT", "MANY0", "MANY1", "ALT", "NAME", "SEQ", "MUST"):
                    u.add((i, "+" if e > p else "0"))
                    if kk in ("MANY0", "MANY1") and self.cnt.get((KIDS[i], p), 0) > 1:
                        u.add((i, "2"))
                elif kk == "TOK":
                    u.add((i, "+"))
                p, u = e, u | x
            return p, frozenset(u)
        if k == "ALT":
            for i in range(int(a), int(a) + int(b)):
                e, x = self.run(KIDS[i], p)
                if e != "F":
                    return e, (x | {(i, "a")} if e != "X" else x)
            return "F", E
        if k == "OPT":
            e, x = self.run(int(a), p)
            return (p, E) if e == "F" else (e, x)
        if k in ("MANY0", "MANY1"):
            u, c, q = E, 0, p
            while True:
                e, x = self.run(int(a), p)
                if e == "X" or (e == "F" and c == 0 and k == "MANY1"):
                    return e, E
                if e == "F":
                    self.cnt[(n, q)] = c
                    return p, u
                if e == p:
                    return "F", E
                p, u, c = e, u | x, c + 1
        if k == "NAME":
            return self.run(int(b), p)
        if k == "TILL":
            u = E
            while True:
                e, x = self.run(int(b), p)
                if e != "F":
                    return e, u | x
                e, x = self.run(int(a), p)
                if e in ("F", "X"):
                    return e, E
                p, u = e, u | x
        return super().go(n, p)


def parse(w):
    g = U(w)
    g.cnt = {}
    e, u = g.run(ROOT, 0)
    return u if e == len(w) else None


INF = 999
kids_of = {}
for n, (k, a, b) in enumerate(NODES):
    kids_of[n] = ([(i, KIDS[i]) for i in range(int(a), int(a) + int(b))] if k in ("SEQ", "ALT") else [(None, int(b))] if k == "NAME"
                  else [(None, int(a)), (None, int(b))] if k == "TILL" else [(None, int(a))] if k in ("OPT", "MANY0", "MANY1", "CUT", "MUST") else [])
# least number of tokens, and least number above none
least, some = [INF] * len(NODES), [INF] * len(NODES)
for _ in range(60):
    for n, (k, a, b) in enumerate(NODES):
        ks = [c for _, c in kids_of[n]]
        if k in ("TOK", "ANY", "LEAF", "BUINNER"):
            l = s = 1
        elif k == "SEQ":
            l = sum(least[c] for c in ks)
            s = l if l > 0 else min([some[c] for c in ks] + [INF])
        elif k == "ALT":
            l, s = min(least[c] for c in ks), min(some[c] for c in ks)
        elif k in ("OPT", "MANY0"):
            l, s = 0, some[ks[0]]
        elif k == "NOT":
            l, s = 0, INF
        elif k == "TILL":
            l = s = least[ks[1]]
        else:
            l, s = least[ks[0]], some[ks[0]]
        least[n], some[n] = min(least[n], l), min(some[n], s)
WORDS = "Koha Gismu Ui Nai Y Cmevla By Pa".split()


def gen(n, r, must, budget):
    """a derivation of n; must: a list of nodes/slots [(slot, mode)..] to go through, outermost first"""
    k, a, b = NODES[n]
    if k == "TOK":
        return [cat(a)]
    if k in ("ANY", "BUINNER"):
        return [r.choice(WORDS)]
    if k == "LEAF":
        return ["ZoiDelimiter" if b == "999" else cat(b)]
    if k == "NOT":
        return []
    ks = kids_of[n]
    if must and must[0][0] == ("n", n):
        step = must[0][1]
        rest = must[1:]
    else:
        step, rest = None, None
    if k == "SEQ":
        out = []
        for i, c in ks:
            if step and step[0] == i:
                if not rest and step[1] == "0":
                    continue
                if not rest and step[1] == "2":
                    x = NODES[c]
                    out += gen(int(x[1]), r, [], budget) + gen(int(x[1]), r, [], budget)
                elif not rest and step[1] == "+":
                    out += filled(c, r, budget)
                else:
                    out += gen(c, r, rest, budget)
            else:
                out += gen(c, r, [], budget)
        return out
    if k == "ALT":
        if step:
            return gen(step_kid(ks, step[0]), r, rest, budget)
        w = sorted((c for _, c in ks if least[c] < INF), key=lambda c: least[c])
        c = w[0] if r.random() < budget else r.choice(w if r.random() < .3 else [c for c in w if least[c] <= least[w[0]] + 1])
        return gen(c, r, [], budget)
    if k in ("OPT", "MANY0"):
        if step:
            return gen(ks[0][1], r, rest, budget)
        return gen(ks[0][1], r, [], min(1, budget + .1)) if r.random() > budget and some[ks[0][1]] < 4 and r.random() < .2 else []
    if k == "TILL":
        return gen(ks[1][1], r, [], budget)
    return gen(ks[0][1], r, rest if step else [], budget)


def step_kid(ks, i):
    for j, c in ks:
        if j == i:
            return c


def filled(n, r, budget):
    """a non-empty derivation"""
    k = NODES[n][0]
    if least[n] > 0:
        return gen(n, r, [], budget)
    ks = kids_of[n]
    if k in ("SEQ",):
        c0 = [i for i, c in ks if some[c] < INF]
        best = min(some[c] for i, c in ks)
        c1 = [i for i, c in ks if some[c] == best]
        t = r.choice(c1 if r.random() < .6 else c0)
        out = []
        for i, c in ks:
            out += filled(c, r, budget) if i == t else gen(c, r, [], 1)
        return out
    if k == "ALT":
        c = [c for i, c in ks if some[c] < INF]
        m = min(some[x] for x in c)
        return filled(r.choice([x for x in c if some[x] <= m + 1]), r, budget)
    return filled(ks[0][1], r, budget)


# all ways from the root: for every node, some short paths to it
paths = {ROOT: [[]]}
cost = {ROOT: 0}
import heapq
h = [(0, 0, ROOT)]
best = {}
cnt = 0
LIM = 6
pathsof = {}
heap = [(0, 0, ROOT, ())]
while heap:
    c, _, n, path = heapq.heappop(heap)
    l = pathsof.setdefault(n, [])
    if len(l) >= LIM:
        continue
    l.append(path)
    if len(path) > 90:
        continue
    for i, ch in kids_of[n]:
        if NODES[n][0] == "NOT":
            continue
        w = c + .01
        if NODES[n][0] == "SEQ":
            w += sum(least[x] for j, x in kids_of[n] if j != i)
        if w > 16:
            continue
        cnt += 1
        heapq.heappush(heap, (w, cnt, ch, path + ((("n", n), (i, "via")),)))


def job(t):
    (n, i, m) = t
    r = random.Random(hash((n, str(i), m, 7)))
    best = None
    key = (i, m)
    for k in range(220):
        ps = pathsof.get(n, [])
        if not ps:
            return key, None
        path = list(ps[k % len(ps)] if k > 20 else ps[0])
        try:
            w = gen(ROOT, r, path + [(("n", n), (i, m))], .97 if k < 30 else .8 if k < 120 else .6)
        except (RecursionError, KeyError):
            continue
        if len(w) > 16 or (best and len(w) >= len(best)):
            continue
        u = parse(w)
        if u is not None and key in u:
            best = w
    return key, best


def lex_ok(w):
    """quotes come out of the lexer with their delimiters; the parser is also given others, which is fine"""
    return True


if __name__ == "__main__":
    targets = []
    for n, (k, a, b) in enumerate(NODES):
        if n not in pathsof:
            continue
        for i, c in kids_of[n]:
            if k == "SEQ":
                kk = NODES[c][0]
                if kk == "NOT":
                    continue
                if kk in ("OPT", "MANY0", "MANY1", "ALT", "NAME", "SEQ", "MUST", "TOK"):
                    targets.append((n, i, "+"))
                    if kk in ("MANY0", "MANY1"):
                        targets.append((n, i, "2"))
                    if least[c] == 0:
                        targets.append((n, i, "0"))
            elif k == "ALT":
                targets.append((n, i, "a"))
    print(len(targets), "targets", file=sys.stderr)
    sents = {}
    for l in open(os.path.join(HERE, "templates.txt")):
        w = tuple(l.split("\t")[0].split())
        sents[w] = parse(w)
    done = frozenset().union(*[u for u in sents.values() if u])
    todo = [t for t in targets if (t[1], t[2]) not in done]
    print(len(todo), "not in the templates", file=sys.stderr)
    with Pool(8) as pool:
        res = pool.map(job, todo, chunksize=8)
    miss = [k for k, w in res if w is None]
    new = {tuple(w): parse(w) for k, w in res if w}
    print(len(miss), "not reached;", len(new), "sentences", file=sys.stderr)
    names = {}
    owner = {}
    for n, (k, a, b) in enumerate(NODES):
        for i, c in kids_of[n]:
            owner[i] = n
    up = {}
    for n, (k, a, b) in enumerate(NODES):
        if k == "NAME":
            up[int(b)] = NAMES[int(a)]
    for i, m in miss:
        print("  missing", m, up.get(owner[i], owner[i]), i - kids_of[owner[i]][0][0], file=sys.stderr)
    want = {(t[1], t[2]) for t in todo} - set(miss)
    left, out = set(want), []
    while left:
        w, u = max(new.items(), key=lambda x: (len(x[1] & left) / (2 + len(x[0])), -len(x[0])))
        if not u & left:
            break
        left -= u
        out.append(w)
    print(len(out), "chosen", file=sys.stderr)
    for w in out:
        print(" ".join(w))
