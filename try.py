#!/usr/bin/env python3
"""Development aid: ./try.py FN PATTERN.. runs queries and prints verdicts and cost (ARGS as n,n,.. for numeric ones)."""
import concurrent.futures as cf, os, sys, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import build, runs
b = build.build()
fn, pats = sys.argv[1], sys.argv[2:]
lim = float(os.environ.get("T", 120)); smt = float(os.environ.get("SMT", 0))
work = "/tmp/try"; os.makedirs(work, exist_ok=True)
def go(i):
    p = pats[i]
    r = runs.R(fn, args=[int(x) for x in p[1:].split(",")], smt=smt, raw=fn == "h_or") if p.startswith("=") else runs.R(fn, p, smt=smt)
    return p, r, runs.one(b, r, work, f"{os.getpid()}-{i}", lim, int(os.environ.get("N", 60_000_000)))
with cf.ThreadPoolExecutor(int(os.environ.get("J", 6))) as ex:
    for p, r, x in ex.map(go, range(len(pats))):
        print(f"{fn} {p:28} {'ok' if x.complete else 'INCOMPLETE '+x.note} {x.exec_s:.1f}s nodes={x.nodes/1e6:.1f}M vcs={x.vcs} smt={x.smt and (round(x.solver_s,1), x.smt)}")
        for s in x.sat:
            cmd, lines, code = runs.replay(b, r, s["inputs"])
            print("    ", s["kind"], code, "; ".join(lines)[:200])
        sys.stdout.flush()
