"""Run the queries of a property, judge them, and describe what was covered."""
import concurrent.futures as cf
import json
import os
import re
import resource
import shlex
import subprocess
import threading
import time

from . import solver

STUBS = "5local,LocalKey,4Cell,4with,5rules"
OVERRIDE = "WithLocation,ParseError,2or=vh_override_or"


class R:
    """One query: harness function, input pattern or numeric arguments, and its limits."""

    def __init__(self, fn, pat=None, args=None, tier="quick", core=False, time=None, smt=0, cover=(), weight=1, ids=None, panics="violation", raw=False):
        """`ids`: the assertions this property owns (all when None); `panics`: violation, ignore (another property owns them) or required"""
        self.fn, self.pat, self.tier, self.core = fn, pat, tier, core
        self.args = args if args is not None else pack(pat or "")
        self.time, self.smt, self.cover, self.weight = time, smt, tuple(cover), weight
        self.ids, self.panics = ids, panics
        self.raw = raw  # without the override of WithLocation::or

    @property
    def label(self):
        return f"{self.fn} {self.pat if self.pat is not None else ','.join(map(str, self.args))}"


def pack(p):
    b = p.encode()
    assert len(b) <= 32, p
    b = b.ljust(32, b"\0")
    return [int.from_bytes(b[i * 8:i * 8 + 8], "little") for i in range(4)]


class Result:
    def __init__(self, run):
        self.run, self.complete, self.note = run, False, ""
        self.vcs = self.trivial = self.nodes = self.steps = self.calls = self.summaries = 0
        self.exec_s = self.solver_s = 0.0
        self.sat, self.smt, self.names, self.j = [], {}, [], None
        self.smt_tool = None


def one(built, run, work, idx, tlimit, nodes):
    res = Result(run)
    js = os.path.join(work, f"{idx}.json")
    smt = os.path.join(work, f"{idx}.smt2")
    cmd = [built.irsym, built.ll, run.fn, *map(str, run.args), "--json", js, "--time", str(int(tlimit)), "--nodes", str(nodes),
           "--stub", STUBS, *([] if run.raw else ["--override", OVERRIDE])]
    if run.smt:
        cmd += ["--smt", smt, "--smt-max", "300000"]
    if os.path.exists(js):
        os.unlink(js)

    def pre():
        resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=pre, timeout=tlimit + 30)
        code = p.returncode
    except subprocess.TimeoutExpired:
        code = "timeout"
    if not os.path.exists(js):
        res.note = f"engine ended with {code}"
        res.exec_s = time.time() - t
        return res
    j = json.load(open(js))
    res.j = {k: v for k, v in j.items() if k not in ("names", "input_vars")}
    res.exec_s = j["exec_s"]
    res.vcs, res.trivial, res.nodes, res.steps = j["vcs"], j["trivial"], j["nodes"], j["steps"]
    res.calls, res.summaries, res.names, res.sat = j["calls"], j["summaries"], j["names"], j["sat"]
    res.complete = j["abort"] is None
    if not res.complete:
        res.note = j["abort"].split(" at ")[0][:200]
    if run.smt and j["smt"] and res.complete:
        left = min(run.smt, max(5, tlimit - res.exec_s))
        t = time.time()
        res.smt, res.smt_tool = solver.ask(smt, j["smt"]["groups"], left)
        res.solver_s = time.time() - t
        for g in j["smt"]["groups"]:
            want = "sat" if g["sat"] else "unsat"
            got = res.smt.get(g["name"], "unknown")
            if got in ("sat", "unsat") and got != want:
                if g["sat"] or not g["dropped"]:
                    res.note = f"solver says {got} on {g['name']}, simplifier says {want}"
                    res.complete = False
    if os.path.exists(smt):
        os.unlink(smt)
    return res


def execute(built, todo, work, tier, end):
    workers = int(os.environ.get("VERIF_JOBS", 8 if tier == "quick" else 5))
    nodes = 45_000_000 if tier == "quick" else 120_000_000
    default = 150 if tier == "quick" else 3000
    out = [None] * len(todo)
    order = sorted(range(len(todo)), key=lambda i: (not todo[i].core, -todo[i].weight))

    def job(i):
        r = todo[i]
        left = end - time.time()
        if left < 5:
            res = Result(r)
            res.note = "not started: out of time"
            return i, res
        return i, one(built, r, work, i, min(r.time or default, left), nodes)

    with cf.ThreadPoolExecutor(workers) as ex:
        for i, res in ex.map(job, order):
            out[i] = res
    return out


def load_known(path, pid):
    """lines: KNOWN property=ID fn=NAME text="..." kind=KIND  -- or `fixed:` records, which suppress nothing"""
    known = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN ") and f"property={pid} " in line:
                d = dict(x.split("=", 1) for x in shlex.split(line[6:]))
                known.append(d)
    return known


class Outcome:
    def __init__(self):
        self.lines, self.violations, self.errors, self.replayed, self.samples = [], 0, 0, 0, []


def replay(built, run, inputs, timeout=120):
    cmd = [built.replay, run.fn, *map(str, run.args), "--", *map(str, inputs)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return cmd, p.stdout.splitlines(), p.returncode
    except subprocess.TimeoutExpired:
        return cmd, ["TIMEOUT"], -1


def judge(built, pid, results, known, work):
    o = Outcome()
    n = 0
    for res in results:
        r = res.run
        covered = set()
        for s in res.sat:
            kind = s["kind"]
            if kind.startswith("assert:"):
                if r.ids is not None and int(kind[7:]) not in r.ids:
                    continue
            elif not kind.startswith("cover:") and r.panics == "ignore":
                continue
            cmd, lines, code = replay(built, r, s["inputs"])
            shown = "; ".join(x[6:] for x in lines if x.startswith("INPUT"))
            if kind.startswith("cover:"):
                if f"COVER {kind[6:]}" in lines:
                    covered.add(int(kind[6:]))
                    o.replayed += 1
                    if len(o.samples) < 12:
                        o.samples.append({"run": r.label, "kind": kind, "input": shown})
                else:
                    o.errors += 1
                    o.lines.append(f"ERROR {r.label}: witness of {kind} does not replay ({shown}: {lines[-1:]})")
                continue
            if kind.startswith("assert:"):
                hit = f"ASSERT {kind[7:]}" in lines
                what = kind
            else:
                hit = any(x.startswith("PANIC") for x in lines) or (code is not None and code < 0 and lines != ["TIMEOUT"])
                what = next((x for x in lines if x.startswith("PANIC")), kind)
            if not hit:
                # a different failure of the same input still is a failure of the real code
                hit = any(x.startswith(("ASSERT", "PANIC")) for x in lines)
                what = next((x for x in lines if x.startswith(("ASSERT", "PANIC"))), what)
            if not hit:
                o.errors += 1
                o.lines.append(f"ERROR {r.label}: counterexample of {kind} does not replay ({shown}: {lines[-1:]})")
                continue
            o.replayed += 1
            k = next((k for k in known if k.get("fn") == r.fn and k.get("input") == shown), None)
            if k:
                line = f"KNOWN-FINDING: property={pid} {r.fn} {shown} {what}"
                if line not in o.lines:
                    o.lines.append(line)
                continue
            n += 1
            path = os.path.join(built.dir, f"replay-{pid}-{n}.sh")
            with open(path, "w") as f:
                f.write("#!/bin/sh\n# " + (shown or r.label) + " -> " + what.replace("\n", " ") + "\nexec " + " ".join(map(shlex.quote, cmd)) + "\n")
            os.chmod(path, 0o755)
            if o.violations < 20:
                o.lines.append(f"VIOLATION property={pid} replay={path}")
                o.lines.append(f"  {r.label}: {what} on {shown}")
            o.violations += 1
        if not res.complete:
            msg = f"{r.label}: not completed ({res.note})"
            if r.core or "solver says" in res.note:
                o.errors += 1
                o.lines.append("ERROR " + msg)
            else:
                o.lines.append("note: " + msg)
        else:
            for c in r.cover:
                if c not in covered:
                    o.errors += 1
                    o.lines.append(f"ERROR {r.label}: cover point {c} not reached, the check would be vacuous")
    return o


def demangle(names):
    """crate::path tails of v0-mangled names (shortened for the report)"""
    r = set()
    for s in names:
        parts = []
        for m in re.finditer(r"(?<![0-9A-Za-z_])?(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", s):
            k = int(m.group(1))
            t = s[m.start(2):m.start(2) + k]
            if len(t) == k and k > 1:
                parts.append(t)
        if parts:
            r.add("::".join(parts[:4])[:90])
    return sorted(r)


def evidence(pid, prop, tier, seed, results, out, built, wall):
    names = set()
    for r in results:
        names.update(r.names)
    smt = {"unsat": 0, "sat": 0, "unknown": 0}
    for r in results:
        for v in r.smt.values():
            smt[v] += 1
    rows = []
    for r in results:
        rows.append({"run": r.run.label, "completed": r.complete, "note": r.note, "verification_conditions": r.vcs,
                     "discharged_syntactically": r.trivial, "bdd_nodes": r.nodes, "blocks_executed": r.steps, "function_summaries": r.summaries,
                     "seconds": r.exec_s, "smt_verdicts": r.smt, "smt_seconds": round(r.solver_s, 2)})
    done = [r for r in results if r.complete]
    return {
        "property": pid, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "states": sum(r.summaries for r in results),
            "transitions": sum(r.steps for r in results),
            "traces_validated_against_impl": out.replayed,
            "samples": out.samples or [{"run": r.run.label} for r in results[:3]],
            "explanation": "Bounded symbolic execution of the LLVM IR that rustc emits for the current /repo. `states` counts distinct symbolic "
                           "function instances (each stands for every input of the run at once), `transitions` symbolic basic-block executions, "
                           "`traces_validated_against_impl` solver witnesses replayed natively.",
            "bounds": prop.bounds,
            "runs": rows,
            "runs_completed": len(done), "runs_total": len(results),
            "queries": sum(r.vcs for r in results),
            "engine_seconds": round(sum(r.exec_s for r in results), 2),
            "smt_groups": smt, "smt_seconds": round(sum(r.solver_s for r in results), 2),
            "smt_solver": next((solver.version(r.smt_tool) for r in results if r.smt_tool), None),
            "repo_functions_encoded": len(names), "repo_functions": demangle(names)[:400],
            "source_hash": built.hash[:16],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2), "violations": out.violations,
    }
