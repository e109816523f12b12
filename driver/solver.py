"""Ask an SMT solver for its own verdict on the exported verification conditions."""
import re
import shutil
import subprocess


def version(tool):
    try:
        return subprocess.run([tool, "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0]
    except OSError:
        return tool


def ask(path, groups, timeout):
    """{group: 'unsat'|'sat'|'unknown'}, model (list of bools per queried literal), solver used"""
    z3 = shutil.which("z3-new") or "z3"
    cmds = [[z3, "-smt2", f"-T:{int(timeout)}", "-memory:6000", path],
            ["cvc5", "--incremental", f"--tlimit={int(timeout * 1000)}", path]]
    procs = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for c in cmds[:1]]
    out, _ = procs[0].communicate()
    res = {}
    cur = None
    for line in out.splitlines():
        line = line.strip()
        m = re.fullmatch(r'"?Q (.*?)"?', line)
        if m:
            cur = m.group(1)
        elif cur and line in ("sat", "unsat", "unknown", "timeout"):
            res.setdefault(cur, line if line != "timeout" else "unknown")
    for g in groups:
        res.setdefault(g["name"], "unknown")
    return res, cmds[0][0]
