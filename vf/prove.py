"""Obligation generation (Why3) and discharge (portfolio of SMT solvers)."""
import os, re, subprocess, time, signal, threading, shutil, hashlib, json
from concurrent.futures import ThreadPoolExecutor
from .cast import VERIF

THEORY = VERIF + "/vf/theory"
CONF = """[main]
magic = 14
memlimit = 4000
running_provers_max = 4
timelimit = 5.0

[partial_prover]
name = "Z3"
path = "%s"
version = "4.8.12"
"""


def which(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    return None


Z3 = which("z3")
Z3N = which("z3-new")
CVC5 = which("cvc5")


class Goal:
    __slots__ = ("unit", "path", "name", "line", "expl", "status", "solver", "time", "raw", "text", "fn")

    def __init__(self, unit, path):
        self.unit, self.path = unit, path
        self.status = "?"
        self.solver = None
        self.time = 0.0
        self.raw = ""


def write_conf(work):
    p = os.path.join(work, "why3.conf")
    if not os.path.exists(p):
        with open(p + ".nul", "w") as f:
            f.write(CONF % "/bin/true")
        with open(p + ".tmp", "w") as f:
            f.write(CONF % (Z3 or "/usr/bin/z3"))
        os.replace(p + ".tmp", p)
    return p


def dump(work, name, text, extra=()):
    """Run Why3 on the module text; returns (goals, error)."""
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    f = os.path.join(d, "m.mlw")
    open(f, "w").write(text)
    return dump_file(work, name, f, "M_" + name, extra)


def dump_file(work, name, f, module, extra=()):
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    conf = write_conf(work)
    out = os.path.join(d, "o")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = ["why3", "prove", "-C", conf, "-L", THEORY, "-P", "Z3,4.8.12,", "-a", "split_vc", "-o", out, f,
           "-T", module, *extra]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    err = None
    if p.returncode != 0:
        return [], "\n".join(l for l in p.stdout.split("\n") if not l.startswith("Warning"))[-3000:]
    goals = []
    for fn in sorted(os.listdir(out), key=lambda s: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", s[:-5])]):
        goals.append(Goal(name, os.path.join(out, fn)))
    # names of the obligations, in the same order
    nul = conf + ".nul"
    cmd2 = ["why3", "prove", "-C", nul, "-L", THEORY, "-P", "Z3,4.8.12,", "-a", "split_vc", "-t", "1", f, "-T", module]
    p2 = subprocess.run(cmd2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    queues = {}
    for m in re.finditer(r'^File "?([^",]*)"?, lines? ([\d-]+)[^\n]*:\n(?:Sub-goal|Goal)\s+(.*?)\nProver result', p2.stdout, re.M | re.S):
        nm = re.sub(r"\s+", " ", m.group(3)).strip().rstrip(".")
        of = re.search(r"(?:^| of goal )(\S+)$", nm)
        q = of.group(1).replace("'", "qt") if of else "?"
        queues.setdefault(q, []).append((int(m.group(2).split("-")[0]), re.sub(r"( of goal \S+)+$", "", nm).strip()))
    for g in goals:
        base = os.path.basename(g.path)[:-5].split("-", 2)[-1]
        gn = base if base in queues else re.sub(r"\d+$", "", base)
        if queues.get(gn):
            g.line, g.expl = queues[gn].pop(0)
            if g.expl == gn:
                g.expl = base
        else:
            g.line, g.expl = 0, "obligation " + base
        g.name = g.expl
    return goals, err


CFG = {
    "z3n": lambda t: [Z3N, "-smt2", "-T:%d" % max(1, int(t + 1))],
    "z3": lambda t: [Z3, "-smt2", "-T:%d" % max(1, int(t + 1))],
    "cvc5": lambda t: [CVC5, "--lang=smt2", "--tlimit=%d" % int(t * 1000)],
    "cvc5e": lambda t: [CVC5, "--lang=smt2", "--enum-inst", "--tlimit=%d" % int(t * 1000)],
}


def variants(path):
    """cvc5 needs a logic that it knows"""
    p = path[:-5] + ".cvc5.smt2"
    if not os.path.exists(p):
        s = open(path).read()
        s = re.sub(r"^\(set-logic [^)]*\)", "(set-logic ALL)", s, flags=re.M)
        if "(set-logic" not in s:
            s = "(set-logic ALL)\n" + s
        open(p, "w").write(s)
    return p


_procs = set()
_plock = threading.Lock()
MEM = int(os.environ.get("VF_MEM_KB", "6000000"))


def run_solver(kind, path, t):
    if kind.startswith("cvc5"):
        path = variants(path)
    elif kind == "z3n-mbqi":
        pass
    cmd = CFG[kind](t) + [path]
    t0 = time.time()
    sh = ["bash", "-c", "ulimit -v %d; exec \"$@\"" % MEM, "x"] + cmd
    try:
        p = subprocess.Popen(sh, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    except OSError as e:
        return "error", 0.0, str(e)
    with _plock:
        _procs.add(p)
    try:
        out, _ = p.communicate(timeout=t + 3)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        out = "timeout"
    finally:
        with _plock:
            _procs.discard(p)
    dt = time.time() - t0
    first = out.strip().split("\n")[0] if out.strip() else ""
    if first == "unsat":
        return "valid", dt, out
    if first == "sat":
        return "invalid", dt, out
    if first in ("unknown",):
        return "unknown", dt, out
    if "timeout" in out or not out.strip() or "interrupted" in out:
        return "timeout", dt, out
    return "error", dt, out[:2000]


def kill_all():
    with _plock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


STAGES = [("z3n", 2), ("cvc5", 3), ("z3", 4), ("z3n", 12), ("cvc5", 20), ("cvc5e", 15), ("z3", 30)]


def prove_goals(goals, stages=STAGES, jobs=8, deadline=None, progress=None, hints=None, stop_on_fail=False):
    """Try the solvers in turn on every goal.  Results are stored in the goals."""
    pending = [g for g in goals if g.status != "valid"]
    lock = threading.Lock()
    stop = [False]

    def one(g, seq):
        for kind, t in seq:
            if stop[0]:
                return
            if deadline is not None:
                left = deadline - time.time()
                if left < 1:
                    return
                t = min(t, left)
            st, dt, out = run_solver(kind, g.path, t)
            g.time += dt
            if st == "valid":
                g.status, g.solver, g.raw = "valid", kind, ""
                if progress:
                    progress(g)
                return
            g.raw = "%s: %s\n%s" % (kind, st, out[:400])
            g.status = st
        if stop_on_fail:
            stop[0] = True

    def seq_for(g, sub):
        h = (hints or {}).get(goal_key(g))
        if h and h in CFG:
            return [(h, 8)] + [s for s in sub if s[0] != h] + [s for s in sub if s[0] == h]
        return sub
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        # first quick stages for all goals, then the longer ones for what is left
        for sub in (stages[:2], stages[2:4], stages[4:]):
            if not sub:
                continue
            todo = [g for g in pending if g.status != "valid"]
            list(ex.map(lambda g: one(g, seq_for(g, sub)), todo))
            if deadline is not None and time.time() > deadline:
                break
    return [g for g in goals if g.status != "valid"]


def goal_key(g):
    return g.unit + "/" + os.path.basename(g.path)
