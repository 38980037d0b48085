"""Decides one property: every obligation of every function the property depends on, from /repo's current sources.

usage: python3 -m vf.check <property> [--tier quick|thorough]
exit 0: every obligation discharged (and every bounded stand-in found nothing)
exit 1: a line 'VIOLATION property=<id> replay=<path> [no-failing-input-found]'"""
import json, os, re, sys, time, shutil, subprocess, tempfile, hashlib
from .cast import get_ast, VERIF, REPO, ExtractError
from .ctypes_ import TypeParser
from .tr import Unsupported
from .unit import Ctx, SpecError
from .handlers import HANDLERS
from .allspecs import SPECS
from .props import PROPS
from . import prove
from .theorycheck import theory_text, definitional_axioms
from .replay import run_replay
from concurrent.futures import ThreadPoolExecutor

T0 = time.time()
LIMIT = 780        # wall clock of one check


def theory_closure(uses):
    """theory modules (file_module) reachable from the 'use' lines"""
    txt = {}
    for fn in sorted(os.listdir(prove.THEORY)):
        if fn.endswith(".mlw"):
            for p in re.split(r"^(?=module )", open(os.path.join(prove.THEORY, fn)).read(), flags=re.M):
                m = re.match(r"module (\w+)", p)
                if m:
                    txt[fn[:-4] + "." + m.group(1)] = p
    seen, todo = set(), list(uses)
    while todo:
        u = todo.pop()
        if u in seen or u not in txt:
            continue
        seen.add(u)
        f = u.split(".")[0]
        for m in re.finditer(r"^\s*use (?:export )?([\w.]+)", txt[u], re.M):
            n = m.group(1)
            todo.append(n if "." in n else f + "." + n)
    # axioms seen through a module are proved in the modules named in its comment: those matter too
    return seen


def collect(ctx, prop, log):
    """units of the property and everything they call; failures of extraction as (key, reason)"""
    roots, failed = [], []
    for q, sp in SPECS.items():
        if prop not in sp.get("props", []):
            continue
        ds = ctx.ast.funcs.get(q, [])
        if sp.get("inst"):
            ds = [d for d in ds if re.search(sp["inst"], d["type"]["qualType"])]
        if not ds:
            if not sp.get("optional"):
                failed.append((q, "no function of this name in the sources"))
            continue
        for d in ds:
            try:
                roots.append(ctx.unit(d, sp))
            except (Unsupported, SpecError) as e:
                failed.append((q, str(e)))
            except Exception as e:      # a construct the translator does not know
                failed.append((q, "%s: %s" % (type(e).__name__, e)))
    seen, todo = {}, list(roots)
    while todo:
        u = todo.pop()
        if u.key in seen:
            continue
        seen[u.key] = u
        todo += list(u.deps.values())
    return list(seen.values()), failed


def contradictory(vacgoals):
    """guards refuted on every path that leads to them (one infeasible path alone is fine)"""
    by = {}
    for g in vacgoals:
        by.setdefault((g.fn, g.line), []).append(g)
    return [gs[0] for gs in by.values() if all(g.status == "valid" for g in gs)]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(l.strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    rc = 1
    try:
        rc = decide(prop, P, tier, seed, work)
    finally:
        prove.kill_all()
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(prop, P, tier, seed, work):
    failed = []          # (function, obligation, detail)
    goals, units = [], []
    ast = None
    if not P.get("bounded_only"):
        try:
            ast = get_ast(work)
        except ExtractError as e:
            failed.append(("translation unit", "extraction of the sources", str(e)))
    hints = {}
    hp = os.path.join(VERIF, "vf", "hints.json")
    if os.path.exists(hp):
        hints = json.load(open(hp))
    vacgoals, thgoals = [], []
    if ast is not None:
        tp = TypeParser(ast)
        ctx = Ctx(ast, tp, SPECS, HANDLERS)
        units, bad = collect(ctx, prop, print)
        for q, why in bad:
            failed.append((q, "contract of " + q, "not established: " + why))
        uses = set()
        prove.write_conf(work)
        jobs = []          # (kind, key, unit, name, text)
        for u in units:
            uses |= set(u.spec.get("use", []))
            try:
                txt, vt = u.module(), u.module(True)
            except Exception as e:
                failed.append((u.key, "contract of " + u.key, "not established: %s: %s" % (type(e).__name__, e)))
                continue
            jobs.append(("unit", u.key, u, u.name, txt))
            jobs.append(("vac", u.key, u, u.name + "_v", vt.replace("M_" + u.name, "M_" + u.name + "_v")))
        tc = theory_closure(uses | {"cft.All", "cft.Div"})
        files = {m.split(".")[0] for m in tc}
        for name, txt in theory_text():
            _, f, m = name.split("_", 2)
            if f in files:
                jobs.append(("theory", "theory %s.%s" % (f, m), None, name, txt))
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda j: prove.dump(work, j[3], j[4]), jobs))
        for (kind, key, u, name, txt), (gs, err) in zip(jobs, res):
            if kind == "vac":
                gs = [g for g in gs if "acuity" in g.expl]
                vacgoals += gs
            elif err:
                failed.append((key, ("contract of " if kind == "unit" else "lemmas of ") + key, "the contract does not fit the code: " + err))
            elif kind == "unit":
                if not gs:
                    failed.append((key, "contract of " + key, "no obligation was generated"))
                goals += gs
                u.ngoals = len(gs)
            else:
                thgoals += gs
            for g in gs:
                g.fn = key
    allg = goals + thgoals
    # replay reserve: leave time for the search of a failing input
    dl = T0 + (360 if tier == "quick" else 480)
    prove.prove_goals(allg, stages=prove.STAGES[:4], deadline=dl, hints=hints)
    bad = [g for g in allg if g.status != "valid"]
    if vacgoals and not bad and not failed:
        prove.prove_goals(vacgoals, stages=[("z3n", 1 if tier == "quick" else 5)])
        for g in contradictory(vacgoals):
            failed.append((g.fn, "vacuity guard", "the assumptions at line %s of the obligation file are contradictory" % g.line))
    bounded = []
    viol = None
    rep = None
    budget = P.get("bounded_s", 0)
    if bad or failed:
        r = run_replay(prop, P, seed, P.get("replay_s", 90), work)
        rep = r
        if r.failing:
            viol = r
        elif bad and not failed:
            # a second, slower attempt at the obligations that are left
            prove.prove_goals(bad, stages=prove.STAGES[4:] + [("z3n", 40), ("cvc5", 60)], deadline=T0 + 620, hints=None)
            bad = [g for g in allg if g.status != "valid"]
            if not bad and vacgoals:
                prove.prove_goals(vacgoals, stages=[("z3n", 1)])
                for g in contradictory(vacgoals):
                    failed.append((g.fn, "vacuity guard", "contradictory assumptions"))
            if bad:
                r = run_replay(prop, P, seed + 1000, min(P.get("replay_s", 90), max(10, LIMIT - (time.time() - T0))), work)
                if r.failing:
                    viol = r
    elif P.get("bounded"):
        rep = run_replay(prop, P, seed, budget if tier == "quick" else budget * 6, work)
        if rep.failing or rep.error:
            viol = rep
    for g in bad:
        failed.append((g.fn, g.expl, "%s\n%s" % (g.status, g.raw)))
    nviol = 1 if (failed or viol) else 0
    evidence(prop, P, tier, seed, units, goals, thgoals, vacgoals, failed, rep, nviol, ast)
    for l in known_findings(prop):
        print(l)
    if not nviol:
        print("%s: %d obligations of %d functions discharged, %d of the supporting theory%s, %.0f s" % (
            prop, len(goals), len(units), len(thgoals), "; bounded stand-in: %s runs" % rep.runs if rep else "", time.time() - T0))
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + ".txt")
    with open(rp, "w") as f:
        f.write("property %s: %s\n\n" % (prop, P["title"]))
        for fn, ob, det in failed:
            f.write("failed obligation: [%s] in %s\n%s\n\n" % (ob, fn, det))
        if viol and viol.failing:
            f.write("failing input (found on the real code):\n%s\n\nreproduce: %s\n" % (viol.failing, viol.cmd))
        elif rep and rep.error:
            f.write("the concrete search could not run:\n%s\n" % rep.error)
        elif rep:
            f.write("concrete search: %s runs, no failing input\n" % rep.runs)
        for g in bad[:3]:
            try:
                t = open(g.path).read()
                f.write("\n---- obligation sent to the solver (%s, %s), last part ----\n%s\n" % (g.fn, g.expl, t[-3000:]))
            except OSError:
                pass
    for fn, ob, det in failed[:8]:
        print("failed obligation: [%s] in %s: %s" % (ob, fn, det.split("\n")[0][:200]))
    tail = "" if (viol and viol.failing) else " no-failing-input-found"
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
    return 1


def evidence(prop, P, tier, seed, units, goals, thgoals, vacgoals, failed, rep, nviol, ast):
    by = {}
    for g in goals + thgoals:
        if g.status == "valid":
            by[g.solver] = by.get(g.solver, 0) + 1
    fns = []
    for u in units:
        gs = [g for g in goals if g.fn == u.key]
        fns.append({"function": u.key, "line": u.node.get("loc", {}).get("line") or u.node.get("loc", {}).get("expansionLoc", {}).get("line"),
                    "obligations": len(gs), "discharged": sum(g.status == "valid" for g in gs),
                    "solver_s": round(sum(g.time for g in gs), 2)})
    trusted = ["clang 18 (AST of the current sources)", "the translator vf/*.py (clang AST to WhyML; semantics of the C++ constructs it accepts)",
               "Why3 1.6.0 (obligation generation)", "z3 4.8.12 / z3-new / cvc5 1.1.2",
               "definitional axioms: " + ", ".join(definitional_axioms())] + P.get("trusted", [])
    assum = ["float arithmetic treated as real arithmetic", "memory allocation does not fail",
             "std containers and algorithms behave as the standard says (vector, array, sort, nth_element)",
             "the printing and timing code (fmt, Chrono) has no effect on the data"] + P.get("assumptions", [])
    n = len(goals) + len(thgoals) + len([f for f in failed])
    cov = {"obligations": len(goals) + len(thgoals), "discharged": sum(g.status == "valid" for g in goals + thgoals),
           "checker_cmd": "python3 -m vf.check %s" % prop, "trusted_base": trusted,
           "functions": fns, "theory_obligations": len(thgoals), "by_solver": by,
           "solver_s": round(sum(g.time for g in goals + thgoals), 1),
           "vacuity_guards": len(vacgoals), "vacuity_guards_refuted_or_open": sum(g.status != "valid" for g in vacgoals),
           "failed": ["%s: %s" % (f[0], f[1]) for f in failed],
           "bounded_stand_ins": P.get("bounded", [])}
    if rep:
        cov["concrete_runs"] = rep.runs
    if P.get("note"):
        cov["explanation"] = P["note"]
    if ast is not None:
        cov["extraction"] = ast.cmd
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": assum, "wall_s": round(time.time() - T0, 1), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(d, prop + ".json.tmp"), os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    main()
