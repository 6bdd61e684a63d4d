#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree: generates and
discharges the proof obligations of the contracts the property rests on,
and runs the bounded stand-ins.  Exit 0 or 1 (with a VIOLATION line).
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("PYVC_REPO", "/repo")

CPU_LIMIT = 150          # CPU seconds one bounded task may take


class TaskTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise TaskTimeout()


def from_repo(exc):
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.realpath(last).startswith(
        os.path.realpath(REPO) + os.sep)


def run_bounded(task):
    mod, fn, args = task
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        st, viol = getattr(importlib.import_module(mod), fn)(*args)
        return dict(task=task, stats=st, violations=viol, undecided=None)
    except TaskTimeout:
        return dict(task=task, stats=None, undecided=None, violations=[
            {"what": "did not terminate within %d CPU seconds" % CPU_LIMIT}])
    except Exception as e:                 # pylint: disable=broad-except
        text = traceback.format_exc()
        if from_repo(e):
            return dict(task=task, stats=None, undecided=None, violations=[
                {"what": "internal exception escapes: " + text[-1500:]}])
        return dict(task=task, stats=None, violations=[],
                    undecided=text[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_deduct(task):
    name, prop = task
    from specs import registry
    try:
        r = registry.run_target(name, prop)
    except Exception:                      # pylint: disable=broad-except
        return dict(name=name, status="error",
                    reason=traceback.format_exc()[-1000:], obligations=[],
                    function="", seconds=0, solver_s=0, contracts={},
                    covered={}, paths=0)
    return dict(name=name, status=r.status, reason=r.reason,
                function=r.function, paths=r.paths,
                seconds=r.seconds, solver_s=r.solver_s,
                contracts=r.contracts, covered=r.covered,
                obligations=[(o.name, o.line, o.status,
                              None if o.model is None else str(o.model),
                              o.backend, o.kind) for o in r.obligations])


def run_task(t):
    if t[0] == "deduct":
        return ("deduct", run_deduct(t[1:]))
    return ("bounded", run_bounded(t[1:]))


def load_known():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p, encoding="UTF-8") as fd:
            for l in fd:
                if l.startswith("KNOWN-FINDING: "):
                    head, _, key = l.strip().partition(" key=")
                    prop = head.split("property=")[1].split()[0]
                    out.append((prop, head, key))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from plan import PLAN
    plan = PLAN[prop]
    tmp = tempfile.mkdtemp(prefix="trlcverif-" + prop)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        rc = decide(prop, tier, seed, plan, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def pool_map(tasks, deadline):
    """Results of all tasks; a worker that dies costs only its task"""
    ctx = multiprocessing.get_context("fork")
    out = []
    if not tasks:
        return out
    n = min(os.cpu_count() or 4, 8)
    with ctx.Pool(n, maxtasksperchild=None) as pool:
        pend = [(t, pool.apply_async(run_task, (t,))) for t in tasks]
        for t, p in pend:
            try:
                out.append(p.get(max(1.0, deadline - time.time())))
            except multiprocessing.TimeoutError:
                out.append(("late", t))
            except Exception:              # pylint: disable=broad-except
                out.append(("late", t))
        pool.terminate()
    return out


def decide(prop, tier, seed, plan, t0):
    bounded = list(plan["bounded"](seed, tier)) if plan.get("bounded") else []
    deduct = []
    load_error = None
    if plan["level"] == "proof" or plan.get("deduct"):
        try:
            from specs import registry
            deduct = registry.names_for(prop)
        except Exception:                  # pylint: disable=broad-except
            load_error = traceback.format_exc()[-1500:]
    tasks = [("deduct", n, prop) for n in deduct] + \
        [("bounded",) + t for t in bounded]
    limit = 600 if tier == "quick" else 840
    res = pool_map(tasks, t0 + limit)

    ev = collect(prop, plan, res)
    known = [k for k in load_known() if k[0] == prop]
    viols, shown = [], []
    for v in ev["violations"]:
        key = str(v.get("key", ""))
        hit = [k for k in known if key and k[2] == key]
        if hit:
            if hit[0] not in shown:
                shown.append(hit[0])
        else:
            viols.append(v)
    for p, head, _ in shown:
        print(head)

    lines = []
    rdir = os.path.join(HERE, "replays")
    for v in viols[:3]:
        os.makedirs(rdir, exist_ok=True)
        blob = json.dumps(v, indent=1, default=str, sort_keys=True)
        h = hashlib.sha1(blob.encode()).hexdigest()[:10]
        p = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(p, "w", encoding="UTF-8") as fd:
            fd.write(blob + "\n")
        print("  " + str(v.get("what"))[:400].replace("\n", "\n  "))
        if v.get("expression"):
            print("    expression: %s  object: %s" % (
                v["expression"], v.get("object")))
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
    if not viols and ev["refuted"]:
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-obligations.json" % prop)
        with open(p, "w", encoding="UTF-8") as fd:
            json.dump(ev["refuted"], fd, indent=1)
        for r in ev["refuted"][:5]:
            print("  obligation fails: %s: %s (line %s)" % (
                r["target"], r["obligation"], r["line"]))
        lines.append("VIOLATION property=%s replay=%s "
                     "no-failing-input-found" % (prop, p))
    elif viols and ev["refuted"]:
        for r in ev["refuted"][:5]:
            print("  obligation also fails: %s: %s (line %s)" % (
                r["target"], r["obligation"], r["line"]))
    for l in lines:
        print(l)
    write_evidence(prop, tier, seed, plan, ev, load_error, t0,
                   len(viols) or len(ev["refuted"]))
    d = ev["counts"]
    print("%s %s: %d/%d obligations discharged in %d functions, "
          "%d bounded evaluations, %d undecided, %.1fs" % (
              prop, tier, d["discharged"], d["obligations"],
              len(ev["functions"]), d["evaluations"], d["undecided"],
              time.time() - t0))
    if lines:
        return 1
    if d["bounded_tasks"] and not d["evaluations"]:
        print("no bounded task gave an answer: " + str(ev["undecided"][:1]))
        return 2
    return 0


def collect(prop, plan, res):
    ev = dict(violations=[], refuted=[], functions={}, contracts={},
              open=[], undecided=[], distinct=set(), samples=[], detail={},
              targets=[])
    c = dict(obligations=0, discharged=0, evaluations=0, undecided=0,
             solver_s=0.0, z3=0, cvc5=0, bounded_tasks=0, refuted=0,
             unknown=0)
    for kind, r in res:
        if kind == "late":
            ev["undecided"].append("no result in time: %r" % (r,))
        elif kind == "deduct":
            c["solver_s"] += r["solver_s"]
            ev["contracts"].update(r["contracts"])
            f = ev["functions"].setdefault(r["function"], [0, 0])
            ev["targets"].append(
                "%s: %s, %d paths, %d obligations, coverage %s" % (
                    r["name"], r["status"], r["paths"],
                    len(r["obligations"]), r["covered"]))
            if r["status"] != "ok":
                ev["open"].append("%s: %s: %s" % (r["name"], r["status"],
                                                  r["reason"]))
            for name, line, st, model, backend, okind in r["obligations"]:
                c["obligations"] += 1
                f[0] += 1
                if st == "discharged":
                    c["discharged"] += 1
                    f[1] += 1
                    c["cvc5" if backend == "cvc5" else "z3"] += 1
                elif st == "refuted" and (r["status"] == "ok" or (
                        "time budget" in str(r["reason"]))):
                    c["refuted"] += 1
                    ev["refuted"].append(dict(
                        target=r["name"], function=r["function"],
                        obligation=name, line=line, model=model,
                        backend=backend))
                else:
                    c["unknown"] += 1
                    ev["open"].append("%s: %s (line %s): %s" % (
                        r["name"], name, line, st))
        else:
            c["bounded_tasks"] += 1
            if r["undecided"]:
                ev["undecided"].append("%r: %s" % (r["task"],
                                                   r["undecided"]))
            for v in r["violations"]:
                v.setdefault("task", list(r["task"]))
                ev["violations"].append(v)
            st = r["stats"]
            if st:
                c["evaluations"] += st["evaluations"]
                ev["distinct"] |= set(st["distinct"])
                if len(ev["samples"]) < 6:
                    ev["samples"] += list(st["samples"])[:2]
                for k, n in st.get("detail", {}).items():
                    ev["detail"][k] = ev["detail"].get(k, 0) + n
    c["undecided"] = len(ev["undecided"]) + len(ev["open"])
    ev["counts"] = c
    return ev


def write_evidence(prop, tier, seed, plan, ev, load_error, t0, nviol):
    from plan import COMMON_TRUST, COMMON_ASSUME
    c = ev["counts"]
    level = plan["level"]
    bounded = {
        "label": "bounded, not counted as proved",
        "evaluations": c["evaluations"],
        "distinct_nontrivial": len(ev["distinct"]),
        "rule": plan.get("rule", ""),
        "samples": ev["samples"],
        "detail": ev["detail"],
        "tasks": c["bounded_tasks"],
    }
    cov = {}
    if level == "proof":
        cov.update(
            obligations=c["obligations"], discharged=c["discharged"],
            checker_cmd="python3-vt check.py %s %s" % (prop, tier),
            trusted_base=COMMON_TRUST + plan.get("trust", []),
            bounded_part=bounded)
    elif level == "exploration":
        cov.update({k: bounded[k] for k in (
            "evaluations", "distinct_nontrivial", "rule", "samples")})
        cov["detail"] = ev["detail"]
        if c["obligations"]:
            cov["obligations"] = c["obligations"]
            cov["discharged"] = c["discharged"]
    else:
        cov.update(explanation=plan.get("explanation", ""),
                   bounded_part=bounded)
    if c["obligations"]:
        cov["functions_under_contract"] = {
            f: "%d/%d obligations discharged" % (b, a)
            for f, (a, b) in sorted(ev["functions"].items())}
        cov["backends"] = {"z3": c["z3"], "cvc5": c["cvc5"]}
        cov["solver_seconds"] = round(c["solver_s"], 2)
        cov["callee_contracts_used"] = ev["contracts"]
        cov["targets"] = ev["targets"]
    cov["refuted"] = ev["refuted"][:20]
    cov["undischarged_or_unsupported"] = ev["open"][:50]
    if ev["undecided"] or load_error:
        cov["undecided_tasks"] = (ev["undecided"] + (
            [load_error] if load_error else []))[:20]
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": COMMON_ASSUME + plan.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w", encoding="UTF-8") as fd:
        json.dump(doc, fd, indent=1, default=str)
        fd.write("\n")


if __name__ == "__main__":
    try:
        main()
    except Exception:                      # pylint: disable=broad-except
        traceback.print_exc()
        sys.exit(0 if os.environ.get("PYVC_LENIENT") else 2)
