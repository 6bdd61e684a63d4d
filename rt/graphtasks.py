"""Import graphs: cycles, missing packages, include closure (F01, F02)."""
import os
import random

from . import run
from .modeltasks import Unit, exported

RULE_F02 = ("random import graphs of two to seven packages with rsl and "
            "trlc files in requested and merely included directories "
            "(nested, with broken contents behind the preamble of files "
            "nobody needs); the loaded files must be the closure computed "
            "independently; distinct by files and directories")


def cyclic(deps):
    state = {}

    def visit(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2:
            return False
        state[n] = 1
        if any(visit(m) for m in deps[n]):
            return True
        state[n] = 2
        return False
    return any(visit(n) for n in deps)


def cycle_unit(prop, seed, n=60):
    rng = random.Random("cyc-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        k = rng.randint(2, 6)
        names = rng.sample(["Ab", "Cd", "Ef", "Gh", "Ij", "Kl", "Mn"], k)
        dense = rng.choice([0.1, 0.25, 0.5])
        deps = {a: [b for b in names if b != a and rng.random() < dense]
                for a in names}
        if rng.random() < 0.4:              # make it acyclic
            deps = {a: [b for b in d if names.index(b) < names.index(a)]
                    for a, d in deps.items()}
        missing = rng.random() < 0.2
        files, want = {}, {}
        who = rng.choice(names) if missing else None
        fn = list(range(k))
        rng.shuffle(fn)
        for a, i in zip(names, fn):
            imps = list(deps[a])
            rng.shuffle(imps)
            if a == who:
                imps.append("Nowhere")
            t = "package %s\n" % a
            t += "".join("import %s\n" % b for b in imps)
            t += "type T%s {\n  n Integer\n" % a
            for b in deps[a]:
                t += "  r%s optional %s.T%s\n" % (b.lower(), b, b)
            files["m%d.rsl" % i] = t + "}\n"
            x = "package %s\n" % a
            o = rng.choice(names)
            if o != a:
                x += "import %s\n" % o
                x += "%s.T%s o%s { n = %d }\n" % (o, o, i, i)
            else:
                x += "T%s o%s { n = %d }\n" % (o, i, i)
            files["d%d.trlc" % i] = x
            want["%s.o%d" % (a, i)] = dict(
                {"r" + b.lower(): None for b in deps[o]}, n=i)
        order = list(files)
        base = None
        for _k in range(3):
            rng.shuffle(order)
            r = run.process(files, order)
            u.add(dict(files, order=str(order)))
            msgs = sorted(str((m.kind, m.file, m.line, m.col, m.text))
                          for m in r.msgs)
            cyc = [m for m in r.msgs if "circular" in m.text.lower()]
            if r.exc:
                u.bad("internal exception " + r.exc[-500:], files,
                      order=list(order))
                break
            if missing or cyclic(deps):
                u.count("rejected")
                if r.stab is not None or not r.errors:
                    u.bad("cyclic or missing import accepted", files,
                          order=list(order))
                    break
                if cyclic(deps) and not missing and not cyc:
                    u.bad("cycle not reported: %r" % r.msgs[:3], files,
                          order=list(order))
                    break
                if missing and not any("import Nowhere" in files.get(
                        m.file, "").split("\n")[(m.line or 1) - 1]
                        for m in r.errors):
                    u.bad("missing package not reported: %r" % r.msgs[:3],
                          files, order=list(order))
                    break
            else:
                u.count("accepted")
                if r.msgs or r.stab is None or exported(r) != want:
                    u.bad("acyclic imports: %r %r" % (
                        r.msgs[:3], None if r.stab is None else
                        exported(r)), files, order=list(order))
                    break
            if base is None:
                base = msgs
            elif base != msgs:
                u.bad("messages depend on the order: %r %r" % (base, msgs),
                      files, order=list(order))
                break
        run.clear_files()
    return u.result()


GARBAGE = ["type Broken { a Nothing }\n", "enum {\n", "checks X { }\n",
           "type T { a Integer [5..1] }\n", "1 2 3\n"]
GARBAGE_T = ["Nothing x { }\n", "} {\n", "1 2 3\n"]


def include_unit(prop, seed, n=60):
    rng = random.Random("inc-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        k = rng.randint(2, 7)
        names = rng.sample(["Ab", "Cd", "Ef", "Gh", "Ij", "Kl", "Mn"], k)
        dirs = ["", "inc/", "inc/sub/", "inc2/", "inc/"]
        rsl, trlc, rimp, timp = {}, {}, {}, {}
        for i, a in enumerate(names):
            rimp[a] = [b for b in names[:i] if rng.random() < 0.35]
            rsl[a] = "%s%s.rsl" % (rng.choice(dirs), a.lower())
            trlc[a] = []
            for j in range(rng.randint(0, 2)):
                f = "%s%s_%d.trlc" % (rng.choice(dirs), a.lower(), j)
                trlc[a].append(f)
                timp[f] = [b for b in names if b != a and
                           rng.random() < 0.3]
        allf = [rsl[a] for a in names] + [f for a in names for f in trlc[a]]
        primary = {f for f in allf if not f.startswith("inc")}
        if not primary:
            continue
        # files needed, by the definition
        need, todo = set(), set()
        for a in names:
            if rsl[a] in primary:
                todo.add((a, "rsl"))
            if any(f in primary for f in trlc[a]):
                todo.add((a, "trlc"))
        seen = set()
        while todo:
            a, kind = x = todo.pop()
            seen.add(x)
            if kind == "rsl":
                need.add(rsl[a])
                nxt = {(b, "rsl") for b in rimp[a]}
            else:
                need |= set(trlc[a])
                nxt = {(a, "rsl")} | {(b, "trlc") for f in trlc[a]
                                      for b in timp[f]}
            todo |= nxt - seen
        files, want = {}, set()
        for a in names:
            t = "package %s\n" % a + "".join(
                "import %s\n" % b for b in rimp[a])
            if rsl[a] not in need and rng.random() < 0.6:
                t += rng.choice(GARBAGE)
            else:
                t += "type T%s {\n" % a + "".join(
                    "  r%s optional %s.T%s\n" % (b.lower(), b, b)
                    for b in rimp[a]) + "}\n"
            files[rsl[a]] = t
            for f in trlc[a]:
                t = "package %s\n" % a + "".join(
                    "import %s\n" % b for b in timp[f])
                o = os.path.basename(f)[:-5]
                if f not in need and rng.random() < 0.6:
                    t += rng.choice(GARBAGE_T)
                else:
                    t += "T%s %s { }\n" % (a, o)
                    for b in timp[f]:
                        t += "%s.T%s %s_%s { }\n" % (b, b, o, b.lower())
                    if f in need:
                        want.add("%s.%s" % (a, o))
                        want |= {"%s.%s_%s" % (a, o, b.lower())
                                 for b in timp[f]}
                files[f] = t
        order = sorted(primary)
        rng.shuffle(order)
        incs = [d for d in ("inc", "inc2")
                if any(f.startswith(d + "/") for f in files)]
        rng.shuffle(incs)
        if rng.random() < 0.2 and incs:
            incs.append(".")       # requested files are not included twice
        for d in incs:
            if not os.path.isdir(os.path.join(run.scratch(), d)):
                os.makedirs(os.path.join(run.scratch(), d))
        r = run.process(files, order, includes=incs,
                        includes_last=rng.random() < 0.3)
        u.add(dict(files, order=str(order)))
        u.count("needed files", len(need))
        u.count("spared files", len(files) - len(need))
        got = None if r.stab is None else set(exported(r))
        if r.exc:
            u.bad("internal exception " + r.exc[-600:], files, order=order,
                  includes=incs)
        elif r.msgs or got != want:
            u.bad("objects %r instead of %r; messages %r" % (
                None if got is None else sorted(got), sorted(want),
                r.msgs[:3]), files, order=order, includes=incs)
        else:
            types = {a for a in names
                     if "T" + a in str([t.name for q in
                                        r.stab.table.values()
                                        if getattr(q, "name", "") == a
                                        for t in q.symbols.table.values()])}
            wt = {a for a in names if rsl[a] in need}
            if types != wt:
                u.bad("packages with types loaded %r instead of %r" % (
                    sorted(types), sorted(wt)), files, order=order,
                    includes=incs)
        run.clear_files()
    return u.result()
