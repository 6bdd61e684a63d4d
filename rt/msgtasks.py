"""Messages, counts, results and exit codes (E02)."""
import contextlib
import io
import os
import random
import re
import sys
import traceback

from . import run
from .model import Gen
from .modeltasks import FAULTS, KNOWN, Unit

RULE = ("random histories of message handler calls with suppression and "
        "output settings; random valid and faulty models processed with "
        "lint, suppression and recovery settings through the API and the "
        "command line; the counters, the result and the exit code have to "
        "agree with the recorded messages; distinct by history or files")

KNOWN_KEY = "process-result-after-nonfatal-error"


def history_unit(prop, seed, n=400):
    import trlc.errors as E
    rng = random.Random("hist-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    K = E.Kind
    kinds = {"error": K.SYS_ERROR, "uerror": K.USER_ERROR,
             "warning": K.SYS_WARNING, "uwarning": K.USER_WARNING,
             "check": K.SYS_CHECK, "lex": K.SYS_ERROR}
    for i in range(n):
        out = io.StringIO()
        brief, det = rng.random() < 0.5, rng.random() < 0.5
        prefix = rng.choice([None, "a/", "b"])
        mh = E.Message_Handler(brief, det, out=out, strip_prefix=prefix)
        errs = warns = supp = 0
        sup = set()
        hist = []
        for j in range(rng.randint(1, 25)):
            op = rng.choice(list(kinds) * 3 + ["suppress"])
            loc = E.Location(rng.choice(["a/b.rsl", "b.trlc"]),
                             rng.choice([None, 1, 7]),
                             rng.choice([None, 1, 9]))
            msg = "message %d" % j
            if op == "suppress":
                k = rng.choice(list(K))
                mh.suppress(k)
                sup.add(k)
                hist.append(("suppress", str(k)))
                continue
            expl = rng.choice([None, "", "why\n  so \n"])
            fatal = rng.choice([None, True, False])
            before = out.getvalue()
            raised = None
            hist.append((op, fatal, expl))
            try:
                if op == "lex":
                    mh.lex_error(loc, msg)
                    wf = True
                elif op in ("error", "uerror"):
                    kw = {} if fatal is None else {"fatal": fatal}
                    if op == "uerror":
                        kw["user"] = True
                    mh.error(loc, msg, explanation=expl, **kw)
                elif op in ("warning", "uwarning"):
                    kw = {"user": True} if op == "uwarning" else {}
                    mh.warning(loc, msg, explanation=expl, **kw)
                else:
                    mh.check(loc, msg, "some_check", explanation=expl)
            except E.TRLC_Error as e:
                raised = e
            wf = op == "lex" or op in ("error", "uerror") and \
                fatal is not False
            if op in ("lex", "error", "uerror"):
                errs += 1
            else:
                warns += 1
            hidden = kinds[op] in sup
            supp += hidden
            shown = out.getvalue()[len(before):]
            why = None
            if (mh.errors, mh.warnings, mh.suppressed) != (errs, warns,
                                                           supp):
                why = "counts %r instead of %r" % (
                    (mh.errors, mh.warnings, mh.suppressed),
                    (errs, warns, supp))
            elif (raised is not None) != wf:
                why = "%s: raised=%r, fatal=%r" % (op, raised, wf)
            elif raised is not None and (
                    raised.location is not loc or raised.message != msg or
                    raised.kind is not kinds[op]):
                why = "the exception carries something else"
            elif hidden and shown:
                why = "suppressed message shown"
            elif not hidden and (shown.count(msg) != 1 or
                                 str(kinds[op]) not in shown):
                why = "message not shown once: %r" % shown
            elif not hidden and expl and not brief and det and \
                    op != "lex" and ("why" not in shown):
                why = "details not shown: %r" % shown
            if why:
                u.bad(why, {}, history=hist)
                break
        u.st["evaluations"] += 1
        u.st["distinct"].add(hash(str(hist)))
        if i == 0:
            u.st["samples"].append(str(hist[:6]))
        if u.viol:
            break
    return u.result()


def faulty(rng):
    """files of a model, usually with one or two faults"""
    g = Gen(rng, checks=rng.random() < 0.6)
    n = rng.choice([0, 1, 1, 2])
    for _ in range(n):
        fs = FAULTS[rng.choice(list(FAULTS))]
        try:
            rng.choice(fs)(g, rng)
        except Exception:          # pylint: disable=broad-except
            pass                   # the two faults do not combine
    try:
        files = g.render()
    except Exception:              # pylint: disable=broad-except
        files = Gen(rng).render()
    r = rng.random()
    names = list(files)
    f = rng.choice(names)
    t = files[f]
    if r < 0.08:
        files[f] = t + "\n$\n"
    elif r < 0.14:
        files[f] = t.replace("}", "", 1)
    elif r < 0.2:
        files[f] = t.replace("\n", "\nimport Nowhere\n", 1)
    elif r < 0.25:
        files[f] = t + "'''\n"
    elif r < 0.3:
        files[f] = "packag" + t[7:]
    return files


def counts(r, u, files, suppressed=()):
    """invariants over one processed set of files; True if they hold"""
    e = len([m for m in r.msgs if m.kind in ("error", "check error")])
    w = len(r.msgs) - e
    s = len([m for m in r.msgs if m.kind in suppressed])
    mh = r.mh
    if r.exc:
        u.bad("internal exception " + r.exc[-600:], files)
    elif (mh.errors, mh.warnings, mh.suppressed) != (e, w, s):
        u.bad("counted %r, reported %r" % (
            (mh.errors, mh.warnings, mh.suppressed), (e, w, s)), files)
    elif e and r.stab is not None:
        bad = [m for m in r.errors
               if m.fatal or m.kind != "error" or not KNOWN.match(m.text)]
        u.bad("a result in spite of %r" % (bad or r.errors)[:3], files,
              key="" if bad else KNOWN_KEY)
        return not bad
    elif not e and r.stab is None:
        u.bad("no result but no error was reported", files)
    else:
        return True
    return False


def process_unit(prop, seed, n=30):
    import trlc.errors as E
    rng = random.Random("proc-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        files = faulty(rng)
        kw = dict(lint=rng.random() < 0.5, recovery=rng.random() < 0.7,
                  parse_trlc=rng.random() < 0.85, brief=rng.random() < 0.5)
        order = list(files) if kw["parse_trlc"] else [
            f for f in files if f.endswith(".rsl")]
        r = run.process(files, order, **kw)
        u.add(dict(files, kw=str(kw)))
        u.count("errors", len(r.errors))
        ok = counts(r, u, files)
        if ok:
            sup = [k for k in E.Kind if rng.random() < 0.5]
            r2 = run.process(files, order, suppress=sup, **kw)
            if counts(r2, u, files, {str(k) for k in sup}) and (
                    (r2.mh.errors, r2.mh.warnings, r2.stab is None) !=
                    (r.mh.errors, r.mh.warnings, r.stab is None)):
                u.bad("suppressing %r changes the result" % sup, files)
            shown = r2.out
            for m in r2.msgs:
                if m.kind in {str(k) for k in sup} and \
                   ": %s: %s" % (m.kind, m.text) in shown:
                    u.bad("suppressed message shown", files)
                    break
        run.clear_files()
    return u.result()


def cli(argv):
    """runs the command line in this process"""
    import trlc.trlc as T
    made = []
    base = run.handler_class()

    class Rec(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, T.Message_Handler
    sys.argv = ["trlc"] + argv
    T.Message_Handler = Rec
    exc = None
    rc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            rc = T.main()
    except SystemExit as e:
        rc = e.code
    except Exception:              # pylint: disable=broad-except
        exc = traceback.format_exc()
    finally:
        sys.argv, T.Message_Handler = old
    return rc, (made[0] if made else None), out.getvalue(), exc


SUMMARY = re.compile(r"found (?:no issues|(?:(\d+) warnings?)?(?: and )?"
                     r"(?:(\d+) errors?)?)(?: with (\d+) supp?ressed "
                     r"messages)?\s*$")


def cli_unit(prop, seed, n=25):
    rng = random.Random("cli-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for i in range(n):
        files = faulty(rng)
        if rng.random() < 0.15:
            files = {"a.rsl": "package Pk\ntype T { }\nchecks T {\n"
                     " false, warning \"w\"\n}\n",
                     "a.trlc": "package Pk\nT x { }\n"}
        run.write_files(files)
        args = []
        for a, p in (("--no-lint", 0.4), ("--brief", 0.5),
                     ("--no-detailed-info", 0.3), ("--no-user-warnings", 0.3),
                     ("--no-error-recovery", 0.2),
                     ("--error-on-warnings", 0.4), ("--skip-trlc-files", 0.1),
                     ("--show-file-list", 0.2), ("--debug-api-dump", 0.1)):
            if rng.random() < p:
                args.append(a)
        argv = list(args)
        log = None
        if rng.random() < 0.2:
            log = "out.log"
            argv += ["--log", log]
            if rng.random() < 0.5:
                argv.append("--brief")
            else:
                argv.append("--no-lint")
        if rng.random() < 0.6:
            argv += sorted(files, key=lambda f: rng.random())
        if log and argv[-1] not in files:
            pass
        rc, mh, out, exc = cli(argv)
        if log and os.path.exists(log):
            with open(log, encoding="UTF-8") as fd:
                out = fd.read()
        u.add(dict(files, argv=str(argv)))
        if exc or mh is None:
            u.bad("internal exception %s" % (exc or out)[-600:], files,
                  argv=argv)
        else:
            e = len([m for m in mh.recorded
                     if m.kind in ("error", "check error")])
            w = len(mh.recorded) - e
            s = len([m for m in mh.recorded if m.kind == "check warning"]) \
                if "--no-user-warnings" in argv else 0
            want = 1 if e or (w and "--error-on-warnings" in argv) else 0
            u.count("exit %s" % rc)
            if rc != want:
                u.bad("exit code %r instead of %r: %d errors, %d warnings" %
                      (rc, want, e, w), files, argv=argv)
            m = [SUMMARY.search(l) for l in out.split("\n")
                 if l.startswith("Processed ")]
            if m and m[-1]:
                g = [int(x or 0) for x in m[-1].groups()]
                if g != [w, e, s]:
                    u.bad("summary says %r instead of %r" % (g, [w, e, s]),
                          files, argv=argv)
            elif m or not e:
                u.bad("no summary: %r" % out[-200:], files, argv=argv)
        run.clear_files()
    return u.result()
