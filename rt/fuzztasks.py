"""Arbitrary and mutated inputs: a result or a diagnostic (J01)."""
import glob
import json
import os
import random
import re
import subprocess
import sys

from . import markuptasks, run
from .exprs import BOOL, Gen as EGen, ObjGen, Schema, render as erender
from .model import Gen
from .modeltasks import Unit
from .msgtasks import counts, faulty

RULE = ("rendered random models, random check expressions, markup files and "
        "the repository's own example files, mutated by deleting, "
        "duplicating, swapping, replacing and truncating characters and "
        "tokens; with lint on and off and with and without error recovery; "
        "every run has to end in a result or a reported error, and runs in "
        "fresh processes with other hash seeds have to print the same "
        "messages; distinct by text")

TOK = re.compile(r'"""|\'\'\'|"(?:[^"\\\n]|\\.)*"|\w+|\.\.|==|!=|<=|>=|=>|\*\*'
                 r'|\s+|.', re.S)
BITS = ["package", "import", "type", "enum", "tuple", "checks", "separator",
        "extends", "abstract", "final", "optional", "freeze", "section", "{",
        "}", "[", "]", "(", ")", ",", "..", ".", "=", "==", "!=", "=>", "-",
        "+", "*", "/", "%", "**", "@", ":", ";", "|", "and", "or", "xor",
        "implies", "not", "abs", "null", "true", "false", "if", "then",
        "else", "elsif", "forall", "exists", "in", "oneof", "len", "fatal",
        "warning", "error", '"', '"""', "'''", '"x"', "'", "\\", "//", "/*",
        "*/", "0", "1", "-1", "1.5", "0x", "0b2", "1__0", "1.", "Integer",
        "String", "Decimal", "Boolean", "Markup_String", "by", "[[", "]]",
        "\n", " ", "\t", "\r", "\u00e9", "\x00", "$", "&", "<", ">", "_x",
        "'''a'''", '"[[x]]"', "startswith", "matches", "P", "T", "x", "*"]


def too_big(text):
    """exponents that need more memory than there is; deep nesting"""
    if re.search(r"\*\*", text):
        if re.search(r"\*\*[^,]{0,60}(\d{4,}|0x\w{3,}|0b\w{10,})", text) or \
           re.search(r"\*\*[^,]{0,80}\*\*", text):
            return True
    return False


_SEEDS = []


def repo_files():
    if not _SEEDS:
        for d in ("tests-system", "tests-large-partial", "examples",
                  "language-reference-manual", "tests-unit"):
            for f in glob.glob(os.path.join(run.REPO, d, "**", "*.rsl"),
                               recursive=True):
                try:
                    with open(f, encoding="UTF-8") as fd:
                        t = fd.read()
                except (OSError, UnicodeError):
                    continue
                if len(t) < 4000:
                    _SEEDS.append((f, t))
        _SEEDS.sort()
        _SEEDS.append(("", ""))
    return _SEEDS


def seed_files(rng):
    r = rng.random()
    if r < 0.4:
        return faulty(rng)
    if r < 0.5:
        f, _, _ = markuptasks.build(rng, rng.choice(
            [None] + markuptasks.FAULTS))
        return dict(markuptasks.FILES, **{"p.trlc": f.text})
    if r < 0.75:
        sch = Schema()
        g = EGen(sch, rng, wild=rng.choice([0, 0.1, 0.4]))
        t = sch.text() + "".join(
            "checks T { %s, \"m\" }\n" % erender(
                g.expr(BOOL, rng.randint(1, 3)))
            for _ in range(rng.randint(1, 4)))
        og = ObjGen(sch, rng)
        og.basics()
        og.add("ot", "T", 0.5)
        return {"s.rsl": t, "s.trlc": og.text()}
    seeds = repo_files()
    name, t = rng.choice(seeds)
    files = {"r.rsl": t}
    if name:
        for f in glob.glob(os.path.join(os.path.dirname(name), "*.trlc"))[:2]:
            try:
                with open(f, encoding="UTF-8") as fd:
                    x = fd.read()
                if len(x) < 4000:
                    files[os.path.basename(f)] = x
            except (OSError, UnicodeError):
                pass
    return files


def mutate(t, rng):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        toks = TOK.findall(t)
        if not toks:
            return rng.choice(BITS)
        r = rng.random()
        k = rng.randrange(len(toks))
        if r < 0.2:
            del toks[k]
        elif r < 0.35:
            toks.insert(k, rng.choice(BITS) + rng.choice(["", " "]))
        elif r < 0.55:
            toks[k] = rng.choice(BITS)
        elif r < 0.65:
            j = rng.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
        elif r < 0.75:
            del toks[k:k + rng.randint(2, 12)]
        elif r < 0.85:
            j = rng.randrange(len(toks))
            toks[k:k] = toks[j:j + rng.randint(1, 12)]
        elif r < 0.95:
            toks = toks[:k]
        else:
            t = "".join(toks)
            k = rng.randrange(len(t))
            t = t[:k] + rng.choice(["", rng.choice(BITS)[:1]]) + t[k + 1:]
            continue
        t = "".join(toks)
    return t


def fuzz_unit(prop, seed, n=60):
    rng = random.Random("fuzz-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        files = seed_files(rng)
        for f in list(files):
            if rng.random() < 0.6 or len(files) == 1:
                files[f] = mutate(files[f], rng)
        if any(too_big(t) for t in files.values()):
            u.count("skipped")
            continue
        kw = dict(lint=rng.random() < 0.6, recovery=rng.random() < 0.8,
                  brief=rng.random() < 0.5)
        r = run.process(files, **kw)
        u.add(files)
        if r.exc:
            u.bad("internal exception " + r.exc[-700:], files, options=kw)
        elif r.stab is None and not r.msgs:
            u.bad("neither a result nor a message", files, options=kw)
        elif rng.random() < 0.3:
            r2 = run.process(files, **kw)
            if [m.key() for m in r.msgs] != [m.key() for m in r2.msgs] or \
               r.out != r2.out or (r.stab is None) != (r2.stab is None):
                u.bad("a second run prints something else", files,
                      options=kw)
        run.clear_files()
    return u.result()


def truncate_unit(prop, seed, part, parts, step=1):
    """one whole model cut after every character"""
    rng = random.Random("trunc-%s" % (seed,))
    u = Unit([prop, seed, part])
    while True:
        g = Gen(rng)
        files = g.render()
        if sum(map(len, files.values())) < 2500:
            break
    f = sorted(files)[rng.randrange(len(files))]
    for k in range(part * step, len(files[f]), parts * step):
        fs = dict(files)
        fs[f] = files[f][:k]
        r = run.process(fs, lint=bool(k % 2))
        u.add(fs)
        if r.exc:
            u.bad("internal exception " + r.exc[-700:], fs)
        elif r.stab is None and not r.msgs:
            u.bad("neither a result nor a message", fs)
    return u.result()


def batch(seed, n):
    """messages of n runs, as text (the determinism child)"""
    rng = random.Random("det-%s" % (seed,))
    out = []
    for _ in range(n):
        files = seed_files(rng)
        if rng.random() < 0.5:
            f = rng.choice(sorted(files))
            files[f] = mutate(files[f], rng)
        if any(too_big(t) for t in files.values()):
            continue
        r = run.process(files, order=sorted(files), lint=True)
        out.append([files, r.out, [repr(m.key()) for m in r.msgs],
                    sorted(x.fully_qualified_name() for x in
                           r.stab.iter_record_objects())
                    if r.stab is not None else None])
        run.clear_files()
    return out


def determinism_unit(prop, seed, n=40):
    u = Unit([prop, seed])
    res = []
    for h in ("0", "1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run(
            [sys.executable, "-c",
             "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = "
             "True\nfrom rt import fuzztasks\nimport json\n"
             "pad = [object() for _ in range(%d)]\n"
             "print('@@' + json.dumps(fuzztasks.batch(%r, %d)))" % (
                 os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 1000 * (int(h) + 1), seed, n)],
            env=env, capture_output=True, text=True, timeout=300,
            check=False)
        line = [l for l in p.stdout.split("\n") if l.startswith("@@")]
        if not line:
            raise RuntimeError("child failed: " + p.stderr[-500:])
        res.append(json.loads(line[0][2:]))
    for a, b, c in zip(*res):
        u.add(a[0])
        if a != b or a != c:
            u.bad("messages depend on the process: %r / %r" % (
                a[1][:300], (b if a != b else c)[1][:300]), a[0])
    return u.result()


def counts_unit(prop, seed, n=40):
    """E02 on mutated inputs: counters and result agree"""
    rng = random.Random("fuzzc-%s-%s" % (prop, seed))
    u = Unit([prop, seed])
    for _ in range(n):
        files = seed_files(rng)
        f = rng.choice(sorted(files))
        files[f] = mutate(files[f], rng)
        if any(too_big(t) for t in files.values()):
            continue
        r = run.process(files, lint=rng.random() < 0.5)
        u.add(files)
        if not r.exc:
            counts(r, u, files)
        run.clear_files()
    return u.result()


def deep_unit(prop, seed):
    """nesting and chains of every kind, far beyond what is sensible"""
    rng = random.Random("deep-%s" % (seed,))
    u = Unit([prop, seed])
    rsl = "package P\ntype T {\n a optional Integer\n b optional Boolean\n" \
        " s optional String\n r optional T\n v optional Integer [0..*]\n}\n"
    forms = [
        lambda n: "(" * n + "true" + ")" * n,
        lambda n: "not " * 1 + "(not " * n + "true" + ")" * n,
        lambda n: "1" + " + 1" * n + " > 0",
        lambda n: "true" + " and true" * n,
        lambda n: "b == null or (" * n + "true" + ")" * n,
        lambda n: "s == \"a\"" + " or s == \"a\"" * n,
        lambda n: "len(\"a\"" + " + \"a\"" * n + ") > 0",
        lambda n: "(if true then " * n + "true" + " else false)" * n,
        lambda n: "r" + ".r" * n + " == null",
        lambda n: "abs(" * n + "1" + ")" * n + " == 1",
        lambda n: "Integer(Decimal(" * n + "1" + "))" * n + " == 1",
        lambda n: "(forall x in v => " * n + "true" + ")" * n,
        lambda n: "-" * 1 + "(-" * n + "1" + ")" * n + " == 1",
        lambda n: "oneof(" * n + "true" + ")" * n,
        lambda n: "a in 1 .. (" * 1 + "1" + " + (1" * n + ")" * n + ")",
    ]
    for f in forms:
        for n in (rng.randint(20, 150), rng.randint(200, 900),
                  rng.randint(900, 3000)):
            files = {"d.rsl": rsl + "checks T { %s, \"m\" }\n" % f(n),
                     "d.trlc": "package P\nT o { a = 1 b = true s = \"q\" "
                               "r = o v = [1, 2] }\n"}
            r = run.process(files, lint=rng.random() < 0.5)
            u.add(files)
            if r.exc:
                u.bad("internal exception " + r.exc[-500:], files)
            elif r.stab is None and not r.msgs:
                u.bad("neither a result nor a message", files)
    return u.result()
