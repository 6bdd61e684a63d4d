"""What each property check runs: deductive targets plus bounded tasks.

A bounded task is (module, function, args); the function returns
(stats, violations) with stats = {evaluations, distinct(set), samples,
detail} and each violation a dict with at least "what".
"""

EVAL = "rt.evaltasks"


def units(prop, n, fn="run_unit", mod=EVAL):
    return lambda seed, tier: [
        (mod, fn, (prop, "%d.%d" % (seed, k)))
        for k in range(n if tier == "quick" else 12 * n)]


def table(prop, quick=24):
    def f(_seed, _tier):
        return [(EVAL, "table_unit", (prop, k, quick)) for k in range(quick)]
    return f


def both(*fs):
    return lambda seed, tier: [x for f in fs for x in f(seed, tier)]


RULE_EVAL = (
    "random well-typed check expressions (B01: also ill-typed ones, plus the "
    "exhaustive table of every operator over every pair of operand types) "
    "over a package with enums, tuples, arrays, records, extensions and "
    "unions, evaluated on random objects by the real code and by an "
    "independent reference semantics; non-trivial: has at least one operator "
    "(not a lone literal or name); distinct by text")

LEX = "rt.lexcheck"
MOD = "rt.modeltasks"


def lex(prop, alphas, nrandom=48, parts=16):
    def f(seed, tier):
        cut = 1 if tier == "quick" else 0
        k = 1 if tier == "quick" else 12
        return [(LEX, "exhaustive_unit", (prop, a, i, parts * k, cut))
                for a in alphas for i in range(parts * k)] + \
            [(LEX, "random_unit", (prop, "%d.%d" % (seed, i)))
             for i in range(nrandom * k)]
    return f


def trunc(prop, n=4, parts=8):
    def f(seed, tier):
        k = n if tier == "quick" else 12 * n
        return [("rt.fuzztasks", "truncate_unit",
                 (prop, "%d.%d" % (seed, i), j, parts))
                for i in range(k) for j in range(parts)]
    return f


RULE_MODEL = "see rt/modeltasks.py: " + (
    "random models of one to three packages (enums, tuples with and "
    "without separators, record hierarchies with abstract, final and "
    "freeze, unions, bounded arrays, forward and cross-package references, "
    "checks, sections), processed by the real code and by an independent "
    "reference model; non-trivial: at least one object or fault; distinct "
    "by rendered text")
RULE_FAULT = RULE_MODEL + (
    "; every fault kind of the property is injected into such models and "
    "has to be reported on its line")
RULE_LEX = (
    "source texts: all strings up to a length bound over small alphabets, "
    "plus random token soup with all literal forms, whitespace, comments "
    "and non-ASCII characters, lexed by the real code and by an independent "
    "reference lexer; non-trivial: at least two characters that are not "
    "whitespace; distinct by text")
RULE_E02 = (
    "random histories of message handler calls with suppression and output "
    "settings; random valid and faulty models processed with lint, "
    "suppression and recovery settings through the API and the command "
    "line; distinct by history or files")
RULE_H01 = (
    "random Markup_String literals in both quoting styles with valid and "
    "faulty bracket constructs, against an independent scanner; distinct "
    "by rendered text")
RULE_J01 = (
    "rendered random models, expressions, markup files and the repository's "
    "own test inputs after random token- and character-level mutations, "
    "cut after every character, nested far beyond what is sensible, and "
    "processed in processes with different hash seeds; distinct by text")
RULE_GRAPH = (
    "random import graphs of two to seven packages with rsl and trlc files "
    "in registered and include-only directories; distinct by files")

PLAN = {
    "A01": dict(level="proof", bounded=units("A01", 160), rule=RULE_EVAL),
    "A02": dict(level="proof", bounded=units("A02", 160), rule=RULE_EVAL),
    "A03": dict(level="proof", bounded=units("A03", 160), rule=RULE_EVAL),
    "A04": dict(level="proof", bounded=units("A04", 160), rule=RULE_EVAL),
    "A05": dict(level="proof", bounded=units("A05", 240), rule=RULE_EVAL),
    "B01": dict(level="proof",
                bounded=both(table("B01"), units("B01", 160)),
                rule=RULE_EVAL),
    "B02": dict(level="proof",
                bounded=both(units("B02", 160),
                             units("B02", 160, "mutate_unit")),
                rule=RULE_EVAL + "; and token-level mutations of such "
                "expressions judged by an independent reference parser"),
    "C01": dict(level="proof", bounded=lex("C01", range(6)),
                rule=RULE_LEX),
    "C02": dict(level="proof", bounded=lex("C02", range(6)),
                rule=RULE_LEX),
    "C03": dict(level="exploration", deduct=True,
                bounded=both(lex("C03", [1]),
                             units("C03", 32, "file_unit", LEX)),
                rule=RULE_LEX),
    "D01": dict(level="proof",
                bounded=both(units("D01", 64, "clean_unit", MOD),
                             units("D01", 160, "fault_unit", MOD)),
                rule=RULE_FAULT),
    "D02": dict(level="proof",
                bounded=both(units("D02", 64, "clean_unit", MOD),
                             units("D02", 128, "fault_unit", MOD)),
                rule=RULE_FAULT),
    "D03": dict(level="proof",
                bounded=both(units("D03", 64, "clean_unit", MOD),
                             units("D03", 160, "fault_unit", MOD)),
                rule=RULE_FAULT),
    "D04": dict(level="proof",
                bounded=both(units("D04", 64, "clean_unit", MOD),
                             units("D04", 160, "fault_unit", MOD)),
                rule=RULE_FAULT),
    "E01": dict(level="proof",
                bounded=units("E01", 160, "check_unit", MOD),
                rule=RULE_MODEL + "; checks of all severities and anchors, "
                "expected messages in order"),
    "E02": dict(level="proof",
                bounded=both(units("E02", 32, "history_unit", "rt.msgtasks"),
                             units("E02", 96, "process_unit", "rt.msgtasks"),
                             units("E02", 64, "cli_unit", "rt.msgtasks"),
                             units("E02", 48, "counts_unit",
                                   "rt.fuzztasks")),
                rule=RULE_E02),
    "F01": dict(level="exploration",
                bounded=both(units("F01", 128, "order_unit", MOD),
                             units("F01", 64, "cycle_unit",
                                   "rt.graphtasks")),
                rule=RULE_MODEL + "; every model in several file orders; " +
                RULE_GRAPH),
    "F02": dict(level="exploration",
                bounded=units("F02", 96, "include_unit", "rt.graphtasks"),
                rule=RULE_GRAPH),
    "H01": dict(level="exploration", deduct=True,
                bounded=both(units("H01", 128, "valid_unit",
                                   "rt.markuptasks"),
                             units("H01", 128, "fault_unit",
                                   "rt.markuptasks")),
                rule=RULE_H01),
    "I01": dict(level="proof",
                bounded=units("I01", 192, "clean_unit", MOD),
                rule=RULE_MODEL),
    "J01": dict(level="exploration", deduct=True,
                bounded=both(units("J01", 160, "fuzz_unit", "rt.fuzztasks"),
                             trunc("J01"),
                             units("J01", 4, "determinism_unit",
                                   "rt.fuzztasks"),
                             units("J01", 2, "deep_unit", "rt.fuzztasks")),
                rule=RULE_J01),
}

COMMON_TRUST = [
    "z3 4.x and cvc5 1.1.2 (unsat answers)",
    "the verification-condition generator /verif/pyvc (symbolic execution of "
    "the real functions' source, read from /repo on every run) and its "
    "model of Python's built-in operations",
    "CPython 3.12",
]
COMMON_ASSUME = [
    "Python int and Fraction are modelled as mathematical integers and "
    "reals (exact in CPython; memory exhaustion ignored)",
    "callee contracts listed under callee_contracts_used hold where marked "
    "'trusted'; those marked 'proved elsewhere' are discharged by their own "
    "targets",
]

NOTES = {}

DED = ("contract-based deductive verification of the real evaluate methods "
       "(weakest-precondition style symbolic execution, SMT-discharged), "
       "with a bounded run-time contract check as replay source")
BND = ("run-time contract checking of the real code against an executable "
       "specification (bounded stand-in for obligations out of reach)")
for _p, _v in PLAN.items():
    _v.setdefault("technique", DED if _v["level"] == "proof" else BND)
    _v.setdefault("note", "see DESIGN.md")
