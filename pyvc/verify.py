"""pyvc.verify - verification of one target and result bookkeeping."""
import time
import traceback

import z3

from .core import (Conc, Infeasible, ObjV, PyRaise, Unsupported, NONE)
from .interp import is_fresh


class Result:
    def __init__(self, name):
        self.name = name
        self.function = ""
        self.obligations = []
        self.status = "ok"          # ok | unsupported | error
        self.reason = ""
        self.paths = 0
        self.seconds = 0.0
        self.solver_s = 0.0
        self.contracts = {}
        self.covered = {}


class Target:
    """name; function under contract; run(interp) executing one path
    and recording obligations"""

    def __init__(self, name, function, run, props, case=""):
        self.name = name
        self.function = function
        self.run = run
        self.props = props


def verify(target, interp, budget=60):
    res = Result(target.name)
    res.function = target.function
    interp.obligations = []
    interp.used_contracts = {}
    interp.covered = {}
    interp.stats = dict(branch=0, solver_s=0.0, paths=0)
    t = time.time()
    interp.deadline = time.process_time() + budget
    try:
        target.run(interp)
        res.paths = interp.stats["paths"]
    except Unsupported as e:
        res.status = "unsupported"
        res.reason = "%s (line %s)" % (e, interp.line)
    except (Infeasible, PyRaise) as e:
        res.status = "error"
        res.reason = "stray %s" % e.__class__.__name__
    except Exception as e:          # pylint: disable=broad-except
        res.status = "error"
        res.reason = "".join(traceback.format_exception(e))[-1500:]
    res.obligations = list(interp.obligations)
    res.seconds = time.time() - t
    res.solver_s = interp.stats["solver_s"]
    res.contracts = dict(interp.used_contracts)
    res.covered = dict(interp.covered)
    return res
