"""Runs the real code of the repository on in-memory inputs.

Everything happens in a scratch directory that is removed at exit.
"""
import atexit
import contextlib
import inspect
import io
import os
import shutil
import sys
import tempfile
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_EXTRA = "/opt/venv/lib/python3.12/site-packages"
if os.path.isdir(_EXTRA) and _EXTRA not in sys.path:
    sys.path.append(_EXTRA)

_scratch = {}


def scratch():
    """Per-process scratch directory; becomes the working directory"""
    pid = os.getpid()
    if pid not in _scratch:
        d = tempfile.mkdtemp(prefix="trlcverif")
        _scratch[pid] = d

        def clean():
            os.chdir("/")
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    os.chdir(_scratch[pid])
    return _scratch[pid]


class Msg:
    __slots__ = ("kind", "file", "line", "col", "text", "extra", "cat",
                 "fatal", "location")

    def __repr__(self):
        return "%s:%s:%s: %s: %s" % (self.file, self.line, self.col,
                                     self.kind, self.text)

    def key(self):
        return (self.file, self.line, self.col, self.kind, self.text,
                self.extra, self.cat)


class Res:
    def __init__(self):
        self.stab = None       # result of process()
        self.sm = None
        self.msgs = []
        self.exc = None        # traceback text of an escaping exception
        self.out = ""
        self.mh = None

    @property
    def errors(self):
        return [m for m in self.msgs if m.kind in ("error", "check error")]


def _mods():
    import trlc.errors
    import trlc.trlc
    return trlc.errors, trlc.trlc


_MH = {}


def handler_class():
    E, _ = _mods()
    if "c" in _MH:
        return _MH["c"]
    sig = inspect.signature(E.Message_Handler.emit)

    class Recorder(E.Message_Handler):
        def __init__(self, *a, **k):
            self.recorded = []
            super().__init__(*a, **k)

        def emit(self, *a, **k):
            try:
                b = sig.bind(self, *a, **k)
                b.apply_defaults()
                g = b.arguments.get
                m = Msg()
                loc = g("location")
                m.location = loc
                m.kind = str(g("kind"))
                m.file = loc.file_name
                m.line = loc.line_no
                m.col = loc.col_no
                m.text = g("message")
                m.extra = g("extrainfo")
                m.cat = g("category")
                m.fatal = g("fatal")
                self.recorded.append(m)
            except TypeError:
                pass
            return super().emit(*a, **k)
    _MH["c"] = Recorder
    return Recorder


def write_files(files):
    d = scratch()
    for n, c in files.items():
        p = os.path.join(d, n)
        sub = os.path.dirname(p)
        if sub and not os.path.isdir(sub):
            os.makedirs(sub)
        with open(p, "w", encoding="UTF-8", newline="") as fd:
            fd.write(c)


def clear_files():
    d = scratch()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def process(files, order=None, lint=False, verify=False, parse_trlc=True,
            checks=True, recovery=True, includes=(), brief=True, written=False,
            suppress=(), includes_last=False):
    """Process files (name -> text) with the real Source_Manager"""
    E, T = _mods()
    r = Res()
    if not written:
        write_files(files)
    out = io.StringIO()
    mh = handler_class()(brief=brief, out=out)
    for k in suppress:
        mh.suppress(k)
    r.mh = mh
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            sm = T.Source_Manager(mh, lint_mode=lint, verify_mode=verify,
                                  parse_trlc=parse_trlc,
                                  error_recovery=recovery)
            r.sm = sm
            if not checks:
                sm.perform_checks = lambda *a, **k: True
            ok = True
            if not includes_last:
                for d in includes:
                    sm.register_include(d)
            for n in (order if order is not None else list(files)):
                ok &= bool(sm.register_file(n))
            if includes_last:
                for d in includes:
                    sm.register_include(d)
            if ok:
                r.stab = sm.process()
    except SystemExit:
        r.exc = traceback.format_exc()
    except E.TRLC_Error:
        r.exc = "escaped TRLC_Error\n" + traceback.format_exc()
    except Exception:              # pylint: disable=broad-except
        r.exc = traceback.format_exc()
    r.msgs = mh.recorded
    r.out = out.getvalue() + buf.getvalue()
    return r
