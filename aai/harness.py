"""Loading the package and driving the analysis from its public interface."""
import sys
import threading

from .values import *
from .state import *
from .interp import Interp, PyExc, Infeasible, Frame
from . import lib, conts


def run_big(fn, *a, **k):
    """Run with a deep stack (the interpreter is recursive)."""
    out = {}

    def go():
        try:
            out["v"] = fn(*a, **k)
        except BaseException as e:
            out["e"] = e
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in out:
        raise out["e"]
    return out["v"]


def load(root="/repo", pkg="aeromet_py"):
    I = Interp(root, pkg)
    I.loading = True
    outs = I.explore(lambda: I.import_module(pkg))
    if len(outs) != 1 or outs[0][0] != "ok":
        bad = [o for o in outs if o[0] != "ok"]
        raise Undecided("package does not load: %r" % ([(getattr(o[1], "cls", None), getattr(o[1], "site", None))
                                                         for o in bad],))
    S = outs[0][2]
    I.S = S
    conts.summarise_tables(I)
    I.S = S.freeze()
    I.loading = False
    I.events.clear()
    # a neutral outermost frame
    oid = ("env", "harness")
    I.S.put(oid, Obj("env", None, {}))
    fr = Frame(oid, None, ("mod", pkg), "<harness>", "<harness>", None)
    fr.kind = "func"

    class FI:
        locals, globals, nonlocals, is_gen = {"r", "q", "x", "y"}, set(), set(), False
    fr.fi = FI
    I.frame = fr
    I.frames = [fr]
    return I
