"""Running a check: cases are analysed in forked workers (the package's source is
loaded once), findings are matched with known_findings.txt, evidence is written."""
import json
import os
import pickle
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AEROMET_REPO", "/repo")
sys.path.insert(0, HERE)

from aai.values import Undecided          # noqa: E402
from aai import harness, decode           # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Finding:
    """A violation: the rule, where in the source, and what was derived there."""

    def __init__(self, rule, construct, detail, calls=()):
        self.rule, self.construct, self.detail, self.calls = rule, construct, detail, list(calls)

    def key(self):
        return "%s @ %s" % (self.rule, self.construct)


class Case:
    """Analyses of one abstract report, to be compared with a specification."""

    def __init__(self, name, cls, template, fields=None, obs=None, kw=None, mode="split", run=None, tol=1e-7,
                 blur=True):
        self.name, self.cls, self.template = name, cls, template
        self.fields, self.obs, self.kw = fields or {}, obs or {}, kw or {}
        self.run, self.tol, self.blur = run, tol, blur


def part(e, got, exp):
    """The part of a combined observation that differs."""
    from checks.ref import PARTS
    ps = PARTS.get(e)
    if ps is None:
        return e, got, exp
    gs = list(got.args) if hasattr(got, "args") else got if isinstance(got, list) else None
    if gs is None or len(gs) != len(ps):
        return "the groups of the section", got, exp
    for p, a, b in zip(ps, gs, exp):
        if not decode.same(a, b, 1e-7):
            return p, a, b
    return "the groups of the section", got, exp


class Ctx:
    def __init__(self, pid, tier, I):
        self.pid, self.tier, self.I = pid, tier, I
        self.thorough = tier == "thorough"
        self.D = decode.Decoder(I)
        self.cases = []
        self.notes = {}
        self.assumptions = []

    def case(self, name, cls, template, fields=None, obs=None, kw=None, tol=1e-7, blur=True):
        kw = dict(year=2021, month=3) if kw is None else kw
        self.cases.append(Case(name, cls, template, fields, obs, kw, tol=tol, blur=blur))

    def job(self, name, run):
        """run(ctx) -> (findings, {counter: n})"""
        self.cases.append(Case(name, None, None, run=run))

    # ------------------------------------------------------------ one case
    def analyse(self, c):
        D = self.D
        for k in D.stats:
            D.stats[k] = 0
        I = self.I
        I.calls_seen = set()
        if c.run is not None:
            found, extra = c.run(self)
            st = dict(D.stats)
            for k, v in (extra or {}).items():
                st[k] = st.get(k, 0) + v
            return found, st, sorted(I.calls_seen)
        paths = D.construct(c.cls, c.template, c.fields, blur=c.blur, **c.kw)
        found = []
        ok = []
        for p in paths:
            if p.kind == "ok":
                ok.append(p)
            else:
                w = D.witness(p.S)
                if w is None:
                    continue
                w = {k: v for k, v in w.items() if k in c.fields}
                nm = decode._cn(p.val.cls)
                found.append(Finding("construction fails with %s" % nm, p.val.site,
                                     "%s(%r, %s) with %s" % (c.cls, c.template, c.kw, w),
                                     [str(x) for x in p.val.trace or []]))
        for e, spec in c.obs.items():
            tol = c.tol
            if isinstance(spec, tuple):
                spec, tol = spec
            for f in D.check(ok, e, spec, tol)[:2]:
                text = c.template
                for k, v in f.words.items():
                    text = text.replace("{%s}" % (k,), v)
                site = f.got.site if isinstance(f.got, decode.Exc) else e
                e, f.got, f.exp = part(e, f.got, f.exp)
                if site not in (e, getattr(f.got, "site", None)):
                    site = e
                found.append(Finding("%s: %s" % (c.name, e), site,
                                     "%s(%r): %s is %r, specified %r" % (c.cls, text, e.replace("r.", "report.", 1),
                                                                        f.got, f.exp), f.calls))
                break
        return found, dict(D.stats), sorted(I.calls_seen)

    def run_all(self):
        """[(case, findings|None, stats, calls, error)]"""
        n = len(self.cases)
        k = max(1, min(WORKERS, n))
        rd, wr = os.pipe()
        os.write(wr, b"".join(struct.pack("<I", i) for i in range(n)))
        os.close(wr)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        pids = []
        for w in range(k):
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open("%s.%d" % (tmp, w), "wb") as out:
                        while True:
                            b = os.read(rd, 4)
                            if len(b) < 4:
                                break
                            i = struct.unpack("<I", b)[0]
                            t0 = time.time()
                            try:
                                f, st, calls = self.analyse(self.cases[i])
                                r = (i, f, st, calls, None, time.time() - t0)
                            except Undecided as e:
                                r = (i, None, {}, [], "undecided: %s" % e, time.time() - t0)
                            except Exception as e:
                                tb = traceback.extract_tb(e.__traceback__)[-1]
                                r = (i, None, {}, [], "analyser error: %s: %s (%s:%d)"
                                     % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno),
                                     time.time() - t0)
                                if os.environ.get("VERIF_DEBUG"):
                                    traceback.print_exc()
                            pickle.dump(r, out)
                            out.flush()
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        os.close(rd)
        bad = 0
        for p in pids:
            _, st = os.waitpid(p, 0)
            bad += st != 0
        res = {}
        for w in range(k):
            fn = "%s.%d" % (tmp, w)
            try:
                with open(fn, "rb") as f:
                    while True:
                        try:
                            r = pickle.load(f)
                        except EOFError:
                            break
                        res[r[0]] = r
                os.unlink(fn)
            except OSError:
                pass
        out = []
        for i, c in enumerate(self.cases):
            if i in res:
                _, f, st, calls, err, dt = res[i]
            else:
                f, st, calls, err, dt = None, {}, [], "worker ended", 0.0
            out.append((c, f, st, calls, err, dt))
        return out


def known(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    out.append(line.split(" ", 2)[2])
    except OSError:
        pass
    return out


def main(pid, mod, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        I = harness.load(REPO)
    except Undecided as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    ctx = Ctx(pid, tier, I)
    try:
        mod.build(ctx)
    except Undecided as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    res = ctx.run_all()
    totals = {}
    calls = set()
    findings = []
    errors = []
    samples = []
    for c, f, st, cl, err, dt in res:
        for k, v in st.items():
            totals[k] = totals.get(k, 0) + v
        calls.update(cl)
        if err:
            errors.append("%s: %s" % (c.name, err))
        for x in f or ():
            findings.append((c, x))
        samples.append({"case": c.name, "report": c.template, "fields": {k: str(v)[:80] for k, v in c.fields.items()},
                        "reads": len(c.obs), "seconds": round(dt, 2)})
    kn = known(pid)
    hit = set()
    viol = []
    for c, x in findings:
        if x.key() in kn:
            hit.add(x.key())
        else:
            viol.append((c, x))
    for k in kn:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    replay = os.path.join(HERE, "evidence", "%s.replay.txt" % pid)
    if viol:
        with open(replay, "w") as f:
            for c, x in viol:
                f.write("rule: %s\nconstruct: %s\nderived: %s\n" % (x.rule, x.construct, x.detail))
                if x.calls:
                    f.write("functions on the path: %s\n" % ", ".join(x.calls))
                f.write("\n")
    elif os.path.exists(replay):
        os.unlink(replay)
    meth = getattr(mod, "METHOD", "abstract interpretation of the source from the public API")
    cov = {"explanation": meth + " Analysed from %s on this run; nothing is imported or executed." % REPO,
           "rule": getattr(mod, "RULE", ""),
           "abstract_reports": len(res),
           "functions_analysed": len(calls),
           "functions": sorted("%s:%s" % tuple(c) if isinstance(c, (tuple, list)) else str(c) for c in calls)[:400],
           "obligations_by_kind": totals,
           "samples": sorted(samples, key=lambda s: -s["seconds"])[:25],
           "undecided": errors}
    cov.update(ctx.notes)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions + getattr(mod, "ASSUMES", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    for c, x in viol[:12]:
        print("  %s at %s: %s" % (x.rule, x.construct, x.detail[:400]))
    for e in errors[:12]:
        print("  UNDECIDED " + e[:400])
    print("property=%s tier=%s cases=%d %s wall=%.1fs" % (pid, tier, len(res), totals, time.time() - t0))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 2 if errors else 0
