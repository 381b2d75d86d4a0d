"""Development helper: plants one change in a scratch copy of /repo, confirms it (builds, stable tests pass, demo passes
before and fails after, only original lines changed) and writes seeded/<id>/.
usage: seed.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(fn):
    ns = {}
    exec(open(fn).read(), ns)
    root = "/tmp/seed.%d" % os.getpid()
    shutil.copytree("/repo", root, symlinks=True)
    try:
        d = os.path.join(HERE, "seeded", ns["ID"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(ns["DEMO"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh("bash", os.path.join(d, "demo.sh"), cwd=root)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stdout[-600:]
        base = sh("git", "log", "--format=%H", "--reverse", cwd=root).stdout.split()[0]
        for path, old, new in ns["EDITS"]:
            p = os.path.join(root, path)
            s = open(p).read()
            if s.count(old) != 1:
                return "%d occurrences of %r in %s" % (s.count(old), old, path)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "diff", cwd=root).stdout
        # removed lines must be the original's
        for path in {e[0] for e in ns["EDITS"]}:
            removed = [l for l in sh("git", "diff", "-U0", path, cwd=root).stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
            orig = sh("git", "show", base + ":" + path, cwd=root).stdout.split("\n")
            for l in removed:
                if l[1:] not in orig:
                    return "line not of the original: " + l
            if not removed:
                print("note: nothing removed in", path)
        r = sh("bash", os.path.join(d, "demo.sh"), cwd=root)
        if r.returncode == 0:
            return "demo does not notice the change"
        print("demo:", r.stdout.strip().split("\n")[-1][:200])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # build and tests with the change in /repo itself
        a = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
        if a.returncode:
            return "patch does not apply: " + a.stdout
        try:
            b = sh("bash", "/opt/vp/build.sh")
            t = sh("bash", "/opt/vp/test.sh", root + ".json")
            res = json.load(open(root + ".json"))
            chk = None
            if "--check" in sys.argv:
                chk = sh(sys.executable, os.path.join(HERE, "run.py"), ns["PROPERTY"], cwd=HERE)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        os.unlink(root + ".json")
        if b.returncode:
            return "does not build"
        base_ok = json.load(open("/opt/vp/BASELINE.json"))
        names = base_ok.get("passed") or base_ok.get("stable") or next(v for v in base_ok.values() if isinstance(v, list))
        lost = [n for n in names if n not in res["passed"]]
        if lost:
            return "tests fail: %s" % lost[:4]
        if chk is not None:
            print("check %s: exit %d" % (ns["PROPERTY"], chk.returncode), [l for l in chk.stdout.split("\n") if l.strip()][:2])
        return None
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    bad = 0
    for fn in sys.argv[1:]:
        if fn.startswith("--"):
            continue
        e = main(fn)
        print(os.path.basename(fn), "REJECTED: " + e if e else "kept")
        sys.stdout.flush()
        if e:
            bad = 1
    sys.exit(bad)
