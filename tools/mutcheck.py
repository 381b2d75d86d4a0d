"""Development helper: which check reports each of the mutants found by mutate.py.
usage: mutcheck.py MUT.json OUT.json [WORKERS]"""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {"base/wind.py": "C10 C11 C12", "metar/wind.py": "C10", "base/cloud.py": "C14 C25", "metar/cloud.py": "C14", "runway_state.py": "C20",
         "metar_regexp.py": "C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21", "reports/metar.py": "C31 C30 C29", "weather.py": "C13", "visibility.py": "C12",
         "reports/taf.py": "C31 C29 C22 C30", "runway_range.py": "C17 C18 C20", "conversions.py": "C10 C12 C15 C16 C19 C11", "flight_rules.py": "C25", "sea_state.py": "C19",
         "base/change_indicator.py": "C23 C24", "taf/change_indicator.py": "C23", "base/temperature.py": "C15 C19 C22", "taf/temperature.py": "C22 C15", "trend_indicator.py": "C24",
         "pressure.py": "C16", "windshear.py": "C18", "station.py": "C28 C31", "group.py": "C30 C31 C29", "change_forecast.py": "C23 C30", "temperatures.py": "C15", "cavok.py": "C26",
         "valid.py": "C22 C23 C31", "parser.py": "C29 C12 C18 C23", "taf_regexp.py": "C22 C31 C23 C10 C12 C15", "time.py": "C21", "weather_trend.py": "C24 C30 C31", "report.py": "C31 C29 C21",
         "modifier.py": "C31", "variation.py": "C11", "split.py": "C29", "distance.py": "C12 C14", "numeric.py": "C12 C15", "type.py": "C31", "cancelled.py": "C31", "missing.py": "C31"}
THEN = "C31 C30 C29 C27 C07 C05 C06 C03 C04 C26 C25".split()


def one(job):
    k, (fn, line, what, d, new) = job
    root = "/tmp/mutc.%d" % os.getpid()
    if not os.path.isdir(root):
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = root + fn[len("/repo"):]
    old = open(p).read()
    open(p, "w").write(new)
    order = next((v for f, v in FIRST.items() if fn.endswith(f)), "").split()
    order += [c for c in THEN if c not in order]
    undecided = []
    try:
        for c in order:
            try:
                r = subprocess.run([sys.executable, "run.py", c], cwd=HERE, env=dict(os.environ, AEROMET_REPO=root), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                undecided.append(c + " timeout")
                continue
            if r.returncode == 1:
                return [k, fn, line, what, d, c, undecided]
            if r.returncode:
                undecided.append(c + " " + r.stdout[-200:])
        return [k, fn, line, what, d, None, undecided]
    finally:
        open(p, "w").write(old)


if __name__ == "__main__":
    jobs = [x for x in json.load(open(sys.argv[1])) if x[3]]
    import random
    random.Random(1).shuffle(jobs)
    out = []
    with multiprocessing.Pool(int(sys.argv[3]) if len(sys.argv) > 3 else 4) as pool:
        for r in pool.imap_unordered(one, list(enumerate(jobs))):
            out.append(r)
            json.dump(out, open(sys.argv[2], "w"))
            if r[5] is None or r[6]:
                print(r[1][len("/repo/aeromet_py/"):], r[2], r[3], "| differs", r[4], "|", r[5], r[6], flush=True)
    print(len(out), "done", flush=True)
