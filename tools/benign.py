"""Development helper: behaviour-preserving rewrites of /repo (tools/benign/*.py), on which every check has to stay quiet.
usage: benign.py ROUND... [--checks C01,C02]   applies all the edits of each round to one scratch copy, runs the stable
tests and a comparison of outputs on it, then the checks; prints every check which does not exit 0.
A round is a file defining EDITS = [(name, file, old, new), ...]."""
import glob
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
COMPARE = r'''
import sys, json, re
from aeromet_py import Metar, Taf
T = ["METAR LEZL 100000Z 27005KT 9999 FEW010 SCT020CB BKN/// 10/M05 Q1013 RERA WS R12L WS ALL RWY W20/S5 R12/290595 TEMPO FM0010 TL0130 4000 RA BECMG AT0100 CAVOK RMK X Y",
     "SPECI COR KJFK 312359Z AUTO VRB05G15MPS 320V040 1 5/8SM 2 1/2SM R01L/M0500VP1500FT/D R02/0600N -SHRA +TSRA BR VV003 //// 00/M00 A2992 A2993 NOSIG",
     "METAR LYPR 290000Z NIL", "METAR 100000Z XXX 27005KT ////NW 0500NE 3KM RE// SKC R88/CLRD// R/SNOCLO", "METAR MMMX 282300Z TEMPO AT2430 TEMPO BECMG 9999",
     "METAR LEZL 320000Z 99999KT CAVOK OVC0012 VV/// 15//// QNH2992INS W05/H015 R99/////// R01//90099 WS RWY12 TEMPO TEMPO TEMPO RMK A RMK B",
     "METAR LEZL 100000Z 36010G20KPH 4000 FG BKN015 OVC014 M01/M02 Q0999=", "METAR LEZL 100000Z 00000KT 9999 NSC BKN050 10/10 1013", "METAR LEZL 100000Z 9999 SCT049 TCU",
     "METAR LEZL 100000Z 35001KT 9999 SCT050", "METAR LEZL 100000Z 34900KT 9999 FEW050CB"]
for d in range(0, 361, 7):
    T.append("METAR LEZL 10%02d%02dZ %03d%02dKT %04d BKN%03d %02d/M%02d Q%04d R%02d/%d%d%02d%02d" % (d % 24, d % 60, d, d % 99, d * 27, d % 70, d % 40, d % 50, 900 + d, d % 37, d % 10, d % 10, d % 100, d * 7 % 100))
V = ["TAF LEZL 100500Z 1006/1112 18005KT 9999 SCT020 TX15/1014Z TNM02/1106Z PROB30 TEMPO 1010/1012 4000 BECMG 1012/1014 CAVOK FM101800 27010G20KT 9999 NSW FM102000 CAVOK TEMPO 1022/1024 RA BECMG 1100/1102 P6SM",
     "TAF AMD FMMI 311100Z 3112/0124 VRB02KT CAVOK", "TAF COR LEZL 100500Z NIL", "TAF LEZL 100500Z 1006/1112 CNL", "TAF TAF LEZL 100500Z XX 1006/1124 6000 ZZ FM FM1 FM109999 TEMPO TEMPO 1010/1012 TEMPO RA PROB40 1010/1012 1 1/2SM",
     "TAF LEZL 282300Z 2824/0124 00000KT 0000 TX00/2824Z TN01/0100Z TXM05/0103Z TN02/0104Z" + " TEMPO 0100/0102 4000" * 9, "TAF LEZL 100500Z 1006/1112 9999 BKN010 PROB30 1007/1008 0500 TEMPO 1008/1009 RA FM101000 OVC020 TEMPO 1011/1012 SN FM101300 SKC"]
def walk(o, depth=0):
    out = []
    for n in sorted(dir(type(o))):
        if n.startswith("_"): continue
        a = getattr(type(o), n)
        if isinstance(a, property):
            try: v = getattr(o, n)
            except Exception as e: v = repr(e)
            if type(v).__module__.startswith("aeromet"): v = (str(v), walk(v, depth + 1) if depth < 4 else 0)
            elif isinstance(v, list): v = [(str(x), walk(x, depth + 1)) if type(x).__module__.startswith("aeromet") else x for x in v]
            elif isinstance(v, tuple): v = [str(x) for x in v]
            out.append((n, str(v)))
        elif n in ("as_dict", "to_json", "should_be_cavok"):
            try: out.append((n, str(getattr(o, n)())))
            except Exception as e: out.append((n, repr(e)))
    try: out.append((str(o), len(o) if hasattr(o, "__len__") else 0))
    except Exception as e: out.append(repr(e))
    return out
for cls, texts in ((Metar, T), (Taf, V)):
    for t in texts:
        words = t.split()
        for u in [t] + [" ".join(words[:i] + words[i + 1:]) for i in range(2, len(words))]:
            for ym in ((2021, 3), (2020, 2), (2019, 12)):
                try: r = walk(cls(u, year=ym[0], month=ym[1]))
                except Exception as e: r = repr(e)
                print(re.sub(r"0x[0-9a-f]+", "", str(r)))
        try: cls(u, year=2021, month=3, truncate=True)
        except Exception as e: print(repr(e))
from aeromet_py.reports.models.base.station import Station
for c, k in (("LEZL", "ICAO"), ("MROC", "ICAO"), ("SJO", "IATA"), ("78762", "SYNOP"), ("ZZZZ", "ICAO"), ("CDG", "IATA"), (None, None)):
    print(walk(Station(c, k)))
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def out(root):
    return sh("/opt/venv/bin/python", "-c", COMPARE, cwd=root, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")).stdout


def main(argv):
    checks = None
    if "--checks" in argv:
        i = argv.index("--checks")
        checks = argv[i + 1].split(",")
        del argv[i:i + 2]
    only = None
    if "--only" in argv:
        i = argv.index("--only")
        only = argv[i + 1].split(",")
        del argv[i:i + 2]
    if checks is None:
        checks = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    ref = out("/repo")
    assert ref.count("\n") > 500, ref[-500:]
    bad = 0
    for fn in argv:
        ns = {}
        exec(open(os.path.join(HERE, "tools", "benign", fn + ".py")).read(), ns)
        root = "/tmp/benign.%s.%d" % (fn, os.getpid())
        shutil.copytree("/repo", root, symlinks=True)
        try:
            for name, path, old, new in ns["EDITS"]:
                if only and name not in only:
                    continue
                p = os.path.join(root, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print("%s %s: %d occurrences in %s" % (fn, name, s.count(old), path))
                    return 2
                open(p, "w").write(s.replace(old, new))
            o = out(root)
            if o != ref:
                a, b = ref.splitlines(), o.splitlines()
                print(fn, "CHANGES BEHAVIOUR", [(x[:50], next((x[max(0, i - 100):i + 50], y[max(0, i - 100):i + 50]) for i in range(len(x) + 1) if x[:i + 1] != y[:i + 1])) for x, y in zip(a, b) if x != y][:2], o[-300:] if len(b) < len(a) else "")
                return 2
            r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", cwd=root, env=dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1"))
            print(fn, r.stdout.strip().splitlines()[-1])
            for c in checks:
                t = time.time()
                r = sh(sys.executable, "run.py", c, cwd=HERE, env=dict(os.environ, AEROMET_REPO=root))
                if r.returncode or time.time() - t > 400:
                    bad += 1
                    print("%s %s: exit %d after %.0f s\n%s" % (fn, c, r.returncode, time.time() - t, r.stdout[-700:]), flush=True)
        finally:
            shutil.rmtree(root)
        print("%s: %d edits, %d checks done" % (fn, len(ns["EDITS"]), len(checks)), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
