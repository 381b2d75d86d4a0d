"""Reference grammar of the reports: the groups in the order of FM 15 and FM 51, each at
most as many times as the code allows. For each kind of group there is the language that
must be decoded and a wider one about which nothing is specified (irregular forms): a
report where a word of the second decides is left out of the comparison."""
import re

DIR = "(N|NE|E|SE|S|SW|W|NW)"
DESC = "(MI|PR|BC|DR|BL|SH|TS|FZ)"
PHEN = "(DZ|RA|SN|SG|IC|PL|GR|GS|UP|BR|FG|FU|VA|DU|SA|HZ|PY|PO|SQ|FC|SS|DS)"
DAY, HOUR = r"(0[1-9]|[12]\d|3[01])", r"([01]\d|2[0-3])"
ANGLE = r"(0\d|[12]\d|3[0-6])0"
RW = r"\d\d[LCR]?"
MILES = r"([MP]?\d{1,2}|[MP]?\d/[1-9]|\d{1,2}_\d/[1-9])SM|\d{1,2}KM|CAVOK"
ODD_MILES = r"[MP]?(\d{1,2})?_?(\d/\d{1,2})?(SM|KM|M|U)"

# kind: (the language decoded, irregular words)
WORDS = dict(
    type=("METAR|SPECI", "TAF"),
    taf=("TAF", "METAR|SPECI"),
    station=("[A-Z][A-Z0-9]{3}", None),
    time=(DAY + HOUR + r"[0-5]\dZ", None),
    modifier=("COR|AUTO|NIL", "CORR|AMD|TEST|FINO|CCA"),
    amd=("AMD|COR", None),
    nil=("NIL", None),
    cnl=("CNL", None),
    valid=(DAY + HOUR + "/" + DAY + r"([01]\d|2[0-4])", None),
    wind=("(VRB|///|%s)(P?\\d{2,3}|//)(GP?\\d{2,3})?(KT|MPS)" % ANGLE, "[0-9VRB/]{3}[P0-9/]{2,4}(G[P0-9/]{2,4})?(KT|MPS|KMH)"),
    tafwind=("(VRB|%s)P?\\d{2,3}(GP?\\d{2,3})?(KT|MPS)" % ANGLE, "[0-9VRB/]{3}[P0-9/]{2,4}(G[P0-9/]{2,4})?(KT|MPS|KMH)"),
    variation=(r"(0[1-9]|[12]\d|3[0-6])0V(0[1-9]|[12]\d|3[0-6])0", r"\d{3}V\d{3}"),
    vis=(r"\d{4}%s?|////|%s" % (DIR, MILES), "////%s|\\d{4}NDV|%s" % (DIR, ODD_MILES)),
    tafvis=(r"\d{4}%s?|%s" % (DIR, MILES), "////%s?|\\d{4}NDV|%s" % (DIR, ODD_MILES)),
    minimum=(r"\d{4}" + DIR, "(\\d{4}|////)%s?" % DIR),
    range=(r"R%s/[MP]?\d{4}(V[MP]?\d{4})?(FT)?[NDU]?" % RW, r"R[0-9LCR]*/[MPVFTNDU0-9/]*"),
    weather=(r"(\+|-|VC|\+VC|-VC)?%s?%s|(\+|-|VC|\+VC|-VC)?(SH|TS)|NSW" % (DESC, PHEN), r"[+-]?(VC)?%s*(%s|NSW)*/{0,2}" % (DESC, PHEN)),
    cloud=(r"(FEW|SCT|BKN|OVC|VV)(\d{3}|///)(CB|TCU|///)?|SKC|CLR|NSC|NCD|///(\d{3}|///)(CB|TCU|///)?",
           r"(VV|CLR|SKC|NSC|NCD|BKN|SCT|FEW|[O0]VC|///)(\d{3}|///)?(TCU|CB|///)?"),
    temperatures=("M?(\\d\\d|//)/M?(\\d\\d|//)", "[M-]?(\\d\\d|//|XX|MM)/[M-]?(\\d\\d|//|XX|MM)?"),
    pressure=(r"[AQ]\d{4}|QNH\d{4}INS", r"(A|Q|QNH)?(\d{4}|////)(INS)?|[AQ][0-9/]{4}"),
    recent=("RE%s?%s|RE(SH|TS)" % (DESC, PHEN), "RE%s*%s*" % (DESC, PHEN)),
    windshear=(r"WS_ALL_RWY|WS_R(WY)?" + RW, "WS.*"),
    sea=(r"WM?\d\d/(S\d|H\d{3})", r"W(M?\d\d|//)/(S[\d/]|H[\d/]{1,3})"),
    state=(r"R%s/[0-9/]{2}(\d\d|//)(\d\d|//)|R%s/CLRD//|R/SNOCLO" % (RW, RW), r"R(%s)?/([0-9/]{6}|CLRD(//|\d\d)|SNOCLO)|8.*" % RW),
    indicator=("TEMPO|BECMG", "NOSIG"),
    period=(r"(FM|TL|AT)([01]\d[0-5]\d|2[0-3][0-5]\d|2400)", r"(FM|TL|AT)\d{4}"),
    change=(r"TEMPO|BECMG|FM%s%s[0-5]\d|PROB[34]0(_TEMPO)?" % (DAY, HOUR), None),
    tx=(r"TXM?\d\d/%s%sZ" % (DAY, HOUR), r"T[XN]M?\d\d/\d{2,4}Z?"),
    tn=(r"TNM?\d\d/%s%sZ" % (DAY, HOUR), r"T[XN]M?\d\d/\d{2,4}Z?"),
)
RX = {k: (re.compile("(?:%s)\\Z" % a, re.A), b and re.compile("(?:%s)\\Z" % b, re.A)) for k, (a, b) in WORDS.items()}
SKY = ["weather"] * 3 + ["cloud"] * 4
METAR = (["type", "station", "time", "modifier", "wind", "variation", "vis", "minimum"] + ["range"] * 3 + SKY
         + ["temperatures", "pressure", "pressure", "recent"] + ["windshear"] * 3 + ["sea", "state"])
TREND = ["indicator", "period", "period", "wind", "vis"] + SKY
TAF = ["taf", "amd", "station", "time", "nil", "valid", "cnl", "tafwind", "tafvis"] + SKY + [("tx", "tn")] * 4
CHANGE = ["change", "valid", "tafwind", "vis"] + SKY
ORDER = dict(METAR=METAR, TREND=TREND, TAF=TAF, CHANGE=CHANGE)


PARTS = {}      # the parts of combined observations, for reports


class Unspecified(Exception):
    pass


def join(words, windshear):
    """Groups written as more than one word."""
    out = []
    i = vis = ws = 0
    while i < len(words):
        w, nxt = words[i], words[i + 1:i + 3]
        if "_" in w:
            raise Unspecified
        if out and re.match(r"\d{1,2}\Z", w, re.A) and nxt and re.match(r"\d/\dSM\Z", nxt[0], re.A):
            out.append(w + "_" + nxt[0])
            i += 2
            vis += 1
        elif windshear and w == "WS" and nxt == ["ALL", "RWY"]:
            out.append("WS_ALL_RWY")
            i += 3
        elif windshear and w == "WS" and nxt and re.match("R(WY)?%s\\Z" % RW, nxt[0], re.A):
            out.append(w + "_" + nxt[0])
            i += 2
            ws += 1
        elif w == "PROB30" and nxt[:1] == ["TEMPO"] or w == "PROB40" and nxt[:1] == ["TEMPO"]:
            out.append(w + "_TEMPO")
            i += 2
        else:
            out.append(w)
            i += 1
    if vis > 3 or ws > 3:
        raise Unspecified
    return out


def parse(order, text):
    """({kind: [groups decoded]}, [groups left]) of one section."""
    slots = ORDER[order]
    got, left = {}, []
    p = 0
    for w in join(text.split(), order == "METAR"):
        q = None
        for i in range(p, len(slots)):
            ks = slots[i] if isinstance(slots[i], tuple) else (slots[i],)
            q = next(((i, k) for k in ks if RX[k][0].match(w)), None)
            if q:
                break
            if any(RX[k][1] is not None and RX[k][1].match(w) for k in ks):
                raise Unspecified
        if q is None:
            left += w.split("_")
        else:
            p = q[0] + 1
            got.setdefault(q[1], []).append(w.replace("_", " "))
    for k in ("tx", "tn"):
        if len(got.get(k, ())) > 2:
            raise Unspecified
    return got, left


SINGLE = dict(
    METAR=[("type", "type_"), ("station", "station"), ("time", "time"), ("modifier", "modifier"), ("wind", "wind"), ("variation", "wind_variation"),
           ("vis", "prevailing_visibility"), ("minimum", "minimum_visibility"), ("temperatures", "temperatures"), ("recent", "recent_weather"),
           ("sea", "sea_state"), ("state", "runway_state")],
    TREND=[("indicator", "trend_indicator"), ("wind", "wind"), ("vis", "prevailing_visibility")],
    TAF=[("taf", "type_"), ("amd", "modifier"), ("station", "station"), ("time", "time"), ("nil", "missing"), ("valid", "valid"), ("cnl", "cancelled"),
         ("tafwind", "wind"), ("tafvis", "prevailing_visibility")],
    CHANGE=[("change", "change_indicator"), ("tafwind", "wind"), ("vis", "prevailing_visibility")])
LISTS = dict(METAR=[("range", "runway_ranges"), ("weather", "weathers"), ("cloud", "clouds"), ("windshear", "windshears")],
             TREND=[("weather", "weathers"), ("cloud", "clouds")],
             TAF=[("weather", "weathers"), ("cloud", "clouds"), ("tx", "max_temperatures"), ("tn", "min_temperatures")],
             CHANGE=[("weather", "weathers"), ("cloud", "clouds")])


def observed(order, root, skip=()):
    """Expression reading every group decoded in a section, and its specification of the section's text."""
    one = [(k, f) for k, f in SINGLE[order] if k not in skip]
    many = [(k, f) for k, f in LISTS[order] if k not in skip]
    ex = ["%s.%s.code" % (root, f) for k, f in one]
    ex += ["[x.code for x in %s.%s]" % (root, f) for k, f in many]
    if order == "METAR":
        ex.append("%s.pressure.in_hPa is None" % root)
    ex.append("%s.unparsed_groups" % root)

    def spec(text):
        got, left = parse(order, text)
        v = []
        for k, f in one:
            if len(got.get(k, ())) > 1:
                raise Unspecified
            g = got[k][0] if k in got else dict(type="METAR", taf="TAF").get(k)
            if k == "indicator" and g:
                g = " ".join([g] + got.get("period", []))
            if k == "change" and g and "valid" in got:
                if g.startswith("FM"):
                    raise Unspecified
                g += " " + got["valid"][0]
            v.append(g)
        v += [got.get(k, []) for k, f in many]
        if order == "METAR":
            v.append("pressure" not in got)
        return v + [left]
    e = "[%s]" % ", ".join(ex)
    PARTS[e] = ex
    return e, spec


# sections where groups stand: (name, class, text before, first groups, all groups in order, root)
SECTIONS = [
    ("METAR", "Metar", "", "METAR ZZZZ 100000Z".split(),
     ["AUTO", "18005KT", "150V210", "1 1/2SM", "0800N", "R12/0800", "R13/0900", "-RA", "FG", "BKN010", "OVC020", "10/08", "Q1013", "A2992",
      "RERA", "WS R12", "WS RWY14", "W15/S3", "R12/010203"], "r"),
    ("TREND", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 FEW020 10/08 Q1013 ", ["TEMPO"],
     ["FM0010", "TL0100", "20005KT", "1 1/2SM", "-RA", "FG", "BKN010", "OVC020CB"], "r.weather_trends[0]"),
    ("TAF", "Taf", "", ["TAF"],
     ["AMD", "ZZZZ", "100000Z", "1000/1106", "18005KT", "1 1/2SM", "-RA", "FG", "BKN010", "OVC020", "TX10/1012Z", "TN01/1102Z"], "r"),
    ("CHANGE", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 ", ["PROB40 TEMPO"],
     ["1003/1005", "20005KT", "1 1/2SM", "-RA", "FG", "BKN010", "OVC020CB"], "r.changes_forecasted[0]"),
]
CUT = dict(METAR=("NOSIG", "TEMPO", "BECMG", "RMK"), TREND=("NOSIG", "TEMPO", "BECMG", "RMK"), TAF=("FM", "TEMPO", "BECMG", "PROB"),
           CHANGE=("FM", "TEMPO", "BECMG", "PROB"))
