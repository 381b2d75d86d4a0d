"""Complete tokens."""
from . import ref
from .spec import *
from .c05 import family, KW

METHOD = ("Abstract interpretation of report construction over reports in which one word holds a symbolic printable character; what is decoded and "
          "what is left is compared with a reference grammar of the groups, for every character.")
RULE = ("for words of every kind of group: each printable character inserted at every position, instead of every character, and each character removed; "
        "two characters before and after")
ASSUMES = ["irregular forms of groups (checks/ref.py) are not specified", "words that start a new section are C29's"]
ANY = "[!-<>-^`-~]"
ANY2 = "[A-Z0-9+/-]"

TOKENS = dict(
    METAR=["AUTO", "COR", "18005KT", "VRB03G15MPS", "/////KT", "270P99GP99KT", "150V210", "9999", "0800NE", "////", "CAVOK", "P6SM", "1 1/2SM", "M1/4SM",
           "10KM", "0800N", "R12/0800", "R12L/M0600VP1500FTU", "R08C/1200D", "-RA", "FG", "VCTS", "+TSRA", "NSW", "FZDZ", "BKN010", "OVC020CB", "NSC",
           "///015", "VV///", "SCT050TCU", "10/08", "M01/M10", "////", "Q1013", "A2992", "RERA", "RETSRA", "WS R12", "WS ALL RWY", "WS R12L",
           "W15/S3", "WM01/H105", "R12/010203", "R88L///////", "R12/CLRD//", "R/SNOCLO"],
    TREND=["FM0010", "TL0100", "AT2359", "20005KT", "0800", "CAVOK", "1 1/2SM", "-RA", "BKN010CB", "NSC"],
    TAF=["AMD", "COR", "1000/1106", "NIL", "CNL", "18005KT", "VRB10G20MPS", "P6SM", "9999", "1 1/2SM", "CAVOK", "-SHRA", "BKN010", "TX10/1012Z", "TNM01/1102Z"],
    CHANGE=["1003/1005", "20005G35KT", "0800", "1 1/2SM", "-RA", "BKN010CB", "SKC"])
# the groups around; the word stands between those of its place
AROUND = dict(METAR=(["FEW030", "10/08"], ["Q1013", "RERA"]), TREND=([], ["FEW030"]), TAF=(["FEW030"], []), CHANGE=([], ["FEW030"]))


def place(order, tok):
    """The words before and after, of other kinds than the word's."""
    slots = [k if isinstance(k, tuple) else (k,) for k in ref.ORDER[order]]
    w = ref.join(["X"] + tok.split(), order == "METAR")[1]
    q = max(i for i, ks in enumerate(slots) if any(ref.RX[k][0].match(w) for k in ks))
    mine = slots[q]
    pool = dict(METAR=["AUTO", "18005KT", "9999", "R13/0900", "HZ", "FEW030", "10/08", "Q1013", "RESN", "W16/S4"],
                TREND=["20005KT", "9999", "HZ", "FEW030"], TAF=["ZZZZ", "100000Z", "1000/1106", "18005KT", "9999", "HZ", "FEW030"],
                CHANGE=["1003/1005", "20005KT", "9999", "HZ", "FEW030"])[order]
    before, after = [], []
    for t in pool:
        i = max(i for i, ks in enumerate(slots) if any(ref.RX[k][0].match(t) for k in ks))
        if any(k in mine for k in slots[i]):
            continue
        (before if i < q else after).append(t)
    return before, after


def heads(ctx):
    for order, cls, words in (("METAR", "Metar", "METAR ZZZZ 100000Z AUTO 18005KT 9999"), ("METAR", "Metar", "SPECI A0Z9 311559Z 18005KT 9999"),
                              ("TAF", "Taf", "TAF ZZZZ 100000Z 1000/1106 18005KT"), ("TAF", "Taf", "TAF COR ZZZZ 290315Z NIL")):
        words = words.split()
        for k in range(min(4, len(words))):
            tok = words[k]
            for i in range(len(tok) + 1):
                for nm, w, dom in (("inserted at", tok[:i] + "{x}" + tok[i:], ANY), ("at", tok[:i] + "{x}" + tok[i + 1:], ANY),
                                   ("missing at", tok[:i] + "{x}" + tok[i + 1:], [""])):
                    if i == len(tok) and nm != "inserted at":
                        continue
                    text = " ".join(words[:k] + [w] + words[k + 1:])
                    ex, spec = family(order, "r", "", [], text)
                    ctx.case("character %s %d of %s in %s" % (nm, i, tok, " ".join(words)), cls, text, dict(x=dom), {ex: spec}, KW)


def build(ctx):
    heads(ctx)
    for order, cls, pre, head, full, root in ref.SECTIONS:
        for tok in TOKENS[order]:
            before, after = place(order, tok)
            if order == "TAF" and tok in ("NIL", "CNL"):
                after = after[1:]

            def put(name, word, fields):
                ws = before[-3:] + [word] + after[:3]
                if order == "TAF" and before[:2] != ["ZZZZ", "100000Z"] and tok not in ("AMD", "COR"):
                    ws = before + [word] + after[:3]
                text = " ".join(head + ws)
                # symbols named x and y; a brace in the word is not expected
                ex, spec = family(order, root, pre, head, text)
                ctx.case("%s %s in %s" % (name, tok, order), cls, pre + text, fields, {ex: spec}, KW)
            n = len(tok)
            for i in range(n + 1):
                put("character inserted at %d of" % i, tok[:i] + "{x}" + tok[i:], dict(x=ANY))
            for i in range(n):
                if tok[i] == " ":
                    continue
                put("character %d of" % i, tok[:i] + "{x}" + tok[i + 1:], dict(x=ANY))
                put("character missing at %d of" % i, tok[:i] + "{x}" + tok[i + 1:], dict(x=[""]))
            put("two characters before", "{x}{y}" + tok, dict(x=ANY2, y=ANY2))
            put("two characters after", tok + "{x}{y}", dict(x=ANY2, y=ANY2))
