"""Texts a decoder may be given: every kind of group, well formed or nearly so, symbolic over its characters, wherever
a group may stand, and texts that are no report at all."""

D = "(|MI|SH|TS|FZ|ZZ)"
# kind: the language of its groups and of what could be taken for one
GROUPS = dict(
    station=r"[A-Z\d]{3}|[A-Z\d]{5}|[a-z]{4}|Z[A-Z\d]{3}|\d[A-Z]{3}",
    stations=r"[A-Z\d]{4}",
    time=r"\d{5,7}Z?|\d{6}z|//////Z|\d{4}//Z",
    valid=r"(\d\d(00|24)/(01|31|32)(00|24)|(00|01|31|32)\d\d/31(06|24)|(01|15|31)12/\d\d(00|24)|3112/(01|31)\d\d|\d{4}/0112)|\d{3}/\d{4}|\d{4}/\d{3}|\d{6}/\d{4}|////////|\d{4}/\d{4}Z|\d\d//\d{4}|\d{6}",
    wind=r"(\d{3}|VRB)(\d\d|//)(|G\d\d)(KT|MPS)|///(\d\d|//)(|G//)KT|\d{3}P?\d{2,3}GP\d{2,3}KT|\d{3}[P\d]\d{2}(|KMH|KTS)|/////|VRB(|\d)KT|KT|G\d\dKT|V[RB]B\d\dKT",
    variation=r"\d{3}V\d{3}|\d{2,4}V\d{3}|\d{3}V|///V///|V\d{3}",
    vis=r"\d{3,5}(|N|SW|NDV|X)|[\d/]{4}|////(SM|NDV|N)|[MP]?\d{0,2}/?\d{0,2}(SM|KM|U|M)|CAVOK|KCAVOK|9999CAVOK",
    miles=r"[MP]?\d{1,2} [MP]?\d/\d{1,2}SM|\d \d{1,2}SM|\d{1,2} \d{1,2}/SM|\d /\dSM|\d \dSM \d/\dSM",
    range=r"R\d{1,2}[LX]?/[MP]?\d{4}(|FTU)|R1\dC/(////|\d{3}/)[UX]?|R0[79]/M?\d{4}VP?\d{4}(FT|D)|R36/P?0800V(P|M|)\d{4}(|FT/?N)|R36/\d{4}V////|R\d\dC?/////|RVR\d\d/\d{4}|R\d\d[LR]/\d{3}",
    weather="([+-]|)(VC|)%s(|RA|FG|SQ|ZZ)|(TS|RA|VCSH|FC|-)(/|//)|RASN|TSRAGR|NSW|\\+|VC|//" % D,
    cloud=r"(FEW|VV|///|CLR|XXX)[\d/]{0,4}(|CB|TCU|///|X)|(BKN|OVC|SCT|0VC)\d{0,3}(|CB)|SKC|NSC|NCD|FEWCB|CB|\d{3}",
    temperatures=r"[M-]?[\d/X]{2}/[M-]?[\d/M]{0,2}|\d{1,3}/\d{1,3}|M/M|/|//|XX/XX",
    pressure=r"(|A|Q|QNH)[\d/]{3,5}(|INS)|Q\d{2}\.\d|QFE\d{4}|QNH|INS",
    recent=r"RE%s(|RA|FG|SQ|ZZ)|RERERA|REVCSH|RE-RA" % D,
    windshear=r"WS (R|RWY)\d{0,3}[LCRX]?|WS|WS ALL( RWY|)|WS RWY ALL|WS R\d\d WS R\d\d WS R\d\d WS R\d\d|WS ALL RWY WS ALL RWY WS R\d\d",
    sea=r"W[M-]?[\d/]{2}/[SH][\d/]{0,4}|W\d\d/|W/S\d|W[M-]?\d\d/H\d{2}S\d|W\d\dS\d",
    state=r"R12/[\d/]{2}1095|R27L/12[\d/]{2}35|R08C/1210[\d/]{2}|R88/(\d0|//)10(\d0|//)|R99/////9\d|R?\d{0,2}[LR]?/(\d{5}|\d{7}|123456|//////)|R\d\d/CLRD[\d/]{0,3}|R/SNOCLO|SNOCLO|R\d\d/SNOCLO|8\d{7}|R/CLRD//",
    indicator=r"TEMPO|BECMG|NOSIG|NOSIG NOSIG|TEMPO TEMPO|BECMG TEMPO BECMG|INTER|TEMPO NOSIG|BECMG RMK|RMK|RMK RMK|PROB30|FM|TL|AT|=",
    period=r"(FM|TL|AT)\d{3,5}|(FM|AT)[\d/]{4}|(FM|TL|AT)(|Z)|FM\d{4} TL\d{4}|FM\d{4} FM\d{4}|AT\d{4} AT\d{4} AT\d{4}|FM\d{4}Z",
    change=r"FM\d{5,7}|PROB\d\d( TEMPO|)|PROB(|TEMPO)|TEMPO BECMG|TEMPO (09|10|3[01])[0-2]\d/1[0-2]06|BECMG 1012/[0-3]\d24|BECMG \d{4}/1018 1012/1014|FM[0-3]\d0900 1010/1112|PROB30 1024/\d\d06|TEMPO \d{4}|PROB40 BECMG",
    extreme=r"T[XN]M?\d\d/\d\d(\d\d|)Z?|T[XN]\d\d/(\d{3}|\d{5})Z|T[XN](//|\d/)/\d{4}Z|T[XN]\d\d|TX\d\d/\d\d12Z TN\d\d/1\d06Z|TX\d\d/10\d\dZ TX01/\d\d12Z TX02/1012Z",
    head=r"METAR|SPECI|TAF|COR|AUTO|AMD|NIL|CNL|CCA|TEST|FINO|METAR METAR|TAF TAF|TAF AMD TAF|CNL NIL|NIL NIL|COR COR",
    marks=r"[!-~]{1,2}|[A-Z]{3}|[/_.]{3}|\(.\)",
)
FRAMES = [
    ("Metar", "{w}", "lead"), ("Metar", "METAR {w}", "lead"), ("Metar", "SPECI COR LEZL 312359Z {w}", "body"), ("Metar", "METAR LEZL {w} 18005KT", "body"),
    ("Metar", "METAR LEZL 100000Z 18005KT 9999 RA FEW020 10/08 Q1013 {w}", "body"), ("Metar", "METAR LEZL 100000Z 0800 {w} FG {w} Q1013", "body"),
    ("Metar", "METAR LEZL 100000Z 9999 NOSIG {w}", "body"), ("Metar", "METAR LEZL 312320Z 9999 TEMPO {w}", "trend"), ("Metar", "METAR LEZL 9999 BECMG FM0010 {w} BECMG", "trend"),
    ("Metar", "METAR LEZL 100000Z BECMG 9999 TEMPO AT0030 4000 RA {w} RMK {w}", "trend"),
    ("Taf", "{w}", "lead"), ("Taf", "TAF {w}", "lead"), ("Taf", "TAF COR LEZL 310500Z {w}", "tbody"), ("Taf", "TAF LEZL 100500Z 1006/1112 {w}", "tbody"),
    ("Taf", "TAF LEZL 1006/1112 18005KT 9999 RA FEW020 {w} TX12/1012Z TN01/1104Z {w}", "tbody"), ("Taf", "TAF LEZL 302300Z 3000/0106 9999 TEMPO {w}", "change"),
    ("Taf", "TAF LEZL TEMPO 1010/1012 {w} BECMG {w}", "change"), ("Taf", "TAF LEZL 100500Z 1006/1112 FM101000 {w}", "change"),
    ("Taf", "TAF LEZL 100500Z 1006/1112 CNL PROB30 TEMPO 1010/1012 9999 {w} FM", "change"),
]
LEAD = ("station", "time", "marks", "head", "wind", "indicator", "change")
SECTION = dict(
    lead=LEAD,
    body=("time", "wind", "variation", "vis", "miles", "range", "weather", "cloud", "temperatures", "pressure", "recent", "windshear", "sea", "state",
          "indicator", "period", "head", "marks", "change"),
    trend=("wind", "vis", "miles", "weather", "cloud", "period", "indicator", "time", "marks", "valid", "temperatures"),
    tbody=("time", "valid", "wind", "vis", "miles", "weather", "cloud", "extreme", "change", "head", "marks", "period", "indicator", "pressure"),
    change=("valid", "wind", "vis", "miles", "weather", "cloud", "change", "extreme", "time", "marks", "indicator"))
ODD = [" ", "\n", "\t", "=", " = ", "==", "METAR", "metar lezl 100000z", "TAF", "TAF TAF", "METAR=", "TAF=", "RMK", "RMK RMK", "TEMPO", "BECMG TEMPO", "NOSIG",
       "FM", "FM101010", "PROB30", "TEMPO RMK", "METAR RMK", "TAF FM101000", "TAF LEZL FM101000 TEMPO", "METAR  LEZL   100000Z", "\nMETAR LEZL\n100000Z\n9999=\n",
       "METAR LEZL 100000Z 9999= METAR LEZL 110000Z 9999=", "é", "METAR LÉZL 100000Z", "METAR LEZL 10000\u0660Z", "\u200b", "METAR LEZL 100000Z \u0663\u0663\u0663\u0663",
       "_", "A_B", "METAR LEZL 100000Z 1_1/2SM", "WS_R12", "%s %d", "\\", "(", "[a-z", "a" * 60, "METAR " + "X " * 30, "TAF LEZL " + "TEMPO " * 12,
       "METAR LEZL 100000Z " + "TEMPO " * 4, "METAR LEZL 100000Z " + "BECMG TEMPO " * 3 + "NOSIG", "METAR LEZL 100000Z " + "RA " * 6 + "BKN010 " * 7,
       "TAF LEZL 100500Z 1006/1112 " + "TX10/1012Z TN01/1104Z " * 3, "TAF LEZL 100500Z 1006/1112 " + "FM101000 9999 " * 10,
       "METAR LEZL 100000Z NIL", "METAR NIL", "TAF NIL", "TAF CNL", "TAF AMD CNL NIL", "TAF LEZL 100500Z NIL 1006/1112 CNL TEMPO", "METAR COR", "SPECI AUTO",
       "LEZL 100000Z 18005KT 9999", "METAR LEZL 100000Z 18005KT 9999 NOSIG RMK", "METAR LEZL 100000Z 00000KT CAVOK 10/ Q NOSIG=", "METAR LEZL 990000Z 9999 TEMPO FM2330",
       "TAF LEZL 100500Z 3524/9999 FM992599 TEMPO 0000/0000", "METAR LEZL 100000Z 1/0SM", "METAR LEZL 100000Z 0/0SM 1 0/0SM"]
LATE = ["TAF LEZL 310500Z 3106/3112 TX10/3112Z FM311000", "TAF AMD LEZL 302300Z 3100/0106 9999 TEMPO 3123/0124 FM010000 BECMG 0106/0206 TXM01/3124Z"]
MONTHS = [dict(year=2021, month=3), dict(year=2021, month=2), dict(year=2020, month=2), dict(year=2021, month=12), dict(year=1999, month=1), dict(year=2022, month=4)]


def texts():
    """(class, frame, kind, language)"""
    yield "Metar", "METAR {w} 100000Z", "stations", GROUPS["stations"]
    yield "Taf", "TAF {w}", "stations", GROUPS["stations"]
    for cls, frame, sec in FRAMES:
        for k in SECTION[sec]:
            yield cls, frame, k, GROUPS[k]
