"""Reference semantics of report groups, written from the METAR/TAF code manuals
(WMO No. 306 FM 15/FM 51, ICAO Annex 3) and the package's documentation; nothing is
taken from the package's source."""
import math

KT = dict(in_knot=1.0, in_mps=1852.0 / 3600, in_kph=1.852, in_miph=1852 / 1609.344)
DIST = dict(in_meters=1.0, in_kilometers=0.001, in_sea_miles=1 / 1852.0, in_feet=1 / 0.3048)
ANGLE = dict(in_degrees=1.0, in_radians=math.pi / 180, in_gradians=10.0 / 9)
PRES = dict(in_hPa=1.0, in_inHg=1 / 33.86389, in_mbar=1.0, in_bar=0.001, in_atm=1 / 1013.25)
TEMP = dict(in_celsius=lambda c: c, in_kelvin=lambda c: c + 273.15, in_fahrenheit=lambda c: c * 1.8 + 32,
            in_rankine=lambda c: (c + 273.15) * 1.8)
ROSE = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]

# where a group of the body may stand: (context, class, report text, access path)
WIND_AT = [
    ("METAR body", "Metar", "METAR ZZZZ 100000Z %s", "r.wind"),
    ("SPECI AUTO body", "Metar", "SPECI ZZZZ 100000Z AUTO %s 9999 10/08 Q1013", "r.wind"),
    ("METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 10/08 Q1013 BECMG FM0030 %s", "r.weather_trends[0].wind"),
    ("TAF body", "Taf", "TAF ZZZZ 100000Z 1000/1106 %s 9999", "r.wind"),
    ("TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 TEMPO 1000/1006 %s", "r.changes_forecasted[0].wind"),
    ("TAF FM change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 FM100600 %s", "r.changes_forecasted[0].wind"),
]


def rose(deg):
    return ROSE[int(((deg + 11.25) % 360) // 22.5)]


def scaled(x, k):
    return None if x is None else x * k

# where weather and cloud groups may stand
LIST_AT = [
    ("METAR body", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 %s", "r"),
    ("METAR body with ranges", "Metar", "METAR ZZZZ 100000Z 00000KT 0800 R12/0800 %s 10/09 Q1013 NOSIG", "r"),
    ("METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 10/08 TEMPO FM0010 TL0130 %s", "r.weather_trends[0]"),
    ("TAF body", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 %s TX10/1012Z", "r"),
    ("TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 BECMG 1000/1006 4000 %s", "r.changes_forecasted[0]"),
    ("second TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 FM100400 RA TEMPO 1006/1008 %s",
     "r.changes_forecasted[1]"),
]
INTENSITY = {"": None, "-": "light", "+": "heavy", "-VC": "nearby light", "+VC": "nearby heavy", "VC": "nearby"}
DESCRIPTOR = {"": None, "MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting", "BL": "blowing",
              "SH": "showers", "TS": "thunderstorm", "FZ": "freezing"}
PRECIP = {"DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains", "IC": "ice crystals", "PL": "ice pellets",
          "GR": "hail", "GS": "snow pellets", "UP": "unknown precipitation"}
OBSC = {"BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust", "SA": "sand", "HZ": "haze",
        "PY": "spray"}
OTHER = {"PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm", "DS": "dust storm"}
PHEN = list(PRECIP) + list(OBSC) + list(OTHER)
COVER = {"SKC": "clear", "CLR": "clear", "NSC": "clear", "NCD": "clear", "FEW": "a few", "SCT": "scattered",
         "BKN": "broken", "OVC": "overcast", "0VC": "overcast", "///": "undefined", "VV": "indefinite ceiling"}
OKTAS = {"FEW": "1-2", "SCT": "3-4", "BKN": "5-7", "OVC": "8", "0VC": "8", "NSC": "not specified",
         "NCD": "not specified", "SKC": "undefined", "CLR": "undefined", "///": "undefined", "VV": "undefined"}
CTYPE = {"": None, "CB": "cumulonimbus", "TCU": "towering cumulus", "///": None}
RWY = {"R": "right", "L": "left", "C": "center"}


def words(*ws):
    return "|".join(w.replace("+", r"\+") for w in ws)


def runway(name):
    if name[2:]:
        return name[:2] + " " + RWY[name[2]]
    return {"88": "all runways", "99": "repeated"}.get(name, name)

# where a forecast (visibility, weather, clouds) may stand; the changes have their own visibility and clouds
SKY_AT = [
    ("METAR body", "Metar", "METAR ZZZZ 100000Z 00000KT %s 10/08 Q1013 NOSIG", "r"),
    ("METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 0200 OVC001 10/08 Q1013 TEMPO %s", "r.weather_trends[0]"),
    ("second METAR trend", "Metar", "METAR ZZZZ 100000Z 00000KT 9999 FEW040 10/08 Q1013 BECMG 3000 TEMPO FM0010 TL0130 %s",
     "r.weather_trends[1]"),
    ("TAF body", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT %s TX10/1012Z", "r"),
    ("TAF change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 0200 OVC001 TEMPO 1000/1006 %s", "r.changes_forecasted[0]"),
    ("TAF FM change", "Taf", "TAF ZZZZ 100000Z 1000/1106 00000KT 9999 FM100400 18010KT %s", "r.changes_forecasted[0]"),
]


def metres(v):
    """Metres of a four digit visibility."""
    return 10000.0 if v in ("9999", "CAVOK") else float(v)
