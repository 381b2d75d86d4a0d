"""Writes properties.jsonl and MANIFEST.json from the table below (only properties with a check are claimed)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
M = "aeromet_py/reports/models/"
RX = ["aeromet_py/utils/metar_regexp.py", "aeromet_py/utils/taf_regexp.py"]
REPORTS = ["aeromet_py/reports/metar.py", "aeromet_py/reports/taf.py", M + "base/report.py"]
SAMPLES = ("Quantifies over every value of the group in every place of a report; the tests decode a few dozen fixed "
           "reports and never sweep %s.")

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)], level note
T = []


def P(pid, title, statement, text, why, files, mech, over=("inputs",), note=None, na=None):
    T.append(dict(id=pid, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech,
                  note=note, na=na))


P("C01", "Decoding never crashes on any text",
  "Constructing a METAR or TAF from any non-empty text never raises an exception; with truncation enabled the only exception that "
  "can leave the constructor is the documented parser error. Malformed, misplaced, repeated or impossible groups end up "
  "among the unparsed groups.",
  "Every string given as the report, with any year/month given or not, truncate on or off.",
  "An infinite input space of malformed text; the tests hold a few hand-picked wrong groups.",
  REPORTS + RX, [("handlers and section parsing", "aeromet_py/reports/*.py"), ("recognisers", "aeromet_py/utils/*_regexp.py")])
P("C02", "Every documented read of a decoded report succeeds",
  "For every text, each documented accessor, description, item access inside the length, and dictionary export of the "
  "resulting report returns a value and never raises.",
  "Every string given as the report and every public accessor of the object built from it.",
  "Needs all combinations of present, missing and partially missing groups with all accessors.",
  REPORTS + [M], [("models' properties, __str__ and as_dict", M)])
P("C03", "Reading a report never changes it",
  "Reading accessors, formatting, iterating or exporting a decoded report does not modify it, so that every read can be "
  "repeated in any order, and interleaved with others, with the same result; nor do two reports share mutable state.",
  "Every sequence of reads over every report, including nested iterations over the same list, and over several reports.",
  "Quantifies over histories of reads; tests read each attribute once.",
  [M, "aeromet_py/utils", "aeromet_py/reports"], [("GroupList iteration, lazy properties, class-level tables", M + "base/group.py")],
  over=("histories", "inputs"))
P("C04", "Decoding has no outside effects and depends only on its inputs",
  "Decoding and reading a report never prints, writes, opens, spawns or changes anything outside the report itself; the "
  "result depends only on the text and the arguments, the clock being consulted only when the year or month (or a time) "
  "is not given.",
  "Every call path from the public classes.",
  "Tests cannot observe absence of effects on paths they do not run, nor dependence on a clock.",
  [M, "aeromet_py/utils", "aeromet_py/reports", "aeromet_py/database"], [("the whole call graph from Metar and Taf", "aeromet_py/")],
  over=("inputs", "programs"))
P("C05", "Every group is decoded or reported as unparsed, in order",
  "Each group of the text is either decoded by exactly one field or listed, unchanged and in order, in the unparsed "
  "groups; a misplaced or unknown group never swallows, duplicates or displaces the groups around it.",
  "Unknown groups inserted at every position of reports with every kind of group.",
  "The tests have a few reports with one unparsed group; positions and combinations are unbounded.",
  REPORTS, [("parse_section", M + "base/report.py")])
P("C06", "Truncation fails exactly when something is left unparsed",
  "With truncation enabled, construction raises the parser error if and only if the same text without truncation leaves "
  "unparsed groups; otherwise the decoded report is the same.",
  "Reports with and without unknown groups at every position and in every section.",
  "Two tests exercise it.", REPORTS, [("_parse_groups with truncate", M + "base/report.py")])
P("C07", "A group is recognised only as a complete token",
  "A word that merely starts with, ends with or contains a valid group is not decoded as that group.",
  "Every valid group with any printable characters put before or after it.",
  "Near-misses are unbounded; tests check valid groups.", RX + REPORTS, [("regular expressions", "aeromet_py/utils/*_regexp.py")])
P("C10", "Wind groups decode to the encoded direction, speed and gust",
  "Every wind group yields the encoded direction, speed and gust, converted correctly to every offered unit, with missing "
  "parts as None, wherever in a METAR or TAF it stands.",
  "Every direction, speed, gust and unit (and missing forms) in body, trend and change periods.",
  SAMPLES % "directions, speeds and units", ["aeromet_py/utils/metar_regexp.py", M + "metar/wind.py", M + "base/wind.py"],
  [("wind handler", "aeromet_py/reports/metar.py:_handle_wind"), ("unit conversions", "aeromet_py/utils/conversions.py")])
P("C11", "Wind variation decodes to the encoded sector",
  "Every wind-variation group yields both encoded directions, in every unit and as compass points, independently of the "
  "wind group before it.",
  "Every pair of directions after every kind of wind.", SAMPLES % "pairs of directions",
  [M + "metar/wind_variation.py"], [("wind variation handler", "aeromet_py/reports/metar.py")])
P("C12", "Visibility groups decode to the encoded distance",
  "Every visibility group (metres with direction, statute miles with fractions, kilometres, CAVOK, missing) yields the "
  "encoded distance in every unit with its direction and CAVOK flag; minimum visibility likewise.",
  "Every value, fraction, unit and direction in every place.", SAMPLES % "fractions, units and directions",
  [M + "metar/visibility.py", "aeromet_py/utils/parser.py"], [("visibility handlers", "aeromet_py/reports/metar.py"), ("CAVOK/whole-and-fraction sanitising", "aeromet_py/utils/parser.py")])
P("C13", "Weather groups decode to their intensity, description and phenomena",
  "Every present or recent weather group yields the encoded intensity, descriptor, precipitation, obscuration and other "
  "phenomenon and nothing else, in order, in body, trend and change periods.",
  "Every combination of intensity, descriptor and phenomena in each list position.", SAMPLES % "weather combinations",
  [M + "metar/weather.py", M + "metar/recent_weather.py"], [("weather handlers", "aeromet_py/reports/metar.py")])
P("C14", "Cloud groups decode to cover, height and type; ceiling follows",
  "Every cloud group yields the encoded cover, oktas, height in every unit and type, in order; the list reports a ceiling "
  "exactly when a broken or overcast layer lies at or below 1500 ft.",
  "Every cover, height and type at each of four layers in each place; all pairs of covers and heights for the ceiling.",
  SAMPLES % "layers", [M + "metar/cloud.py", M + "base/cloud.py"], [("cloud handlers and ceiling", M + "metar/cloud.py")])
P("C15", "Temperatures decode with their sign in every unit",
  "Every temperature and dew point of a METAR and every extreme temperature of a TAF yields the encoded signed value in "
  "Celsius, Kelvin, Fahrenheit and Rankine, or None when missing.",
  "Every sign and value of each part.", SAMPLES % "signs and values",
  [M + "metar/temperatures.py", M + "taf/temperature.py", M + "base/temperature.py"], [("temperature handlers", "aeromet_py/reports/")])
P("C16", "Pressure decodes to hectopascals whatever its unit",
  "Every pressure group (Q, A, unit-less, INS) yields the encoded pressure, consistently in every unit, or None when missing; "
  "of two groups the first readable one is kept.",
  "Every four digit value with every unit, single or repeated.", SAMPLES % "values and units",
  [M + "metar/pressure.py", M + "base/pressure.py"], [("pressure handler", "aeromet_py/reports/metar.py")])
P("C17", "Runway visual range groups decode completely",
  "Every runway visual range group yields the encoded runway name, range and variable range with their limits in every "
  "unit (feet or metres) and the tendency, for each of the three groups in order.",
  "Every runway, limit, range, unit, tendency.", SAMPLES % "ranges", [M + "metar/runway_range.py"], [("runway range handler", "aeromet_py/reports/metar.py")])
P("C18", "Windshear groups name the affected runways",
  "Every windshear group yields the runway it names, or all runways, in order and in the dictionary's list.",
  "Every runway in every spelling in each of three positions.", SAMPLES % "runways", [M + "metar/windshear.py"], [("windshear handlers", "aeromet_py/reports/metar.py")])
P("C19", "Sea state groups decode temperature, state and wave height",
  "Every sea group yields the encoded sea temperature, the state of the sea of code table 3700, and the wave height in "
  "every unit, the absent one being None.",
  "Every temperature, state and height.", SAMPLES % "states and heights", [M + "metar/sea_state.py"], [("sea state handler", "aeromet_py/reports/metar.py")])
P("C20", "Runway state groups decode by the code tables",
  "Every runway-state group yields the runway, deposits, contamination, depth and friction of code tables 0919, 0519, 1079 "
  "and 0366, and cleared or closed-by-snow states.",
  "Every code of every table.", SAMPLES % "codes", [M + "metar/runway_state.py"], [("runway state handler", "aeromet_py/reports/metar.py")])
P("C21", "The time of a report is the encoded moment",
  "A time group yields the date with the encoded day, hour and minute in the given year and month; when these are "
  "not given, a date near the present with that day. Impossible days, hours and minutes are left unparsed.",
  "Every day, hour and minute in months of 28 to 31 days and at the year's ends, given or defaulted.",
  "Only a few dates are tested, all inside a month.", [M + "base/time.py", "aeromet_py/reports/metar.py"], [("time handler", M + "base/time.py")])
P("C22", "TAF validity and temperature times resolve across months",
  "The validity of a TAF starts at the first such day and hour on or after the issue and ends at the first such day and hour after the "
  "start, across month and year ends and with hour 24 as the following midnight; temperature times resolve likewise "
  "within it.",
  "Every issue day, first and last day and hour of months of each length.", "A few fixed dates are tested; no hour 24 at month ends.",
  [M + "taf/valid.py", M + "taf/temperature.py"], [("valid and temperature handlers", "aeromet_py/reports/taf.py")])
P("C23", "TAF change periods resolve, and FM periods chain without gaps",
  "Every change group yields its kind and period; an FM period lasts until one hour before the next FM or BECMG begins, "
  "whatever temporary or probable changes stand between, and otherwise until the end of the TAF.",
  "Every kind, every period and time, sequences of up to four changes of all kinds.", "Depends on the history of groups; tests have a handful of sequences.",
  [M + "taf/change_indicator.py", M + "taf/change_forecast.py", "aeromet_py/reports/taf.py"], [("change handlers and FM chaining", "aeromet_py/reports/taf.py")], over=("inputs", "histories"))
P("C24", "METAR trend periods resolve around the report time",
  "FM, TL and AT of a trend yield the encoded moment within the two hours the trend covers, on the next day when the "
  "hour is past midnight; without them the trend covers the two hours after the report.",
  "Every report time and every trend time within two hours, on every kind of day.", "A few fixed times, none at the end of a month.",
  [M + "metar/trend_indicator.py"], [("trend period handler", "aeromet_py/reports/metar.py")])
P("C25", "Flight rules follow visibility and ceiling everywhere",
  "The flight rules are the worse of the categories of visibility and ceiling (the first broken, overcast or obscured "
  "layer); for every combination of both some category is assigned, and they are None only when neither is known.",
  "Every visibility with every ceiling, missing ones and several layers included.", "A two-dimensional table with boundaries; tests sample cells.",
  [M + "base/flight_rules.py"], [("set_flight_rules", M + "base/flight_rules.py")])
P("C26", "should_be_cavok is true exactly in CAVOK conditions",
  "The CAVOK verdict of a METAR or trend is true exactly when visibility is 10 km or more, there is no weather, no cloud "
  "below 5000 ft, no cumulonimbus nor towering cumulus, and the sky is reported.",
  "Every visibility, weather and combination of clouds.", "Tests sample a few reports.",
  [M + "metar/should_be_cavok.py"], [("should_be_cavok", M + "metar/should_be_cavok.py")])
P("C27", "The dictionary export mirrors the decoded report",
  "Every entry of the dictionary export equals the corresponding accessor of the report, is made of plain values that "
  "serialise to JSON, and contains every documented group.",
  "Every report with every kind of group.", "No test covers the dictionaries of whole reports with arbitrary groups.",
  [M], [("as_dict", M)])
P("C28", "Station and country look-ups return the matching record only",
  "The station of a report is the database record of exactly that ICAO code, with its name, codes, country and signed "
  "coordinates; unknown codes give a station with no data, and the database's codes are unique and well-formed.",
  "Every code of the database and every code that is not in it.", "Tests look at one or two airports of 9386.",
  ["aeromet_py/database", M + "base/station.py"], [("station handler and look-up", "aeromet_py/database/stations.py")])
P("C29", "Sections split at the right words and keep all text",
  "The body, trends or changes, and remarks of a report are the maximal stretches of the text that start at their keyword, "
  "and the sections together with the whole text (raw code) lose nothing but whitespace.",
  "Reports with every combination of sections.", "A few fixed reports.",
  ["aeromet_py/utils/split.py", "aeromet_py/utils/parser.py"] + REPORTS, [("split_sentence and sanitizers", "aeromet_py/utils/")])
P("C30", "Group lists keep order, bounds and indexing",
  "Lists of groups contain the groups in order of appearance up to their documented capacity, further ones are unparsed; "
  "their length, indexing, iteration, codes and dictionary agree.",
  "Every count of groups up to and beyond the capacity.", "Tests do not overflow lists.",
  [M + "base/group.py"] + REPORTS, [("GroupList", M + "base/group.py")], over=("inputs", "histories"))
P("C31", "Header groups and absent groups",
  "Type, modifier, missing and cancelled marks decode to their description, and every group absent from a report reads as "
  "its documented empty value (None, False or an empty list) without affecting the others.",
  "Every type and modifier; every subset of groups absent one at a time and all at once.", "Tests decode complete reports.",
  [M + "base/type.py", M + "base/modifier.py", M + "taf/missing.py", M + "taf/cancelled.py"], [("header handlers", "aeromet_py/reports/")])
P("C32", "Descriptions",
  "str() of each group states the values it decoded, zero included, in the documented words and units; str() of a list joins those of its "
  "groups in order, and str() of a report is made of the descriptions of its groups, one per line, in order of appearance.",
  "Every value of each group, in each place of a report it can stand.", "Tests print one or two groups of each kind.",
  [M + "base/string_attribute.py", M + "base/group.py", M + "base/numeric.py", M + "metar/", M + "taf/"], [("__str__", M)])
P("C90", "Decoding takes time proportional to the text",
  "Decoding any text finishes in time proportional to its length.",
  "Every text, arbitrarily long.", "Tests use short reports.", RX + REPORTS, [("parse_section", M + "base/report.py")],
  na="a bound on running time needs a cost model of CPython's backtracking regular expressions; no sound static argument in reach")
P("C91", "Section splitting conserves arbitrary text",
  "For arbitrary text, not only well-formed reports, joining the sections gives back the text.",
  "Every string.", "Unbounded strings.", ["aeromet_py/utils/split.py", "aeromet_py/utils/parser.py"], [("split_sentence", "aeromet_py/utils/split.py")],
  na="an equation between unbounded strings under chained regex substitutions; the abstract strings of the analysis are "
     "exact only for templates with bounded fields (those are decided under C29)")

NOTE = ("Decided for every partition of the symbolic groups listed in the evidence (each group's whole language, in the "
        "listed contexts). Trusts the analyser in /verif/aai (its models of the Python operations, re and datetime) and the reference "
        "tables in /verif/checks; digits are ASCII; years 1900-9998.")


def main():
    props, checks, nas = [], [], []
    for t in T:
        has = os.path.exists(os.path.join(HERE, "checks", t["id"].lower() + ".py"))
        if not has and not t["na"]:
            continue
        props.append({"id": t["id"], "title": t["title"], "statement": t["statement"],
                      "quantifier": {"over": t["over"], "text": t["text"]}, "why_tests_cant": t["why"],
                      "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]}})
        if has and not t["na"]:
            mod = importlib.import_module("checks." + t["id"].lower())
            checks.append({"property": t["id"], "quick_cmd": "python3 run.py %s" % t["id"],
                           "thorough_cmd": "python3 run.py %s thorough" % t["id"],
                           "technique": getattr(mod, "TECHNIQUE", "trace-partitioned abstract interpretation of the source (AST)"),
                           "level": "other", "level_note": t["note"] or getattr(mod, "NOTE", NOTE)})
        else:
            nas.append({"property": t["id"], "reason": t["na"]})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'",
           "checks": checks, "not_applicable": nas,
           "notes": "No hooks in /repo. Checks read /repo's source with ast; nothing of it is imported or executed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
