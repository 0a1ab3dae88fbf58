#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of registered checks."""
import json, os, re, subprocess, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
ids = set()
for f in glob.glob(root + "/harness/*.go"):
    ids |= set(re.findall(r'register\("(C\d+)"', open(f).read()))
notes = {
    "parse": "Every generated case is decided exactly against an independent reference; no proof for the cases not generated. Trusts the reference grammar of the harness (its command arities and symbol names), rapid and the Go runtime.",
    "layout": "Decided on generated expressions and font metrics, to a tolerance of rounding errors, against an independent model of the layout rules; no proof for other inputs. Trusts the reference model and the constants it takes from the documented behaviour.",
    "font": "Decided on generated symbols, styles, sizes and histories for the fonts available offline (Go, Latin Modern, Liberation, STIX); trusts golang.org/x/image/font/sfnt for reading font files.",
    "hist": "Decided on generated histories; schedules are those the Go scheduler produced on this run. No proof for other histories.",
}
kind = {}
for i in range(1, 7): kind["C%02d" % i] = "parse"
for i in (7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 27, 28, 30, 31): kind["C%02d" % i] = "layout"
for i in (19, 20, 21, 29): kind["C%02d" % i] = "font"
for i in (22, 23, 24, 25, 26): kind["C%02d" % i] = "hist"
tech = {
    "C01": "property-based testing: grammar-based generation against the generating tree and a reference parser",
    "C02": "property-based testing: grammar-based generation against recorded source offsets",
    "C03": "fuzzing with random, soup and damaged inputs against a reference recogniser",
    "C04": "property-based metamorphic testing: insertion of blanks and comments",
    "C05": "model-based property testing of traversals with generated trees and visitors",
    "C06": "property-based testing against a reference printer; injectivity on mutated pairs",
    "C07": "fuzzing of the typesetter with a reference support predicate and fault-injecting renderers",
    "C08": "property-based testing: conservation of drawn glyphs against the source tree",
    "C09": "exhaustive and generated names against a reference symbol table",
    "C10": "property-based testing of layout relations with generated font metrics",
    "C11": "property-based testing of layout relations with generated font metrics",
    "C12": "property-based testing against a reference pen model with generated font metrics",
    "C13": "property-based testing against reference spacing rules",
    "C14": "model-based property testing of box packing",
    "C15": "model-based property testing of shipping; translation and repetition relations",
    "C16": "metamorphic property testing: scaling and inverse relations on box trees",
    "C17": "metamorphic property testing: proportionality to the font size",
    "C18": "property-based testing of renderer arguments and ink containment",
    "C19": "differential property testing against font files, with query histories",
    "C20": "differential property testing against font files, with query histories",
    "C21": "property-based testing against analytic coverage; metamorphic translation; fault injection",
    "C22": "randomised concurrent workloads under the race detector against sequential results",
    "C23": "stateful property-based testing against fresh-object results",
    "C24": "stateful property-based testing against a list model",
    "C25": "property-based testing with a minimal PDF reader; fault injection",
    "C26": "property-based testing of the command against library rendering; fault injection",
    "C27": "stateful property-based testing against a map model and reference classes",
    "C28": "property-based testing against a closed form with generated font metrics",
    "C30": "property-based testing: full layouts against a reference typesetter with generated font metrics",
    "C31": "fault injection with generated expressions: font sets lacking styles against the styles asked for, backends failing at a generated query",
    "C29": "property-based testing against a reference font selection rule",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({
            "property": i,
            "quick_cmd": "harness/check.sh %s quick" % i,
            "thorough_cmd": "harness/check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech[i],
            "level": "exploration",
            "level_note": notes[kind[i]],
        })
    else:
        na.append({"property": i, "reason": "no check is registered yet (work in progress)"})
m = {"version": 1, "setup_cmd": "harness/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: everything is observed through exported API."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
