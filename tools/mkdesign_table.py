#!/usr/bin/env python3
"""Print the table of planted changes of DESIGN.md (for the author; no check uses it)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = json.load(open(os.path.join(ROOT, "tools/missed.json")))
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((m["property"], os.path.basename(d), m["needs"].rstrip("."), first_missed.get(os.path.basename(d), "")))
print("| check | change | needs, in order to show | first missed; added since |\n|---|---|---|---|")
for r in sorted(rows):
    print("| " + " | ".join(r) + " |")
