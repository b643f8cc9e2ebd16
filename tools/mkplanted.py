#!/usr/bin/env python3
"""Writes /verif/PLANTED.md: the list of planted bugs (not read by any check)."""
import json, os
R = "/verif/seeded"
MISSED = {
 "C04-hill-climb": "C04 got polygons whose vertices are listed in any order and repeat",
 "C06-check-first": "C06 damages vertex lists anywhere, up to 300 vertices",
 "C07-ball-far": "relative offsets up to 1e6 sizes",
 "C14-soft-normalize": "scenes in units of length down to 1e-9 (also seen by C04)",
 "C15-poly-limit": "polygons of 280 vertices in unions",
 "C19-far-alias": "aliased positions (powers of two apart, mirrored, equal numbering)",
 "C24-narrow": "extreme rectangles, to the whole i32 range",
 "C34-tampered": "structural edits of saved maps (dimensions, strides, data cut short)",
}
try: MISSED.update(json.load(open("/verif/tools/missed.json")))
except FileNotFoundError: pass
rows = []
for d in sorted(os.listdir(R)):
    m = json.load(open(f"{R}/{d}/meta.json"))
    rows.append((d, m))
out = ["# Planted bugs", "",
 "Each is a change that compiles and passes the existing tests, written from the text of a property and the",
 "code alone; `seeded/ID/` holds the patch, a demonstration that fails with it, and what it needs. The check",
 "named in the second column reports each of them (quick tier, seed 1). Those marked * were missed when first",
 "planted; what was strengthened is listed below.", "",
 "| planted | caught by | needs | breaks |", "| --- | --- | --- | --- |"]
for d, m in rows:
    out.append(f"| {d}{' *' if d in MISSED else ''} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
out += ["", "## Missed at first", "", "| planted | what was strengthened |", "| --- | --- |"]
for d, w in sorted(MISSED.items()): out.append(f"| {d} | {w} |")
open("/verif/PLANTED.md", "w").write("\n".join(out) + "\n")
print(len(rows))
