# Rewrites section 5 of DESIGN.md from seeded/*/meta.json and the log of a sweep (lines "ID CHECK rc=N ...").
# Run by hand: python3 tools/matrix.py SWEEP.log
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# What a check lacked when the bug was first tried; everything else was caught at once
FIRST = {
    "C07-entity-slice": "no multi-byte characters in long references",
    "C07-quadratic": "no growth measurement",
    "C09-scalar-attributes": "single insertions only",
    "C17-absolute-prefix-path": "no shadowed relative paths",
    "C19-generic-discriminant": "decimal discriminants only",
    "C04-long-text": "no long texts",
    "C04-many-refs": "few references in one text",
    "C05-long-clean": "no long strings",
    "C03-far-prefix": "scopes of few elements",
    "C03-far-default": "scopes of few elements",
    "C08-list-item-dropped": "lists of few items",
    "C14-deep-children": "captures of few levels",
    "C03-xml-like-prefix": "no vocabulary of prefixes",
    "C16-double-rounding": "no texts halfway between floats",
    "C12-for-node-order": "only the node just taken was put back",
    "C20-unused-hidden": "two namespaces only",
    "C08-tuple-in-tuple": "no tuples of tuples",
    "C14-any-in-tuple": "no captures in tuples",
    "C14-attr-local-dup": "all values different",
    "C07-close-slice": "no names of all lengths and alignments",
}
log = {}
for line in open(sys.argv[1]):
    w = line.split()
    if len(w) >= 3 and w[2].startswith("rc="):
        log[w[0]] = (w[1], "caught" if w[2] == "rc=1" and "VIOLATION" in line else "MISSED")
rows = ["| bug | what it needs | first run | now |", "|---|---|---|---|"]
for id in sorted(os.listdir(root + "/seeded")):
    meta = json.load(open(f"{root}/seeded/{id}/meta.json"))
    first = f"missed ({FIRST[id]})" if id in FIRST else "caught"
    rows.append(f"| {id} | {meta['needs']} | {first} | {log.get(id, ('', 'not run again'))[1]} |".replace("\n", " "))
p = root + "/DESIGN.md"
s = open(p).read()
head, tail = s.split("<!-- matrix -->\n", 1)
tail = tail.split("<!-- end of matrix -->", 1)[1]
open(p, "w").write(head + "<!-- matrix -->\n" + "\n".join(rows) + "\n<!-- end of matrix -->" + tail)
