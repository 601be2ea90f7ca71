#!/usr/bin/env python3
"""Developer tool (not run by any check): pins the Unicode 17 data the oracle uses.

usage: pin_tables.py UCD_DIR OUT_DIR
Writes OUT_DIR/classes17.txt ("start end GCB InCB" per maximal range, defaults omitted)
and copies GraphemeBreakTest.txt. Run once from the base commit's ucd/ directory."""
import sys, os, shutil, hashlib
src, out = sys.argv[1:3]
gcb = ["None"] * 0x110000
inc = ["None"] * 0x110000
def rd(f):
    for l in open(os.path.join(src, f), encoding="utf8"):
        l = l.split("#")[0].strip()
        if not l: continue
        a = [x.strip() for x in l.split(";")]
        r = a[0].split("..")
        yield int(r[0], 16), int(r[-1], 16), a[1:]
for s, e, f in rd("auxiliary/GraphemeBreakProperty.txt"):
    for c in range(s, e + 1): gcb[c] = f[0]
for s, e, f in rd("emoji/emoji-data.txt"):
    if f[0] == "Extended_Pictographic":
        for c in range(s, e + 1):
            assert gcb[c] == "None"
            gcb[c] = "ExtPict"
for s, e, f in rd("DerivedCoreProperties.txt"):
    if f[0] == "InCB":
        for c in range(s, e + 1): inc[c] = f[1]
with open(os.path.join(out, "classes17.txt"), "w") as o:
    o.write("# Unicode 17.0.0: Grapheme_Cluster_Break (+ExtPict) and Indic_Conjunct_Break; every other code point is None None\n")
    for f in ("auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt", "auxiliary/GraphemeBreakTest.txt"):
        o.write("# sha256 %s %s\n" % (hashlib.sha256(open(os.path.join(src, f), "rb").read()).hexdigest(), f))
    s = 0
    for c in range(1, 0x110001):
        if c == 0x110000 or (gcb[c], inc[c]) != (gcb[s], inc[s]):
            if (gcb[s], inc[s]) != ("None", "None"):
                o.write("%X %X %s %s\n" % (s, c - 1, gcb[s], inc[s]))
            s = c
shutil.copy(os.path.join(src, "auxiliary/GraphemeBreakTest.txt"), os.path.join(out, "GraphemeBreakTest17.txt"))
