#!/usr/bin/env python3
"""Writes harness/unicode_table.inc: simple case mappings and categories (Python's unicodedata, 15.0)."""
import unicodedata, os, sys
out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/unicode_table.inc"), "w")
U, L, C = [], [], []
for c in range(0x110000):
    ch = chr(c)
    cat = unicodedata.category(ch)
    if 0xD800 <= c < 0xE000:
        continue
    u, l = ch.upper(), ch.lower()
    # str.upper is the full mapping; single-character results are the simple mapping
    if len(u) == 1 and u != ch: U.append((c, ord(u)))
    if len(l) == 1 and l != ch: L.append((c, ord(l)))
    if len(u) != 1: pass
    if cat in ("Lu", "Lt"): C.append((c, 1))
    elif cat == "Ll": C.append((c, 2))
    elif cat == "Nd": C.append((c, 3))
# simple mappings hidden behind multi-character full mappings
U += [(0x1F80 + i, 0x1F88 + i) for i in range(8)] + [(0x1F90 + i, 0x1F98 + i) for i in range(8)] + [(0x1FA0 + i, 0x1FA8 + i) for i in range(8)] + [(0x1FB3, 0x1FBC), (0x1FC3, 0x1FCC), (0x1FF3, 0x1FFC)]
L += [(0x0130, 0x0069)]
out.write("// generated by tools/gen_unicode.py from unicodedata %s\n" % unicodedata.unidata_version)
for n, t in (("kUpper", U), ("kLower", L), ("kCat", C)):
    out.write("static const unsigned %s[][2] = {\n" % n)
    out.write(",".join("{%d,%d}" % x for x in sorted(t)))
    out.write("};\n")
