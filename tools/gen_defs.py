#!/usr/bin/env python3
"""harness/defs_table.inc: name of every Def constant and the code point its Unicode name denotes (independent of its value)."""
import re, unicodedata, os
names = re.findall(r"constexpr auto (\w+) =", open("/repo/include/Caitlyn/__Core/Char/Defs.h").read())
ctl = "Null StartOfHeading StartOfText EndOfText EndOfTransmission Enquiry Acknowledge Bell Backspace CharacterTabulation LineFeed LineTabulation FormFeed CarriageReturn ShiftOut ShiftIn DataLinkEscape DeviceControlOne DeviceControlTwo DeviceControlThree DeviceControlFour NegativeAcknowledge SynchronousIdle EndOfTransmissionBlock Cancel EndOfMedium Substitute Escape InformationSeparatorFour InformationSeparatorThree InformationSeparatorTwo InformationSeparatorOne".split()
t = {n: i for i, n in enumerate(ctl)}
t["Delete"] = 0x7F
for c in range(0x20, 0x7F):
    t["".join(w.capitalize() for w in unicodedata.name(chr(c)).replace("-", " ").split())] = c
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/defs_table.inc"), "w") as f:
    miss = []
    for n in names:
        if n in t: f.write("{Caitlyn::Def::%s, %d, \"%s\"},\n" % (n, t[n], n))
        else: miss.append(n)
print("unmatched:", miss)
