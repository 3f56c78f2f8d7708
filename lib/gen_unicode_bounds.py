#!/usr/bin/env python3
"""Bounds for the identifier character classes, from Python's Unicode 3.2 and 15.0 tables (the file
it writes is committed; run again only to review it).  Whatever version a lexer's tables follow
between the two, `*_lo` must be in the class and nothing outside `*_hi` may be."""
import json, os, unicodedata as U
OLD = U.ucd_3_2_0
OTHER_START = {0x2118, 0x212e, 0x309b, 0x309c, 0x1885, 0x1886}
OTHER_CONT = {0xb7, 0x387, 0x19da} | set(range(0x1369, 0x1372))
# connector punctuation in 3.2, other punctuation since 4.1
DROPPED = {0x30fb, 0xff65}
L = ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl')
C = L + ('Mn', 'Mc', 'Nd', 'Pc')
def ranges(f):
    out = []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or not f(c):
            continue
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out
cat = lambda m, c: m.category(chr(c))
b = {
    'start_lo': ranges(lambda c: cat(OLD, c) in L and cat(U, c) in L or c in (0x24, 0x5f)),
    'start_hi': ranges(lambda c: cat(U, c) in L or c in OTHER_START or c in (0x24, 0x5f)),
    'cont_lo': ranges(lambda c: cat(OLD, c) in C and c not in DROPPED or c in (0x24, 0x5f, 0x200c, 0x200d)),
    'cont_hi': ranges(lambda c: cat(U, c) in C or c in OTHER_START | OTHER_CONT or c in (0x24, 0x5f, 0x200c, 0x200d)),
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unicode_bounds.json'), 'w') as f:
    json.dump(b, f, separators=(',', ':'))
    f.write('\n')
print({k: (len(v), sum(h - l + 1 for l, h in v)) for k, v in b.items()})
