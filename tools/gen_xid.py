"""Writes harness/xid_table.h: XID_Start / XID_Continue of Unicode 15.1, from the Unicode 15.0 data in
python's unicodedata (str.isidentifier) plus the changes of 15.1 (UAX 31: CJK extension I, and the
Other_ID_Continue additions U+200C, U+200D, U+30FB, U+FF65)."""
import os
import unicodedata
assert unicodedata.unidata_version == '15.0.0'
s = [c for c in range(0x110000) if chr(c).isidentifier() and c != 0x5F]
k = [c for c in range(0x110000) if ('a' + chr(c)).isidentifier()]
ext = list(range(0x2EBF0, 0x2EE5E))
s = sorted(set(s) | set(ext))
k = sorted(set(k) | set(ext) | {0x200C, 0x200D, 0x30FB, 0xFF65})
out = ['// generated by tools/gen_xid.py', '#include <cstddef>']
for n, l in (('xid_start', s), ('xid_continue', k)):
    r = []
    for c in l:
        if r and r[-1][1] == c - 1:
            r[-1][1] = c
        else:
            r.append([c, c])
    out.append('static constexpr unsigned %s[][2] = {' % n)
    for i in range(0, len(r), 5):
        out.append('    ' + ' '.join('{ 0x%X, 0x%X },' % tuple(x) for x in r[i:i + 5]))
    out.append('};')
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'xid_table.h')
open(p, 'w').write('\n'.join(out) + '\n')
