#!/usr/bin/env python3
"""Rewrites the appendix of DESIGN.md: the functions of /repo under contract in each proof unit."""
import glob, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['## Appendix: functions under contract, by proof unit', '',
       'Generated by `tools/mkdesign.py`. Each is copied from `/repo` when a check runs; obligations are counted in the evidence.', '']
total = set()
for f in sorted(glob.glob(VERIF + '/proofs/*.rs')):
    u = extract.Unit(f)
    by = {}
    for fn in u.functions:
        s = re.sub(r'^\S+:\d+ ', '', fn[1])
        total.add(s)
        p = s.split(' :: ')
        by.setdefault(p[0], []).append(' :: '.join(p[1:]))
    out.append('### %s' % os.path.basename(f)[:-3])
    for k, v in by.items():
        out.append('- `%s`: %s' % (k, ', '.join('`%s`' % x for x in dict.fromkeys(v))))
    out.append('')
out.insert(3, '%d distinct functions and items in %d units.' % (len(total), len(glob.glob(VERIF + '/proofs/*.rs'))))
p = VERIF + '/DESIGN.md'
t = open(p).read()
i = t.find('## Appendix: functions')
t = (t[:i] if i >= 0 else t.rstrip() + '\n\n') + '\n'.join(out)
open(p, 'w').write(t)
