#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    P[id] = (title, statement, over, q, why, files, mech, technique, note, na)
exec(open(V + '/tools/props_data.py').read())
import sys
sys.path.insert(0, V)
from pv.rules import REGISTRY
o = [open(V + '/tools/design_head.md').read()]
for i in sorted(P):
    t, st, ov, q, why, files, mech, tech, note, na = P[i]
    o.append('### %s %s\n' % (i, t))
    o.append(st + '\n')
    if na: o.append('*Not applicable:* %s\n' % na); continue
    o.append('* *Decided by:* %s (`pv/rules/%s.py`, `%s`).' % ((tech,) + tuple(REGISTRY[i][:2])))
    o.append('* *Quantified over* %s: %s.' % (', '.join(ov), q))
    o.append('* *Anchors:* ' + '; '.join('%s (%s)' % (a, b) for a, b in mech) + '.')
    o.append('* *Why tests do not settle it:* ' + why)
    if note: o.append('* *Limits:* ' + note)
    o.append('')
k = json.load(open(V + '/known_findings.json'))
o.append('## 3. Known findings (reported as KNOWN-FINDING, not repaired)\n')
for f in k['findings']: o.append('* **%s** `%s`: %s' % (f['property'], f['key'], f['what']))
o.append('\n## 4. Defects found and repaired (`fix:` commits in /repo)\n')
for s in k['fixed']: o.append('* ' + s[len('fixed: '):])
o.append('\n## 5. Planted bugs and what catches them\n')
o.append('Every planted bug is written from the property and the code, confirmed in a scratch copy to build, to pass\nthe stable tests and to fail its demonstration, and kept whether or not it is caught. Besides these, every rule\nwas run against small mutants of the code it covers (`tools/mut.py`: about 450 mutants and 120\nbehaviour-preserving rewrites over all rules); a mutant that broke a property and was missed led to a stronger\nrule, a rewrite that raised an alarm to a more semantic one.\n')
o.append('| seed | breaks | change | needs | caught by |\n|---|---|---|---|---|')
c = json.load(open(V + '/tools/catches.json')) if os.path.exists(V + '/tools/catches.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); s = d.split('/')[-2]
    o.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), ', '.join(c.get(s, ['?'])) or 'missed'))
o.append('')
o.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
