#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between its text) from specs, properties, findings and seeded/."""
import sys, os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/harness']
import check, specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(specs, 'NOT_APPLICABLE', {})
def block(name, text, s):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    if a in s: return s[:s.index(a)] + a + '\n' + text + '\n' + b + s[s.index(b) + len(b):]
    return s.replace('@%s@' % name, a + '\n' + text + '\n' + b)
p = V + '/DESIGN.md'; s = open(p).read()
s = s.replace('| Id | What is decided | Oracle | Bounds | \n|---|---|---|---|\n', '')
rows = ['| Id | Property | How (harness, oracle) | Bounds | Outside |', '|---|---|---|---|---|']
for r in props:
    if r['id'] not in specs.PROPS: continue
    q = specs.PROPS[r['id']]
    srcs = sorted({x.src for x in q['quick'] + q['thorough']})
    rows.append('| %s | %s | %s. %s | %s | %s |' % (r['id'], r['title'], ', '.join(srcs), q.get('how', ''), q['bounds'], q['outside'] or '-'))
s = block('TABLE', '\n'.join(rows), s)
s = block('NA', '\n'.join('* %s: %s' % (r['id'], NA.get(r['id'], 'no check yet')) for r in props if r['id'] not in specs.PROPS) or 'Every listed property has a check.', s)
kf = [json.loads(l) for l in open(V + '/known_findings.jsonl') if l.strip() and not l.startswith('#')]
s = block('FIXED', '\n'.join('* ' + k['what'].replace('fixed: property=', '') for k in kf if k['status'] == 'fixed'), s)
kn = [k for k in kf if k['status'] == 'known']
s = block('KNOWN', 'Recorded, not repaired (KNOWN-FINDING lines):\n\n' + '\n'.join('* %s (%s): %s' % (k['property'], k['query'], k['what']) for k in kn) if kn else 'None is left unrepaired.', s)
res = {}
try: res = json.load(open(V + '/tools/seeded_results.json'))
except OSError: pass
rows = ['| Bug | Property | Needs | Breaks | Caught by its check |', '|---|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    rows.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['needs'], j['what_it_breaks'], res.get(i, 'not run')))
s = block('SEEDED', '\n'.join(rows), s)
open(p, 'w').write(s)
