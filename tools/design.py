#!/usr/bin/env python3
# regenerate the generated sections of DESIGN.md from checks/meta.py, known_findings.json and seeded/*/meta.json
import sys, json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks'); import meta
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
def sec(s, name, text):
    b, e = '<!-- BEGIN %s -->' % name, '<!-- END %s -->' % name
    i, j = s.index(b) + len(b), s.index(e)
    return s[:i] + '\n' + text + s[j:]
s = open(V + '/DESIGN.md').read()
t = ''
for p in props:
    i = p['id']
    t += '**%s %s.** ' % (i, p['title'])
    if i in meta.CHECKS:
        m = meta.CHECKS[i]
        if m.get('how'): t += m['how'] + ' '
        t += 'Bounds: ' + m['bounds'] + '.'
        if m.get('assumptions'): t += ' Assumes: ' + '; '.join(m['assumptions']) + '.'
    else: t += 'Not claimed: ' + meta.NOT_APPLICABLE.get(i, 'no check has been built yet') + '.'
    t += '\n\n'
s = sec(s, 'GENERATED', t)
k = json.load(open(V + '/known_findings.json'))
s = sec(s, 'FIXED', ''.join('* ' + (x if isinstance(x, str) else json.dumps(x)) + '\n' for x in k.get('fixed', [])) + ''.join('* recorded, not repaired: %s: %s\n' % (f['property'], f['what']) for f in k['findings']))
t = '| change | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    t += '| %s: %s | %s | %s | %s |\n' % (n, m['what_it_breaks'], m['property'], m['needs'], m.get('caught_by', '?'))
s = sec(s, 'SEEDED', t)
open(V + '/DESIGN.md', 'w').write(s)
