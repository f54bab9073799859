'''Tables of DESIGN.md: repaired defects and planted bugs'''
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()

def put(t, name, text):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + '\n' + text + '\n' + t[j:]

k = json.load(open(os.path.join(V, 'known_findings.json')))
t = put(t, 'fixed', '\n'.join(['| property | commit | what failed |', '|---|---|---|'] +
        ['| %s | %s | %s |' % (e['property'], e['commit'], e['line'].split(e['commit'], 1)[1].strip()) for e in k if e['status'] == 'fixed']))
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['needs'], d['what_it_breaks'], caught.get(i, '?')))
t = put(t, 'seeded', '\n'.join(rows))
open(p, 'w').write(t)
