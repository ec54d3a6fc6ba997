#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))

exec(open(os.path.join(HERE, 'props_src.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['id']
TS = "symbolic execution of the real TypeScript client (translated to Go on every run, executed as Go SSA) on what the real Go packages write; every path condition and assertion decided by z3 (cvc5 as fallback and cross-check); counterexamples replayed with the real client on node and the native Go build"
checks = []
na = []
for p in sorted(P, key=lambda p: p['id']):
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=TS if int(p['id'][1:]) >= 19 and int(p['id'][1:]) <= 23 else "symbolic execution of the Go SSA of the real packages; every path condition and assertion decided by z3 (cvc5 as fallback and cross-check); counterexamples replayed on the native build",
            level="model_checking", level_note=p['note']))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="Every check loads /repo's current source, executes the harness and the code under test symbolically over go/ssa, and lets the SMT solver decide each branch and assertion. Bounds are listed per harness in the evidence and in DESIGN.md.")
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

# harness table in DESIGN.md
import re, glob
rows = []
for fn in sorted(glob.glob(os.path.join(HERE, 'harness', '*', '*.go'))):
    t = open(fn).read()
    pkg = os.path.basename(os.path.dirname(fn))
    for m in re.finditer(r'//verif:harness (.*)\n(?://.*\n)*func (\w+)\(', t):
        o = dict((k, v) for k, v in re.findall(r'(\w+)=("(?:[^"\\]|\\.)*"|\S+)', m.group(1)))
        g = lambda k: o.get(k, '').strip('"').replace('\\"', '"')
        rows.append((g('prop'), f"{pkg}.{m.group(2)}", g('bounds').replace('|', '\\|'), g('quick'), g('thorough')))
rows.sort()
d = open(os.path.join(HERE, 'DESIGN.md')).read()
a, b = '<!-- harness table -->\n', '<!-- end of harness table -->'
tab = '| property | harness | bounds | quick | thorough |\n|---|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s | %s |\n' % r for r in rows)
if a not in d:
    d += '\n## Harnesses and bounds\n\n' + a + b + '\n'
d = d[:d.index(a) + len(a)] + tab + d[d.index(b):]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)

# planted bugs
rows = []
for mf in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(mf))
    rows.append((m['property'], os.path.basename(os.path.dirname(mf)), m['what_it_breaks'], m['needs'], m.get('caught', 'P' + m['property'][1:])))
rows.sort()
d = open(os.path.join(HERE, 'DESIGN.md')).read()
a, b = '<!-- seeded table -->\n', '<!-- end of seeded table -->'
if rows and a in d:
    tab = '| property | change | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s | %s |\n' % tuple(c.replace('|', '\\|') for c in r) for r in rows)
    d = d[:d.index(a) + len(a)] + tab + d[d.index(b):]
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
