"""Writes DESIGN.md from tools/design/*.md, properties.jsonl, the evidence of the last run, the fixes and the planted bugs."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
rd = lambda p: open(p).read()
out = [rd(os.path.join(D, 'head.md'))]
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    f = os.path.join(V, 'contracts', i.lower() + '.py')
    ev = json.load(open(os.path.join(V, 'evidence', i + '.json')))['coverage']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('Anchors: %s. Quantifier: %s.\n' % (', '.join('`%s`' % m['where'].replace('pyamf/', '', 1) for m in p['anchors']['mechanism']), p['quantifier']['text']))
    if os.path.exists(f):
        s = rd(f)
        if s.startswith('"""'): out.append(' '.join(s.split('"""')[1].split()) + '\n')
    if ev['lemmas']:
        out.append('Lemmas (%d obligations):' % ev['obligations'])
        for x in ev['lemmas']: out.append('- `%s`%s %s' % (x['name'].split('.', 1)[1], ' (bounded: %s)' % x['bounded'] if x['bounded'] else '', x['what']))
        out.append('')
    else: out.append('No lemma yet: decided by bounded evaluation of the contracts alone.\n')
    out.append('Contracts evaluated on the real code (bounded):')
    for x in ev['bounded_contracts']: out.append('- `%s` %s' % (x['name'], ' '.join((x['what'] or '').split())))
    out.append('')
rows = subprocess.run(['python3', os.path.join(V, 'tools', 'mkfindings.py')], stdout=subprocess.PIPE).stdout.decode()
out.append('## 4. Defects found and repaired\n\nEach is one `fix:` commit in /repo, found by a failing contract or obligation of the property named; '
           'the checks report it again if it returns. One finding is recorded and not repaired (known-findings.json): C22, identifiers whose sixteen bytes are themselves a zlib stream; `BodyTypes` carries no mark that would tell them from compressed data, so no repair within the format keeps both readings.\n\n' + rows)
out.append('## 5. Planted bugs\n\n`seeded/<id>/`: written from the property texts and the code, confirmed to build, to pass the existing tests and to fail their own demonstration.\n')
out.append('| id | property | needs | caught by |\n|---|---|---|---|')
catches = json.load(open(os.path.join(D, 'catches.json')))
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), catches.get(s, '')))
out.append('')
if os.path.exists(os.path.join(D, 'seedlog.md')): out.append(rd(os.path.join(D, 'seedlog.md')))
out.append(rd(os.path.join(D, 'limits.md')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
