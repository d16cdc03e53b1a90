"""Writes known-findings.json: the fixes, from the history of /repo, under the property each one repairs."""
import json, subprocess, os
WHICH = {'a01eea9': 'C01', '794873f': 'C01', 'c6488e0': 'C07', '8dd9e24': 'C07', '355ddd7': 'C06', 'f980367': 'C06', 'b49a291': 'C07', 'ff6ff56': 'C06', 'c9053ad': 'C08', '6b86189': 'C24', '32a3cf6': 'C20',
         'ae6bbb0': 'C09', '85b1c50': 'C09', '58cab7a': 'C10', '4a74ed7': 'C09', '86d3fbd': 'C09', '38d3521': 'C12', '3787861': 'C12', '51832f1': 'C12', 'c2cebcd': 'C16', 'ba7aee9': 'C15', 'cf31fdd': 'C16', 'e9243d6': 'C03',
         'ccb41cb': 'C03', 'e72306c': 'C25', 'b1afa77': 'C07', 'd23b7c6': 'C11', 'c0c9a5c': 'C11', 'a6b8d6b': 'C09', 'b2afd85': 'C10', 'b46231c': 'C11', '10ae487': 'C11', '11785e4': 'C21', '5145b3b': 'C13', '6bb0178': 'C12',
         '7c2f05e': 'C20', '13a156a': 'C17', '95820ce': 'C17', 'eede41e': 'C16', 'ea0f082': 'C16', '8ff76a5': 'C16', '8173089': 'C17', '617c79c': 'C16', 'b644aba': 'C11', 'bc153b8': 'C21', '39c7901': 'C21', '7444592': 'C21',
         'b74c550': 'C22', '5eed668': 'C22', 'f31f764': 'C22', '694bcfc': 'C24', 'a93393d': 'C26', '8b48e4c': 'C27', '60b3e14': 'C27', '55c3844': 'C27'}
EXTRA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extra-fixes.json'))) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extra-fixes.json')) else {}
WHICH.update(EXTRA)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x00%s%x00%b%x01', '4e9f6c4..HEAD'], stdout=subprocess.PIPE).stdout.decode()
fixed = []; rows = []
for e in log.split('\x01'):
    e = e.strip('\n')
    if not e: continue
    h, s, b = e.split('\x00')
    if not s.startswith('fix:'): continue
    assert h in WHICH, (h, s)
    what = s[5:] + (': ' + ' '.join(b.split()) if b.strip() else '')
    fixed.append('fixed: property=%s %s %s' % (WHICH[h], h, what)); rows.append('- %s `%s` %s' % (WHICH[h], h, what))
p = '/verif/known-findings.json'
d = json.load(open(p)); d['fixed'] = fixed
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
print('\n'.join(rows))
