#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CHECKS = []; NA = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    assert len(title) <= 80, title
    if na: NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 check.py %s' % id, 'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                       'technique': technique, 'level': 'other', 'level_note': note})


exec(open(os.path.join(V, 'tool', 'proplist.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P, key=lambda p: p['id']): f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 tool/setup.py', 'checks': sorted(CHECKS, key=lambda c: c['property']), 'not_applicable': NA,
           'notes': 'Static analysis only: the checks compile /repo\'s working tree to LLVM bitcode in a scratch directory, dump it with tool/irdump and decide each rule on that dump; nothing of the library is executed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(CHECKS), 'checks')

def design():
    import glob
    t = open(V + '/tool/design.md').read(); na = {n['property']: n['reason'] for n in NA}; tech = {c['property']: c for c in CHECKS}
    out = []
    for p in sorted(P, key=lambda p: p['id']):
        i = p['id']
        if i in na: continue
        c = tech[i]; note = c['level_note'].replace("Decided on the LLVM IR clang 18 emits (-O0) for the current tree, generic architecture, gcc-configured CMake options; trusts clang's lowering and the analyser in lib/. ", '')
        out.append('### %s %s\n\n*Specified:* %s\n\n*Decided by:* %s (`checks/%s.py`). *Covers:* %s %s\n\n*Why tests cannot:* %s\n' % (i, p['title'], p['statement'], c['technique'], i.lower(), p['quantifier']['text'], note, p['why_tests_cant']))
    kf = json.load(open(V + '/known_findings.json'))
    fixed = '\n'.join('* ' + f.replace('fixed: property=', '') for f in kf['fixed'])
    if kf['findings']: fixed += '\n\nRecorded as known findings:\n\n' + '\n'.join('* %s `%s`: %s' % (f['property'], f['key'], f['what']) for f in kf['findings'])
    seeds = '| change | property | needs | breaks |\n|---|---|---|---|\n'
    for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
        d = json.load(open(m)); seeds += '| %s | %s | %s | %s |\n' % (m.split('/')[-2], d['property'], d['needs'], d['what_it_breaks'])
    nat = '\n'.join('* **%s** %s: %s' % (n['property'], next(p['title'] for p in P if p['id'] == n['property']), n['reason']) for n in NA) or 'Every property listed is claimed.'
    op = '\n'.join('* ' + l for l in open(V + '/tool/open.txt').read().strip().split('\n'))
    for k, v in (('PROPERTIES', '\n'.join(out)), ('FIXED', fixed), ('SEEDS', seeds), ('NA', nat), ('OPEN', op)): t = t.replace('{{%s}}' % k, v)
    open(V + '/DESIGN.md', 'w').write(t)


design()
