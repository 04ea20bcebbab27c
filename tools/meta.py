#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; M = []
TRUST = ' Trusts: rustc MIR, the exporter, the std models of the analyser; undecided paths are listed in the evidence and never alarm.'
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    if technique:
        c = dict(property=id, quick_cmd='bash check.sh ' + id, technique=technique, level='other', level_note=note + TRUST)
        if thorough: c['thorough_cmd'] = 'bash check.sh %s --thorough' % id
        M.append(c)
NA = []
exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in sorted(P, key=lambda z: z['id']):
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=sorted(M, key=lambda z: z['property']), not_applicable=NA,
               notes='No hooks in /repo. All checks read the MIR that rustc produces for /repo\'s current tree (see DESIGN.md); nothing of svgdom is executed.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
