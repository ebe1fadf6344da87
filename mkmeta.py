#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one list (run by hand after editing; both outputs are committed)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
TECH = 'contract-based deductive verification of the real C code: pre/postconditions, loop invariants and frames checked function by function on its LLVM IR, obligations discharged by z3/cvc5'
NOTE = ('Every obligation is regenerated from /repo by compiling it on each run. Trusted: clang front end, the lvc VC generator in '
        '/verif/lvc, z3, cvc5, stated libc contracts. ')


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), level='proof', note='', technique=None):
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                         anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                      mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe),
                                      hook_needed=None)),
                  level=level, note=note, technique=technique or TECH))


def na(id, title, statement, over, qtext, why, files, mechanism, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism)
    P[-1]['na'] = reason


exec(open(HERE + '/properties.src.py').read())

with open(HERE + '/properties.jsonl', 'w') as f:
    for e in P:
        assert len(e['p']['title']) <= 80, e['p']['title']
        f.write(json.dumps(e['p']) + '\n')
man = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import lvc.build, lvc.spec" && clang --version >/dev/null && cvc5 --version >/dev/null',
           checks=[dict(property=e['p']['id'], quick_cmd='python3-vt check.py %s --tier quick' % e['p']['id'],
                        thorough_cmd='python3-vt check.py %s --tier thorough' % e['p']['id'],
                        technique=e['technique'], level=e['level'], level_note=NOTE + e['note']) for e in P if 'na' not in e],
           not_applicable=[dict(property=e['p']['id'], reason=e['na']) for e in P if 'na' in e])
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
