#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 spec.py rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
P = []
AI = 'abstract interpretation over the resolved syntax tree (symbolic value numbering, loop widening) with per-property rules'
NOTE = ('Decides the listed structural obligations on every path of the analysed functions of the current tree. Trusts clang\'s front end, '
        'the stub headers standing in for absent dependencies, the engine in /verif/engine and the no-alias assumption stated in the evidence. ')


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), technique=AI, note='', na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, na=na))



def fill():
    import spec_props
    spec_props.fill(prop)


def main():
    fill()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "from engine.program import ensure_extractor; ensure_extractor()"',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                     'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': NOTE + p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')


if __name__ == '__main__':
    main()
