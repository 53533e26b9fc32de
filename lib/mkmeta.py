"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one source for both)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'meta'))
import props  # noqa


def main():
    seen = set()
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            assert p['id'] not in seen and len(p['title']) <= 80, p['id']
            seen.add(p['id'])
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                             hook_needed=None))) + '\n')
    checks, na = [], []
    for p in props.PROPS:
        if p.get('na'):
            na.append(dict(property=p['id'], reason=p['na']))
            continue
        assert os.path.exists(os.path.join(VERIF, 'checks', p['id'] + '.py')), p['id']
        checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'],
                           thorough_cmd='./run.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                           technique=p.get('tech', props.TECH), level='model_checking',
                           level_note=p['note'] + ' ' + props.NOTE))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks: every check drives the public API of the working tree in /repo.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    out = []
    for p in props.PROPS:
        out += ['### %s %s' % (p['id'], p['title']), '',
                '* Quantified over: %s.' % p['forall'],
                '* Enumerated on the real code: %s' % p['note'],
                '* Oracle: %s' % p['oracle'],
                '* Why tests cannot settle it: %s' % p['why'], '']
    import plants
    tab = ['| bug | property | change | caught by |', '|---|---|---|---|']
    for b in plants.PLANTS:
        tab.append('| %s | %s | %s (%s) | %s |' % (b['id'], b['prop'], b['breaks'], b['file'], b.get('caught', b['prop'])))
    t = open(os.path.join(VERIF, 'meta', 'design.md')).read()
    t = t.replace('{PROPS}', '\n'.join(out).rstrip()).replace('{PLANTS}', '\n'.join(tab))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(t)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
