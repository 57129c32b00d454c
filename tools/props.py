"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIE = 'package/inference/pie/'
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level='model_checking', claimed=True,
         reason=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a, tech=tech, note=note, level=level, claimed=claimed, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant',
                                                  'anchors')}) + '\n')
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, 'vmc', 'checks', p['id'].lower() + '.py'))
        if p['claimed'] and have:
            checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                           'thorough_cmd': './check %s --tier thorough' % p['id'],
                           'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['reason'] or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    assert all(len(p['title']) <= 80 for p in P), [p['title'] for p in P if len(p['title']) > 80]
    print(len(P), 'properties,', len(checks), 'claimed')
