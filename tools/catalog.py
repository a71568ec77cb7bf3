#!/opt/venv/bin/python
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from one description, so that they stay in step.

    /opt/venv/bin/python tools/catalog.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', observe=None,
         state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files,
              'mech': mech, 'technique': technique, 'note': note, 'level': level, 'observe': observe, 'state': state})


TRUST = ('Trusts PyMuPDF to read and write PDF, lxml to read XML, and the small reference model in the check. '
         'Every violation is replayed alone in a fresh process before it is reported.')

exec(open(os.path.join(HERE, 'tools', 'catalog_data.py')).read())

FINDINGS = json.load(open(os.path.join(HERE, 'tools', 'findings.json')))


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
            d['anchors']['observe_at'] = p['observe'] or ['the produced .docx (its XML)']
            d['anchors']['hook_needed'] = None
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')) and p['technique']:
            cmd = f'/opt/venv/bin/python run.py {p["id"]}'
            checks.append({'property': p['id'], 'quick_cmd': cmd + ' --tier quick',
                           'thorough_cmd': cmd + ' --tier thorough', 'technique': p['technique'],
                           'level': p['level'], 'level_note': p['note'] + ' ' + TRUST})
        else:
            na.append({'property': p['id'], 'reason': p.get('na') or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m mc.selfcheck', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks drive the public API and fork a fresh process per scenario. '
                  'Every command binds to /repo\'s working tree (sys.path), nothing is compiled or copied.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    json.dump(FINDINGS, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1, ensure_ascii=False)
    try:
        import jsonschema
    except ImportError:
        return
    for fn, sch in (('MANIFEST.json', 'MANIFEST'),):
        jsonschema.validate(json.load(open(os.path.join(HERE, fn))), json.load(open(f'/root/.vp/{sch}.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), sch)
    print(len(checks), 'checks;', len(na), 'not claimed')


if __name__ == '__main__':
    main()
