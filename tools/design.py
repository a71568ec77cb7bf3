#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design.md, the catalog, the checks' bounds and costs, the findings and the seeded bugs."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
E = lambda *p: os.path.join(HERE, *p)  # noqa: E731


def properties():
    man = {c['property']: c for c in json.load(open(E('MANIFEST.json')))['checks']}
    out = []
    for line in open(E('properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        out.append(f'### {i} {p["title"]}\n')
        if i not in man:
            out.append('No check.\n')
            continue
        out.append(f'Explored: {p["quantifier"]["text"]}. Deciding method: {man[i]["technique"]}. '
                   f'Why not tests: {p["why_tests_cant"]}.\n')
        cost = {}
        try:
            ev = json.load(open(E('evidence', i + '.json')))
            if ev['tier'] == 'quick':
                cost = ev['coverage'].get('families', {})
        except (OSError, ValueError):
            pass
        for f in importlib.import_module('mc.props.' + i.lower()).families():
            c = cost.get(f.name)
            out.append(f'* {f.name}: {f.bounds}' + (f' - {c["scenarios"]} scenarios, {c["wall_s"]:.0f} s (quick)' if c else ''))
        out.append('')
    return '\n'.join(out)


def findings():
    out = []
    for f in json.load(open(E('known_findings.json')))['findings']:
        if f.get('fixed'):
            out.append('* ' + f['text'].split('fixed: property=')[1])
        else:
            out.append(f'* KNOWN FINDING (not repaired) {f}')
    return '\n'.join(out)


def seeded():
    res = {}
    if os.path.exists(E('tools', 'seeded.json')):
        res = json.load(open(E('tools', 'seeded.json')))
    out = ['| planted bug | property | breaks | caught by |', '|---|---|---|---|']
    for m in sorted(glob.glob(E('seeded', '*', 'meta.json'))):
        i = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        out.append(f'| {i} | {d["property"]} | {d["what_it_breaks"]} | {res.get(i, "?")} |')
    return '\n'.join(out)


s = open(E('tools', 'design.md')).read()
for k, f in (('PROPERTIES_TABLE', properties), ('FINDINGS_LIST', findings), ('SEEDED_TABLE', seeded)):
    s = s.replace(k, f())
open(E('DESIGN.md'), 'w').write(s)
