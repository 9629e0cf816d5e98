#!/usr/bin/env python3
"""The properties, in one place.  Writes properties.jsonl and MANIFEST.json."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=(), reason=None):
    PROPS.append(dict(pid=pid, title=title, statement=' '.join(statement.split()), over=over,
                      text=' '.join(text.split()), why=' '.join(why.split()), files=files,
                      mechanism=mechanism, technique=technique, note=' '.join(note.split()),
                      observe=list(observe), reason=reason))


exec((ROOT / 'tools' / 'properties.py').read_text())


def main():
    built = set(re.findall(r"'([A-Z]\d\d)'", (ROOT / 'harness' / 'check.py').read_text()))
    lines, checks, rest = [], [], []
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['pid'], p['statement'])
        lines.append({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe'], 'hook_needed': None},
        })
        if p['pid'] in built and not p['reason']:
            checks.append({
                'property': p['pid'],
                'quick_cmd': f'python3 harness/check.py {p["pid"]} --tier quick',
                'thorough_cmd': f'python3 harness/check.py {p["pid"]} --tier thorough',
                'evidence_file': f'evidence/{p["pid"]}.json',
                'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'],
            })
        else:
            rest.append({'property': p['pid'], 'reason': p['reason'] or 'its specification module and check are still being built'})
    (ROOT / 'properties.jsonl').write_text(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in lines))
    (ROOT / 'MANIFEST.json').write_text(json.dumps({
        'version': 1, 'setup_cmd': 'python3 harness/setup.py',
        'checks': checks, 'not_applicable': rest,
        'notes': 'Pure TLA+/TLC with the CommunityModules. The code under test is imported from '
                 '/repo by drivers that run in /opt/venv; no hooks in /repo are needed.',
    }, indent=1, ensure_ascii=False) + '\n')
    print(len(checks), 'checks;', [r['property'] for r in rest], 'unclaimed')


main()
