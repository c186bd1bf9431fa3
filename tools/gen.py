"""Generates properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
sys.dont_write_bytecode = True
import props  # noqa
import registry  # noqa

TECH = ('static dataflow: gated value-dependence graph of each entry point, value-numbered and '
        'compared with a reference definition')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            over, text = p['quant']
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': over, 'text': ' '.join(text.split())},
                'why_tests_cant': ' '.join(p['why'].split()),
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
            }) + '\n')
    checks = []
    for p in props.PROPS:
        i = p['id']
        if i in props.NA:
            continue
        assert i in registry.PROPERTIES, i
        checks.append({
            'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick',
            'thorough_cmd': f'python3 check.py {i} --tier thorough',
            'technique': p.get('technique', TECH), 'level': 'other',
            'level_note': ' '.join(p.get('note', props.NOTE).split())})
    for i in registry.PROPERTIES:
        assert any(p['id'] == i for p in props.PROPS), i
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"',
            'checks': checks,
            'not_applicable': [{'property': k, 'reason': ' '.join(v.split())}
                               for k, v in props.NA.items()],
        }, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
