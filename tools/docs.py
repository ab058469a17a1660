#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py."""
import json
import os

from props_data import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIELDS = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')


def main():
    checks = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            for a in p['anchors']['files']:
                assert os.path.exists('/repo/' + a), a
            f.write(json.dumps({k: p[k] for k in FIELDS}) + '\n')
            checks.append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'],
                               thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
                               technique=p['technique'], level='exploration', level_note=p['note']))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3 run.py --help > /dev/null', checks=checks, not_applicable=[]), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
