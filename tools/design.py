#!/usr/bin/env python3
"""
Write DESIGN.md from tools/design/*.md, the docstrings of the harnesses, the
table of properties and the planted bugs
"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ns = {}
exec(open(HERE + '/design/oracles.py').read(), ns)
ORACLES = ns['ORACLES']
COSTS = json.load(open(HERE + '/design/costs.json'))
MISSED = open(HERE + '/design/missed.txt').read().split()


def doc_of(prop):
    source = open('%s/mc/props/%s.py' % (VERIF, prop)).read()
    return ' '.join(re.match(r'(?s)(?:#.*?\n)*"""(.*?)"""', source)
                    .group(1).split())


def main():
    out = [open(HERE + '/design/head.md').read()]
    for line in open(VERIF + '/properties.jsonl'):
        p = json.loads(line)
        id = p['id']
        cost = COSTS.get(id)
        out.append('### %s %s\n\n%s\n\n- Enumerated: %s\n- Oracle: %s.\n'
                   '- Beyond the tests: %s\n- Quick check: %s.\n\n' % (
                       id, p['title'], p['statement'], doc_of(id),
                       ORACLES[id], p['why_tests_cant'],
                       '%d executions, %d states, %d transitions, %d s' %
                       tuple(cost) if cost else 'not measured'))
    out.append(open(HERE + '/design/tail.md').read())
    out.append('| planted bug | caught by | needs |\n|---|---|---|\n')
    for meta in sorted(glob.glob(VERIF + '/seeded/*/meta.json')):
        name = os.path.basename(os.path.dirname(meta))
        m = json.load(open(meta))
        out.append('| %s%s | %s | %s |\n' % (
            name, '*' if name in MISSED else '', m['property'], m['needs']))
    out.append(open(HERE + '/design/end.md').read())
    with open(VERIF + '/DESIGN.md', 'w') as f:
        f.write(''.join(out))

main()
