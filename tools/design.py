"""Writes the generated tables of DESIGN.md: properties and planted bugs (between the markers)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def seeded():
    out = ['| planted bug | property | needs |', '|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    rows = []
    for x in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, x, 'meta.json')))
        rows.append((m['property'], x, m['needs']))
    for p, x, n in sorted(rows):
        out.append(f'| {x} | {p} | {n} |')
    return '\n'.join(out)


def fixed():
    out = []
    for l in json.load(open(os.path.join(HERE, 'known_findings.json')))['fixed']:
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        out.append(m.groups())
    rows = ['| property | commit | what was wrong |', '|---|---|---|']
    rows += [f'| {a} | {b} | {c} |' for a, b, c in sorted(out)]
    return '\n'.join(rows)


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    for name, text in (('SEEDED', seeded()), ('FIXED', fixed())):
        s = re.sub(rf'(<!-- {name} -->\n).*?(<!-- /{name} -->)',
                   lambda m: m.group(1) + text + '\n' + m.group(2), s, flags=re.S)
    open(path, 'w').write(s)


main()
