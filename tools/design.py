#!/usr/bin/env python3
"""Assemble DESIGN.md from design/*.md, known_findings.jsonl and seeded/*/meta.json (the two tables are generated)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    def part(n):
        return open(os.path.join(ROOT, 'design', n)).read().rstrip() + '\n'
    out = [part('head.md'), part('props.md')]
    fixed, known = [], []
    for line in open(os.path.join(ROOT, 'known_findings.jsonl')):
        line = line.strip()
        if line.startswith('fixed: '):
            f = line[7:].split(None, 2)
            what = f[2].replace('before the repair this failed - ', '')
            fixed.append((f[0].split('=')[1], f[1], what))
        elif line:
            known.append(json.loads(line))
    out.append('## 3. Defects found on the original tree and repaired\n\n'
               '%d genuine defects were found by these checks and repaired, one `fix:` commit in /repo each (the existing tests pass, unedited). '
               'Each line names what did not hold before the repair; the check reports it again if the repair is undone.\n\n' % len(fixed)
               + '\n'.join('* %s `%s` %s' % (p, c, w) for p, c, w in sorted(fixed)) + '\n')
    out.append('## 4. Known findings (recorded, not repaired)\n\n'
               + '\n'.join('* **%s** %s – %s' % (k['property'], k['where'], k['what']) for k in known) + '\n')
    rows = []
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
    out.append('## 5. Planted bugs\n\nEvery change below compiles, passes the existing tests and has a demonstration; each is reported by the '
               'quick check of its property (re-confirmed with `tools/plant.py`). Where a planted change was missed at first the check was '
               'strengthened (see section 6).\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
    out.append(part('tail.md'))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
