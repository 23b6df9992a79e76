"""Writes the table of planted bugs in DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.join(HERE, '..')


def main():
    rows = []
    for name in sorted(os.listdir(os.path.join(TOP, 'seeded'))):
        with open(os.path.join(TOP, 'seeded', name, 'meta.json')) as f:
            d = json.load(f)
        rows.append((d['property'], name, d['what_it_breaks'], d['needs']))
    lines = ['<!-- planted -->', '', '%d changes so far:' % len(rows), '', '| caught by | change | what it breaks | what it needs |', '|---|---|---|---|']
    lines += ['| %s | %s | %s | %s |' % r for r in sorted(rows)]
    lines += ['', '<!-- /planted -->']
    path = os.path.join(TOP, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    text = re.sub(r'<!-- planted -->.*?<!-- /planted -->', lambda m: '\n'.join(lines), text, flags=re.S)
    with open(path, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
