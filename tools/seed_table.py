"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = ['| planted bug | what it needs | caught by |', '|---|---|---|']
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        with open(os.path.join(HERE, 'seeded', name, 'meta.json')) as f:
            meta = json.load(f)
        rows.append('| {} | {} | {} |'.format(name, meta['needs'].replace('|', '/'), meta['property']))
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    table = '\n'.join(rows)
    if 'SEEDTABLE' in text:
        text = text.replace('SEEDTABLE', table)
    else:
        text = re.sub(r'\| planted bug \|(.*\n)+?(?!\|)', table + '\n', text)
    with open(path, 'w') as f:
        f.write(text)


main()
