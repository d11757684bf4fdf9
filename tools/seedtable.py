#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only: no check reads seeded/)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    also = m.get('also')
    rows.append(f"| {d.name} | {m['property']}{', ' + also if also else ''} | {m['needs']} | {m['what_it_breaks']} |")
table = '\n'.join(['| planted bug | caught by | needs | breaks |', '| --- | --- | --- | --- |', *rows])
f = root / 'DESIGN.md'
s = f.read_text()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: f'<!-- seeds -->\n{table}\n<!-- /seeds -->', s, flags=re.S)
f.write_text(s)
