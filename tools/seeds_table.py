"""Writes the table of planted bugs into DESIGN.md (after the SEEDS marker)."""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = {c['property']: c['quick_cmd'].split()[-1]
          for c in json.load(open(f'{root}/MANIFEST.json'))['checks']}
rows = ['<!-- SEEDS: tools/seeds_table.py -->',
        '| id | property | caught by | needs |', '|---|---|---|---|']
for p in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
  m = json.load(open(p))
  rows.append(f"| {p.split('/')[-2]} | {m['property']} |"
              f" `{checks[m['property']]}`{m.get('note', '')} | {m['needs']} |")
text = open(f'{root}/DESIGN.md').read()
text = text[:text.index('<!-- SEEDS')] + '\n'.join(rows) + '\n'
open(f'{root}/DESIGN.md', 'w').write(text)
