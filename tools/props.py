"""Single source of properties.jsonl and MANIFEST.json (run to regenerate)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PBT = 'property-based testing'
P = []  # (property dict, check dict or None, reason or None)


def prop(id, title, statement, over, text, why, files, mechanism, *,
         check=None, technique=None, note=None, reason=None, state=None,
         observe=None, level='exploration'):
  d = {
      'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text},
      'why_tests_cant': why,
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mechanism]},
  }
  if state:
    d['anchors']['state'] = [
        {'name': n, 'meaning': m, 'where': w} for n, m, w in state]
  if observe:
    d['anchors']['observe_at'] = observe
  c = None
  if check:
    c = {
        'property': id,
        'quick_cmd': f'bash run.sh {check}',
        'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {check}',
        'technique': technique,
        'level': level,
        'level_note': note,
    }
  P.append((d, c, reason))


import props_data  # noqa: E402,F401


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
      assert len(d['title']) <= 80, d['title']
      f.write(json.dumps(d, ensure_ascii=False) + '\n')
  m = {
      'version': 1,
      'setup_cmd': 'bash setup.sh',
      'checks': [c for _, c, _ in P if c],
      'not_applicable': [{'property': d['id'], 'reason': r}
                         for d, c, r in P if not c],
  }
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')


