"""mkseed.py SPEC.py: creates seeded/<id>/ from a spec with ID, PROP, NEEDS, BREAKS, EDITS, DEMO.

EDITS: list of (file, old, new).  DEMO: Python source run with cwd /repo (exit 0 = ok),
or DEMO_SH: shell script text; FILES: extra files beside demo.sh.
KDEMO: Python source that uses the driver `d` of the C++ core (lib/kd.py), built from
BUILD = (native command files, source groups) or None for other libraries; the build machinery goes beside it as
kit.tar.xz.
"""
import difflib
import io
import json
import os
import runpy
import subprocess
import sys
import tarfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Run with cwd /repo after the build: exit 0 on the unchanged tree.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export PYTHONPATH=$PWD/py:/opt/vp/work/gen/py:/opt/vp/work/gen
exec /opt/venv/bin/python "$here/demo.py"
'''

KHEAD = '''
import os
import sys
import tarfile
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.TemporaryDirectory()
tarfile.open(os.path.join(here, 'kit.tar.xz')).extractall(tmp.name)
os.environ['VERIF_REPO'] = os.getcwd()
os.environ['TMPDIR'] = tmp.name
os.environ.pop('VERIF_KEXE', None)
os.environ.pop('VERIF_KCACHE', None)
tempfile.tempdir = tmp.name
sys.path.insert(0, os.path.join(tmp.name, 'lib'))
'''
KBUILD = '''
import kd
import kpub

kd.build('demo', %r, groups=%r)
d = kd.driver()
d.reset()
'''


def kit(path):
  with tarfile.open(path, 'w:xz') as t:
    for n in ('lib', 'native', 'shims'):
      for base, dirs, files in sorted(os.walk(os.path.join(ROOT, n))):
        for f in sorted(files):
          if 'kcore_test' in base:
            continue
          if '__pycache__' not in base:
            data = open(os.path.join(base, f), 'rb').read()
            data = data.replace(b'cd /verif', b'cd VERIF')
            assert b'/verif/' not in data, f
            info = tarfile.TarInfo(
                os.path.relpath(os.path.join(base, f), ROOT))
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))


def main(spec):
  s = runpy.run_path(spec)
  d = os.path.join(ROOT, 'seeded', s['ID'])
  os.makedirs(d, exist_ok=True)
  by_file = {}
  for f, old, new in s['EDITS']:
    text = by_file.get(f) or open('/repo/' + f).read()
    assert text.count(old) == 1, (f, text.count(old), old)
    by_file[f] = text.replace(old, new)
  out = []
  for f, text in by_file.items():
    a = open('/repo/' + f).read().splitlines(True)
    b = text.splitlines(True)
    out += [f'diff --git a/{f} b/{f}\n']
    out += list(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
  open(os.path.join(d, 'patch.diff'), 'w').write(''.join(out))
  json.dump({'property': s['PROP'], 'needs': s['NEEDS'],
             'what_it_breaks': s['BREAKS']},
            open(os.path.join(d, 'meta.json'), 'w'), indent=1)
  if 'DEMO' in s:
    open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
  if 'KDEMO' in s:
    open(os.path.join(d, 'demo.py'), 'w').write(
        KHEAD.lstrip('\n')
        + (KBUILD % s['BUILD'] if s.get('BUILD') else '') + s['KDEMO'])
    kit(os.path.join(d, 'kit.tar.xz'))
  for n, t in s.get('FILES', {}).items():
    open(os.path.join(d, n), 'w').write(t.lstrip('\n'))
  open(os.path.join(d, 'demo.sh'), 'w').write(
      s.get('DEMO_SH', SH).lstrip('\n'))


for p in sys.argv[1:]:
  main(p)
