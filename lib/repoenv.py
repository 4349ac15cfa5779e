"""Makes the Python code of /repo importable for a check.

Nothing is written under /repo or /opt/vp: generated protos go to a scratch
directory of this process, removed at exit.
"""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile

import vp

REPO = vp.REPO
PY_ROOT = os.path.join(REPO, 'py')

_scratch = None


def scratch():
  """A scratch directory of this process tree (removed at exit)."""
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix='vpenv-')
    pid = os.getpid()

    def cleanup(path=_scratch):
      if os.getpid() == pid:
        shutil.rmtree(path, ignore_errors=True)

    atexit.register(cleanup)
  return _scratch


def use_repo(protos=()):
  """Puts /repo/py (and generated protos) on sys.path."""
  if protos:
    gen = os.path.join(scratch(), 'gen')
    os.makedirs(gen, exist_ok=True)
    import grpc_tools
    inc = os.path.join(os.path.dirname(grpc_tools.__file__), '_proto')
    for f in protos:
      r = subprocess.run(
          [sys.executable, '-m', 'grpc_tools.protoc', '-I.', f'-I{inc}',
           f'--python_out={gen}', f],
          cwd=REPO, capture_output=True, text=True)
      if r.returncode:
        raise vp.HarnessError(f'protoc {f}: {r.stderr}')
    # Same order as the project's own build: py, gen/py, gen.
    for p in (gen, os.path.join(gen, 'py')):
      if p not in sys.path:
        sys.path.insert(0, p)
  if PY_ROOT not in sys.path:
    sys.path.insert(0, PY_ROOT)


def absl_flags():
  """Parses an empty command line so that flag values can be read."""
  from absl import flags
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
