#!/usr/bin/env python3
"""Validates the arolla stand-in: runs the repository's own C++ tests on it.

tools/gtests.py [NAME...]   names of test files (default: all that compile).
Not used by any check.
"""
import concurrent.futures
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
os.environ.setdefault('VERIF_KCACHE', '/tmp/kc')
import cxx
import kcore
import repoenv
import vp

DIRS = ('koladata/internal', 'koladata/internal/op_utils', 'koladata')
OUT = os.environ.get('OUT', '/tmp/gt')


def main():
  os.makedirs(OUT, exist_ok=True)
  src = os.path.join(OUT, 'src')
  subprocess.run(['rm', '-rf', src], check=True)
  kcore._mirror(src)
  gen = os.path.join(OUT, 'gen')
  os.makedirs(gen, exist_ok=True)
  cxx.run(['/usr/bin/protoc', '-I' + os.path.join(kcore.KSHIM, 'proto'),
           '-I' + vp.REPO, '--cpp_out=' + gen,
           'arolla/serialization_base/base.proto',
           'koladata/s11n/codec.proto'], 'protoc')
  flags = ['-std=c++20', '-O0', '-g0', '-w', '-ferror-limit=5',
           '-include', 'absl/status/status_matchers.h',
           '-I' + os.path.join(vp.VERIF, 'shims/kcore_test'),
           '-I' + kcore.KSHIM, *cxx.absl_patched(), '-I' + gen, '-I' + src]
  libs, tests = [], []
  for rel in kcore.sources(('internal', 'public')):
    libs.append(os.path.join(src, rel))
  for d in DIRS:
    for n in sorted(os.listdir(os.path.join(src, d))):
      if n == 'test_utils.cc' or n == 'testing.cc':
        libs.append(os.path.join(src, d, n))
      if n.endswith('_test.cc') and (len(sys.argv) < 2 or n[:-3] in sys.argv[1:]):
        tests.append(os.path.join(src, d, n))
  libs.append(os.path.join(kcore.KSHIM, 'arolla/mini/mini.cc'))
  for base, _, files in os.walk(gen):
    libs += [os.path.join(base, f) for f in files if f.endswith('.pb.cc')]

  def cc(p):
    o = os.path.join(OUT, os.path.relpath(p, '/').replace('/', '_') + '.o')
    stamp = o + '.key'
    key = str(hash_(p))
    if os.path.exists(o) and os.path.exists(stamp) and open(stamp).read() == key:
      return o
    r = subprocess.run([kcore.CXX, *flags, '-c', p, '-o', o],
                       capture_output=True, text=True)
    if r.returncode:
      return None
    open(stamp, 'w').write(key)
    return o

  headers = kcore._tree_hash([src, kcore.KSHIM])

  def hash_(p):
    import hashlib
    return hashlib.blake2b(open(p, 'rb').read() + headers.encode()).hexdigest()

  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    lo = [o for o in ex.map(cc, libs) if o]
    to = list(ex.map(cc, tests))

  def run(p, o):
    name = os.path.basename(p)[:-3]
    if o is None:
      return name, 'does not compile'
    exe = o[:-2]
    r = subprocess.run(
        [kcore.CXX, '-fuse-ld=/usr/bin/ld.lld', '-o', exe, o, *lo,
         '-Wl,--start-group', *cxx.absl_libs(), '-Wl,--end-group',
         '-lgmock_main', '-lgmock', '-lgtest', '-lprotobuf', '-licuuc',
         '-lpthread'], capture_output=True, text=True)
    if r.returncode:
      return name, 'does not link'
    r = subprocess.run([exe], capture_output=True, text=True, timeout=300)
    t = r.stdout
    return name, (f'rc={r.returncode}'
                  f' ok={len(re.findall(r"^.       OK", t, re.M))} failed: '
                  + ' '.join(sorted(set(re.findall(r'^\[  FAILED  \] (\S+)',
                                                   t, re.M)))))

  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for name, res in ex.map(lambda a: run(*a), zip(tests, to)):
      print(name, res, flush=True)
  repoenv.cleanup() if hasattr(repoenv, 'cleanup') else None


main()
