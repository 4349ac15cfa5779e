"""Builds the C++ core of /repo (koladata/*.cc, internal, op_utils, …).

The real sources are compiled against a small stand-in for the arolla library
(shims/kcore), because arolla is not available here.  A check names the source
groups it needs and its driver (native/*.cc); everything is compiled from the
current working tree into the check's scratch directory.
"""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess

import cxx
import repoenv
import vp

KSHIM = os.path.join(cxx.SHIMS, 'kcore')
CXX = '/usr/bin/clang++'

# Units that need parts of arolla which have no stand-in.
_SKIP = {
    'koladata/internal/op_utils/print.cc',
    'koladata/benchmarks.cc',
    'koladata/operators/operators.cc',  # See _ops_table.
    'koladata/operators/curves.cc',
    'koladata/operators/matrix.cc',
    'koladata/operators/matrix_helpers.cc',
    'koladata/operators/print.cc',
    'koladata/operators/proto.cc',
    'koladata/operators/json_stream.cc',
}
# Operators of those units, and of arolla values.
_NO_OPS = ('kd.curves.', 'kd.matrix.', 'kd.proto.', 'kd.json_stream.',
           'kd.core.with_print', 'kd.strings._test_only', 'koda_internal.to_',
           'koda_internal.arolla', 'koda_internal.non_deterministic')


def _ops_table(path, proto):
  """The registrations of operators.cc that have what they need."""
  with open(path) as f:
    s = f.read()
  out = []
  for m in re.finditer(r'^(?:OPERATOR|OPERATOR_FAMILY|KODA_QEXPR_OPERATOR\w*|'
                       r'AROLLA_REGISTER_QEXPR_OPERATOR\w*)\(', s, re.M):
    depth, i, quote = 1, m.end(), False
    while depth:
      c = s[i]
      if c == '"' and s[i - 1] != '\\':
        quote = not quote
      elif not quote:
        depth += (c == '(') - (c == ')')
      i += 1
    stmt = s[m.start():i]
    name = re.search(r'"([^"]*)"', stmt).group(1)
    if not name.startswith(_NO_OPS) or (
        proto and name.startswith('kd.proto.')):
      out.append(stmt + ';')
  return '\n'.join(out) + '\n'
_VIEWS = {'src/koladata/operators/proto.cc', 'src/koladata/s11n/encoder.cc',
          'src/koladata/s11n/decoder.cc'}
# The installed absl has no StatusOr of a reference.
_STATUS_OR_REF = re.compile(rb'absl::StatusOr<(const \w+)&>')


def _is_source(name):
  return (name.endswith('.cc') and not name.endswith('_test.cc')
          and 'benchmark' not in name and 'test_utils' not in name
          and 'testing' not in name)


def sources(groups):
  """Repository-relative source files of the groups."""
  dirs = {
      'internal': ['koladata/internal', 'koladata/internal/op_utils'],
      'public': ['koladata'],
      'operators': ['koladata/operators'],
      'proto': ['koladata/proto'],
      's11n': ['koladata/s11n'],
  }
  out = []
  if 'proto' in groups:
    out.append('koladata/operators/proto.cc')
  for g in groups:
    if g.endswith('.cc'):
      out.append(g)
      continue
    for d in dirs[g]:
      for n in sorted(os.listdir(os.path.join(vp.REPO, d))):
        rel = os.path.join(d, n)
        if _is_source(n) and rel not in _SKIP:
          out.append(rel)
  return out


def _mirror(root):
  """Copies koladata's C++ with std::string_view spelled absl::string_view.

  The installed absl has its own string_view class; upstream's is an alias.
  """
  pat = re.compile(rb'\bstd::string_view\b')
  for base, dirs, files in os.walk(os.path.join(vp.REPO, 'koladata')):
    rel = os.path.relpath(base, vp.REPO)
    for n in files:
      if not n.endswith(('.h', '.cc', '.inc')):
        continue
      with open(os.path.join(base, n), 'rb') as f:
        s = f.read()
      if not n.startswith('json_stream'):
        s = pat.sub(b'absl::string_view', s)
      if n == 'decoder.cc':
        s = _STATUS_OR_REF.sub(rb'absl::StatusOr<std::reference_wrapper<\1>>',
                               s)
      os.makedirs(os.path.join(root, rel), exist_ok=True)
      with open(os.path.join(root, rel, n), 'wb') as f:
        f.write(s)


def _tree_hash(dirs):
  h = hashlib.blake2b(digest_size=16)
  for d in dirs:
    for base, sub, files in os.walk(d):
      sub.sort()
      for n in sorted(files):
        if n.endswith(('.h', '.inc', '.def')):
          p = os.path.join(base, n)
          h.update(os.path.relpath(p, d).encode())
          with open(p, 'rb') as f:
            h.update(f.read())
  return h.hexdigest()


def build(name, driver, groups=('internal',), opt='-O0', defines=(),
          extra_flags=(), pch=True):
  """Compiles and links; returns the path of the program."""
  work = os.path.join(repoenv.scratch(), 'kcore-' + name)
  shutil.rmtree(work, ignore_errors=True)
  src = os.path.join(work, 'src')
  gen = os.path.join(work, 'gen')
  obj = os.path.join(work, 'obj')
  for d in (src, gen, obj):
    os.makedirs(d)
  _mirror(src)
  protos = ['arolla/serialization_base/base.proto',
            'koladata/s11n/codec.proto']
  if 'proto' in groups:
    protos += ['koladata/proto/annotations.proto', 'verif/msg.proto']
    defines = (*defines, 'VERIF_PROTO')
  cxx.run(['/usr/bin/protoc', '-I' + os.path.join(KSHIM, 'proto'),
           '-I' + vp.REPO, '--cpp_out=' + gen, *protos], 'protoc')
  if 'operators' in groups:
    with open(os.path.join(gen, 'ops_table.inc'), 'w') as f:
      f.write(_ops_table(os.path.join(src, 'koladata/operators/operators.cc'),
                         'proto' in groups))
  absl = cxx.absl_patched()
  flags = ['-std=c++20', opt, '-g0', '-w', '-ferror-limit=5',
           *extra_flags, *['-D' + d for d in defines],
           '-I' + KSHIM, *absl, '-I' + gen, '-I' + src,
           '-I' + os.path.join(vp.VERIF, 'native')]
  units = [os.path.join(src, s) for s in sources(groups)]
  units += sorted(glob.glob(gen + '/**/*.pb.cc', recursive=True))
  units.append(os.path.join(KSHIM, 'arolla/mini/mini.cc'))
  if 'operators' in groups:
    units.append(os.path.join(KSHIM, 'arolla/mini/eval_table.cc'))
    units.append(os.path.join(KSHIM, 'arolla/mini/eval_strings.cc'))
  units += [os.path.join(vp.VERIF, 'native', d) for d in
            ([driver] if isinstance(driver, str) else driver)]
  # The largest units first, so that the build ends evenly.
  units.sort(key=lambda u: -os.path.getsize(u))

  cache = os.environ.get('VERIF_KCACHE')  # For development only.
  headers = native_headers = ''
  if cache:
    os.makedirs(cache, exist_ok=True)
    headers = _tree_hash([src, KSHIM, absl[0][2:]])
    native_headers = _tree_hash([os.path.join(vp.VERIF, 'native')])
  cflags = [f for f in flags if not f.startswith('-I')]
  pch_file = []

  def make_pch():
    out = os.path.join(work, 'kcore.pch')
    cxx.run([CXX, *flags, '-x', 'c++-header',
             os.path.join(vp.VERIF, 'native/kcore_pch.h'), '-o', out], 'pch')
    pch_file.append(out)

  def compile_one(path):
    rel = os.path.relpath(path, work)
    if rel.startswith('..'):
      rel = 'ext/' + os.path.basename(path)
    o = os.path.join(obj, rel.replace('/', '_') + '.o')
    hit = None
    if cache:
      with open(path, 'rb') as f:
        key = hashlib.blake2b(
            repr((rel, headers, native_headers if rel.startswith('ext/') else 0,
                  cflags, f.read())).encode(), digest_size=16)
      hit = os.path.join(cache, key.hexdigest() + '.o')
      if os.path.exists(hit):
        shutil.copyfile(hit, o)
        return o
    extra = ['-include-pch', pch_file[0]] if pch_file else []
    if rel in _VIEWS or rel.startswith('src/koladata/proto/'):
      # Newer protobuf takes string views.
      extra = ['-DVERIF_IMPLICIT_VIEW', '-include', 'absl/base/nullability.h',
               '-include', 'google/protobuf/reflection.h']
    r = subprocess.run([CXX, *flags, *extra, '-c', path, '-o', o],
                       capture_output=True, text=True)
    if r.returncode:
      raise vp.HarnessError(f'cannot compile {rel}:\n{r.stderr[-5000:]}')
    if hit:
      shutil.copyfile(o, hit + '.tmp%d' % os.getpid())
      os.rename(hit + '.tmp%d' % os.getpid(), hit)
    return o

  if pch:
    make_pch()
  with concurrent.futures.ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(compile_one, units))
  exe = os.path.join(work, name)
  cxx.run([CXX, '-fuse-ld=/usr/bin/ld.lld', *[f for f in extra_flags if 'sanitize' in f],
           '-o', exe] + objs
          + ['-Wl,--start-group'] + cxx.absl_libs() + ['-Wl,--end-group',
             '-lprotobuf', '-licuuc', '-lpthread'], 'link')
  shutil.rmtree(src, ignore_errors=True)
  shutil.rmtree(obj, ignore_errors=True)
  return exe
