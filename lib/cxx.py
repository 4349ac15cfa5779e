"""Compiles C++ units of /repo's working tree for a check."""

import hashlib
import os
import subprocess
import sys

import repoenv
import vp

SHIMS = os.path.join(vp.VERIF, 'shims')


def run(cmd, what):
  r = subprocess.run(cmd, capture_output=True, text=True)
  if r.returncode:
    raise vp.HarnessError(
        f'{what}: {" ".join(cmd)}\n{r.stderr[-6000:]}')
  return r


def compile_objects(sources, flags, jobs=8, cxx='g++'):
  """Compiles sources (absolute paths) in parallel; returns object paths."""
  out = os.path.join(repoenv.scratch(), 'obj')
  os.makedirs(out, exist_ok=True)
  procs = []
  objs = []
  pending = list(sources)
  running = []
  fail = None
  while pending or running:
    while pending and len(running) < jobs:
      src = pending.pop(0)
      h = hashlib.blake2b((src + ' '.join(flags)).encode(),
                          digest_size=6).hexdigest()
      obj = os.path.join(out, os.path.basename(src) + '.' + h + '.o')
      objs.append(obj)
      log = obj + '.log'
      p = subprocess.Popen(
          [cxx, '-c', src, '-o', obj] + flags,
          stdout=subprocess.DEVNULL, stderr=open(log, 'w'))
      running.append((p, src, log))
    p, src, log = running.pop(0)
    if p.wait() != 0 and fail is None:
      fail = f'cannot compile {src}:\n' + open(log).read()[-6000:]
  if fail:
    raise vp.HarnessError(fail)
  return objs


def build_view_clib():
  """Builds koladata.ext.view.clib_py_ext and registers it for import."""
  import importlib.machinery
  import importlib.util
  import sysconfig
  flags = ['-std=c++20', '-O1', '-g0', '-fPIC', '-w',
           '-I' + vp.REPO, '-I' + os.path.join(SHIMS, 'arolla_py'),
           '-I' + os.path.join(SHIMS, 'absl_extra'),
           '-I' + sysconfig.get_paths()['include'],
           '-I/usr/include/python3.12']
  d = os.path.join(vp.REPO, 'py/koladata/ext/view')
  srcs = [os.path.join(d, f) for f in sorted(os.listdir(d))
          if f.endswith('.cc') and not f.endswith('_test.cc')]
  objs = compile_objects(srcs, flags)
  so = os.path.join(repoenv.scratch(), 'clib_py_ext.so')
  run(['g++', '-shared', '-o', so] + objs +
      ['-Wl,--start-group'] + absl_libs() + ['-Wl,--end-group'], 'link')
  name = 'koladata.ext.view.clib_py_ext'
  loader = importlib.machinery.ExtensionFileLoader(name, so)
  spec = importlib.util.spec_from_file_location(name, so, loader=loader)
  mod = importlib.util.module_from_spec(spec)
  loader.exec_module(mod)
  import koladata.ext.view as pkg
  sys.modules[name] = mod
  pkg.clib_py_ext = mod
  return mod


def absl_libs():
  import glob
  libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
  if not libs:
    libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
  return ['-Wl,--as-needed'] + libs


def absl_std_view():
  """Include flag: absl::string_view convertible to std::string_view.

  The distribution's absl has its own string_view class (in upstream builds it
  is an alias of std::string_view); a conversion operator bridges the two
  without changing the ABI.
  """
  root = os.path.join(repoenv.scratch(), 'absl_std_view')
  path = os.path.join(root, 'absl/strings/string_view.h')
  if not os.path.exists(path):
    with open('/usr/include/absl/strings/string_view.h') as f:
      s = f.read()
    mark = '  // Converts to `std::basic_string`.\n'
    if s.count(mark) != 1:
      raise vp.HarnessError('unexpected absl/strings/string_view.h')
    s = s.replace(mark, '''  constexpr operator std::basic_string_view<char>() const noexcept {
    return std::basic_string_view<char>(ptr_, length_);
  }
  template <class T, class = std::enable_if_t<
      std::is_same_v<T, std::basic_string_view<char>>>>
  constexpr string_view(T s) noexcept : string_view(s.data(), s.size()) {}
  constexpr bool starts_with(string_view p) const noexcept {
    return size() >= p.size() && substr(0, p.size()).compare(p) == 0;
  }
  constexpr bool starts_with(char c) const noexcept {
    return !empty() && front() == c;
  }
  constexpr bool ends_with(string_view p) const noexcept {
    return size() >= p.size() && substr(size() - p.size()).compare(p) == 0;
  }
  constexpr bool ends_with(char c) const noexcept {
    return !empty() && back() == c;
  }
''' + mark)
    mark = '  explicit operator std::basic_string<char, traits_type, A>() const {'
    if s.count(mark) != 1:
      raise vp.HarnessError('unexpected absl/strings/string_view.h')
    # For code that passes views to libraries whose newer versions take them.
    s = s.replace(mark, '''#ifndef VERIF_IMPLICIT_VIEW
  explicit
#endif
''' + mark.replace('explicit ', ''))
    mark = '// IO Insertion Operator\n'
    if s.count(mark) != 1:
      raise vp.HarnessError('unexpected absl/strings/string_view.h')
    s = s.replace(mark, '''
template <class T, class = std::enable_if_t<
    std::is_same_v<T, std::basic_string_view<char>>>>
constexpr bool operator==(T a, string_view b) noexcept {
  return string_view(a) == b;
}
template <class T, class = std::enable_if_t<
    std::is_same_v<T, std::basic_string_view<char>>>>
constexpr bool operator==(string_view a, T b) noexcept {
  return a == string_view(b);
}
''' + mark)
    s = s.replace('#include <algorithm>', '#include <algorithm>\n#include <string_view>\n#include <type_traits>', 1)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
      f.write(s)
  return '-I' + root



def absl_patched():
  """Include flags: the distribution's absl with newer features added.

  std::string_view conversions, AbslStringify in StrCat/StrFormat, and %v.
  Only headers change; the ABI stays that of the installed libraries.
  """
  root = absl_std_view()[2:]
  d = os.path.join(root, 'absl/strings')
  path = os.path.join(d, 'str_format.h')
  if os.path.exists(path):
    return ['-I' + root]
  inc = os.path.join(SHIMS, 'absl_patch')
  with open('/usr/include/absl/strings/str_cat.h') as f:
    s = f.read()
  mark = '  // Use string literals ":" instead of character literals \':\'.\n'
  ns = '\nnamespace absl {\n'
  if s.count(mark) != 1 or ns not in s:
    raise vp.HarnessError('unexpected absl/strings/str_cat.h')
  s = s.replace(mark, '''  struct VerifSink { std::string s; };
  template <typename T, typename = std::enable_if_t<
      verif_stringify::Has<T>::value && !std::is_enum_v<T>>>
  AlphaNum(const T& v, VerifSink&& sink = {})
      : piece_((sink.s = verif_stringify::ToString(v), sink.s)) {}
  template <typename T, typename = std::enable_if_t<
      std::is_same_v<T, std::string_view>>, int = 0>
  AlphaNum(const T& v) : piece_(v.data(), v.size()) {}
''' + mark)
  s = s.replace(ns, f'''
#include <string>
#include <string_view>
#include "{inc}/stringify.inc"
''' + ns, 1)
  with open(os.path.join(d, 'str_cat.h'), 'w') as f:
    f.write(s)
  with open('/usr/include/absl/strings/str_format.h') as f:
    s = f.read()
  old = 'std::string StrFormat(const FormatSpec<Args...>& format,'
  if s.count(old) != 1:
    raise vp.HarnessError('unexpected absl/strings/str_format.h')
  s = s.replace(old, old.replace('StrFormat(', 'StrFormatTyped('))
  old = 'bool Format(FormatRawSink raw_sink, const FormatSpec<Args...>& format,'
  if s.count(old) != 1:
    raise vp.HarnessError('unexpected absl/strings/str_format.h')
  s = s.replace(old, old.replace('Format(', 'FormatTyped('))
  end = s.rindex('#endif')
  s = s[:end] + f'#include "{inc}/str_format.inc"\n' + s[end:]
  with open('/usr/include/absl/status/status.h') as f:
    t = f.read()
  old = '  Status(absl::StatusCode code, absl::string_view msg);\n'
  if t.count(old) != 1:
    raise vp.HarnessError('unexpected absl/status/status.h')
  t = t.replace(old, old + '''  template <typename Location>
  Status(absl::StatusCode code, absl::string_view msg, const Location&)
      : Status(code, msg) {}
''')
  old = '? RepToPointer(rep_)->message\n'
  if t.count(old) != 1:
    raise vp.HarnessError('unexpected absl/status/status.h')
  t = t.replace(old, '? absl::string_view(RepToPointer(rep_)->message)\n')
  name = 'absl/container/internal/hash_function_defaults.h'
  with open('/usr/include/' + name) as f:
    u = f.read()
  old = 'struct HashEq<std::shared_ptr<T>> : HashEq<T*> {};\n'
  if u.count(old) != 1:
    raise vp.HarnessError('unexpected ' + name)
  u = u.replace(old, old + '''
template <typename T>
struct HashEq<T, std::void_t<typename T::absl_container_hash>> {
  using Hash = typename T::absl_container_hash;
  using Eq = std::equal_to<>;
};
''')
  mutex = 'absl/synchronization/mutex.h'
  with open('/usr/include/' + mutex) as f:
    m = f.read()
  for cls, cond in (('MutexLock', 'EXCLUSIVE_LOCK'),
                    ('ReaderMutexLock', 'SHARED_LOCK'),
                    ('WriterMutexLock', 'EXCLUSIVE_LOCK')):
    old = f'  explicit {cls}(Mutex *mu) ABSL_{cond}_FUNCTION(mu)'
    if m.count(old) != 1:
      raise vp.HarnessError('unexpected ' + mutex)
    m = m.replace(old, f'  explicit {cls}(Mutex &mu) : {cls}(&mu) {{}}\n' + old)
  os.makedirs(os.path.join(root, os.path.dirname(mutex)), exist_ok=True)
  with open(os.path.join(root, mutex), 'w') as f:
    f.write(m)
  os.makedirs(os.path.join(root, os.path.dirname(name)), exist_ok=True)
  with open(os.path.join(root, name), 'w') as f:
    f.write(u)
  os.makedirs(os.path.join(root, 'absl/status'), exist_ok=True)
  with open(os.path.join(root, 'absl/status/status.h'), 'w') as f:
    f.write(t)
  with open(path, 'w') as f:
    f.write(s)
  return ['-I' + root]
