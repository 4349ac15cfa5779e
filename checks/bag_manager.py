"""C17: DataBagManager persists every committed revision, and only those."""
import os
import shutil
import tempfile

import vp
from vp import st, expect, expect_eq
import repoenv
import memfs

check = vp.Check(
    'C17',
    'Random histories (1-25 operations) over up to 4 directories and any number'
    ' of manager instances: create_new, create_from_dir, add_bags (valid,'
    ' duplicate names, unknown dependencies, stale writers), load_bags,'
    ' get_minimal_bag, extract_bags, create_branch, directory moves, cache'
    ' resizing; compared with a revision model after every operation. Crash'
    ' clause: every file-system call of an operation is crashed / failed, before'
    ' and after its effect, with torn writes, then the directory is reopened.'
    ' Race clause: other writers run at every file-system call of a writer.'
    ' Non-trivial: the history contains a stale writer, a branch/extract of a'
    ' proper subset, or (crash/race) at least one injected fault fired.',
    ['kd.types.DataBag, kd.bags.updated and kd.s11n are replaced by a map-valued'
     ' stand-in (the C++ extension cannot be built here)',
     'the file system renames files atomically'],
)
D = None      # data_bag_manager
CACHE = None  # global_cache_lib
KD = None
MemFs = None


@check.setup
def _setup():
  global D, KD, MemFs, CACHE
  repoenv.use_repo(protos=[
      'py/koladata/ext/storage/data_bag_manager_metadata.proto'])
  import fakekd
  KD = fakekd
  kd = fakekd.install()
  repoenv.absl_flags()
  from koladata.ext.storage import data_bag_manager as D_
  from koladata.ext.storage import global_cache_lib as C_
  D, CACHE = D_, C_
  MemFs = memfs.make(kd.file_io.FileSystemInterface)


NAMES = ['', 'b0', 'b1', 'b2', 'b3', 'b4', 'b5', 'b6', 'b7']
DIRS = ['/p/d0', '/p/d1', '/p/x[1]', '/p/q?', '/p/s*/sub', '/d0', '/p/n1',
        '/p/n2/deep/er']

spec = st.tuples(
    st.integers(0, len(NAMES) - 1), st.lists(st.integers(0, 11), max_size=3),
    st.sampled_from([None, None, b'', b'm1', b'm2']), st.integers(0, 3))
specs = st.lists(spec, min_size=0, max_size=4)
pick = st.lists(st.integers(0, 11), min_size=1, max_size=3)
midx = st.integers(0, 5)
op = st.one_of(
    st.tuples(st.just('new'), st.integers(0, 5)),
    st.tuples(st.just('open'), st.integers(0, 5)),
    st.tuples(st.just('open'), st.integers(0, 5)),
    st.tuples(st.just('add'), midx, specs, st.booleans()),
    st.tuples(st.just('add'), midx, specs, st.booleans()),
    st.tuples(st.just('add'), midx, specs, st.just(True)),
    st.tuples(st.just('add'), st.just(0), specs, st.just(True)),
    st.tuples(st.just('get'), midx, pick, st.booleans()),
    st.tuples(st.just('load'), midx, pick, st.booleans()),
    st.tuples(st.just('extract'), midx, pick, st.booleans(),
              st.integers(0, len(DIRS) - 1)),
    st.tuples(st.just('branch'), midx, pick, st.booleans(),
              st.integers(0, len(DIRS) - 1)),
    st.tuples(st.just('cache'), st.sampled_from(['clear', 0, 60, 10**6])),
    st.tuples(st.just('nocache'), midx),
    st.tuples(st.just('move'), st.integers(0, 5), st.integers(0, 7)),
    st.tuples(st.just('meta'), midx, pick),
)


class Bag:
  """Model of one managed bag."""

  def __init__(self, name, content, deps, meta):
    self.name, self.content, self.deps, self.meta = name, content, deps, meta


def closure(bags, names, dependents):
  by = {b.name: b for b in bags}
  s = set(names)
  if dependents:
    changed = True
    while changed:
      changed = False
      for b in bags:
        if b.name not in s and any(d in s for d in b.deps):
          s.add(b.name)
          changed = True
  todo = list(s)
  while todo:
    for d in by[todo.pop()].deps:
      if d not in s:
        s.add(d)
        todo.append(d)
  return s


def minimal(bags, s):
  out = {}
  for b in bags:
    if b.name in s:
      out.update(b.content)
  return out


SERIAL = [0]


def content(name, conflict):
  """A unique entry plus one that conflicts with other bags."""
  SERIAL[0] += 1
  return {f'{name}/{SERIAL[0]}': SERIAL[0], f'k{conflict}': SERIAL[0]}


def any_of(b):
  from google.protobuf import any_pb2
  return None if b is None else any_pb2.Any(type_url='t/' + b.hex(), value=b)


def to_add(b):
  return D.BagToAdd(b.name, KD.DataBag(b.content), tuple(b.deps),
                    **({} if b.meta is None
                       else {'custom_metadata': any_of(b.meta)}))


def verify_manager(m, bags, case, what):
  names = [b.name for b in bags]
  expect_eq(set(m.get_available_bag_names()), set(names),
            f'{what}: available bags', case=case)


def verify_full(m, bags, case, what):
  verify_manager(m, bags, case, what)
  names = [b.name for b in bags]
  loaded = m.load_bags(names)
  expect_eq({k: v.content for k, v in loaded.items()},
            {b.name: b.content for b in bags}, f'{what}: loaded bags',
            case=case)
  md = m.get_custom_metadata(names)
  expect_eq(md, {b.name: any_of(b.meta) for b in bags},
            f'{what}: custom metadata', case=case)
  if names:
    expect_eq(m.get_minimal_bag(names).content, minimal(bags, set(names)),
              f'{what}: the whole bag', case=case)
  expect_eq(list(m.canonical_topological_sorting(set(names))), names,
            f'{what}: canonical order', case=case)
  for b in bags:
    for dep in (False, True):
      want = closure(bags, [b.name], dep)
      got = m.load_bags([b.name], with_all_dependents=dep)
      expect_eq(set(got), want, f'{what}: closure of {b.name!r}'
                f' dependents={dep}', case=case)


def clear_cache():
  CACHE.get_global_cache().clear()
  CACHE.get_global_cache().set_max_total_bytes_of_entries_in_cache(10**6)


def reopen(disk, d):
  """(bags-or-None) by a fresh process."""
  clear_cache()
  fs = MemFs(disk)
  try:
    return D.DataBagManager.create_from_dir(d, fs=fs)
  except Exception:  # pylint: disable=broad-except
    return None


def attempt(fn):
  try:
    return True, fn()
  except Exception as e:  # pylint: disable=broad-except
    return False, e


class World:

  def __init__(self):
    self.disk = memfs.Disk()
    self.dirs = {}      # dir -> list[Bag] of the newest revision
    self.rev = {}       # dir -> revision number
    self.needs = {}     # dir -> set of dirs its bag files live in
    self.managers = []  # [dir, manager, bags, rev]

  def fs(self):
    return MemFs(self.disk)


def specs_to_bags(specs_, bags, fix):
  """Turns generated specs into model bags; with `fix`, mostly valid ones."""
  out = []
  names = [b.name for b in bags]
  for ni, deps, meta, conf in specs_:
    name = NAMES[ni]
    if fix and name in names:
      free = [n for n in NAMES if n not in names]
      if not free:
        continue
      name = free[ni % len(free)]
    if fix:
      dn = [names[i % len(names)] for i in deps] if names else []
    else:
      pool = NAMES + ['zz', name]
      dn = [pool[i % len(pool)] for i in deps]
    if dn and conf == 3:
      dn = dn + dn[:1]  # duplicated dependency
    out.append(Bag(name, content(name, conf), dn, meta))
    names.append(name)
  return out


def valid_add(bags, new):
  names = {b.name for b in bags}
  for b in new:
    if b.name in names or any(d not in names for d in b.deps):
      return False
    names.add(b.name)
  return True


@check.clause(lambda: st.tuples(
    st.lists(specs, max_size=2), st.lists(op, min_size=2, max_size=25)), n=1500,
              thorough=30000)
def history(case):
  SERIAL[0] = 0
  clear_cache()
  w = World()
  interesting = False
  fs = w.fs()
  # One manager to begin with so that short histories do something.
  w.dirs['/p/d0'] = []
  w.rev['/p/d0'] = 0
  w.needs['/p/d0'] = set()
  m0 = D.DataBagManager.create_new('/p/d0', fs=fs)
  w.managers.append(['/p/d0', m0, [], 0])
  for sp in case[0]:
    e = w.managers[0]
    new = specs_to_bags(sp, e[2], True)
    m0.add_bags([to_add(b) for b in new])
    e[2] = w.dirs['/p/d0'] = e[2] + new
    e[3] = w.rev['/p/d0'] = e[3] + 1

  def mgr(i):
    return w.managers[i % len(w.managers)]

  def names_of(bags, idx):
    pool = [b.name for b in bags]
    return sorted({pool[i % len(pool)] for i in idx}) if pool else None

  for step, o in enumerate(case[1]):
    k = o[0]
    where = f'step {step} {k}'
    if k == 'new':
      d = DIRS[o[1]]
      ok, r = attempt(lambda: D.DataBagManager.create_new(d, fs=w.fs()))
      want = d not in w.dirs and not any(
          e.startswith(d + '/') for e in w.dirs)
      expect_eq(ok, want, f'{where}: success of create_new({d})', case=case)
      if ok:
        w.dirs[d], w.rev[d], w.needs[d] = [], 0, set()
        w.managers.append([d, r, [], 0])
    elif k == 'open':
      d = DIRS[o[1]]
      ok, r = attempt(lambda: D.DataBagManager.create_from_dir(d, fs=w.fs()))
      expect_eq(ok, d in w.dirs, f'{where}: success of create_from_dir({d})',
                case=case)
      if ok:
        verify_manager(r, w.dirs[d], case, where)
        w.managers.append([d, r, list(w.dirs[d]), w.rev[d]])
    elif k == 'add':
      e = mgr(o[1])
      d, m, bags, rev = e
      new = specs_to_bags(o[2], bags, o[3])
      want = valid_add(bags, new) and rev == w.rev[d]
      ok, r = attempt(lambda: m.add_bags([to_add(b) for b in new]))
      if rev != w.rev[d]:
        interesting = True
        vp.label('stale writer')
      if not ok and want:
        raise r
      expect_eq(ok, want, f'{where}: success of add_bags', case=case)
      if ok:
        e[2] = bags + new
        e[3] = rev + 1
        w.dirs[d] = e[2]
        w.rev[d] = rev + 1
    elif k in ('get', 'load'):
      d, m, bags, rev = mgr(o[1])
      names = names_of(bags, o[2])
      if names is None:
        continue
      s = closure(bags, names, o[3])
      if k == 'get':
        got = m.get_minimal_bag(names, with_all_dependents=o[3])
        expect_eq(got.content, minimal(bags, s), f'{where} {names}', case=case)
      else:
        got = m.load_bags(names, with_all_dependents=o[3])
        expect_eq({n: v.content for n, v in got.items()},
                  {b.name: b.content for b in bags if b.name in s},
                  f'{where} {names}', case=case)
      ok, _ = attempt(lambda: m.load_bags(names + ['nope']))
      expect(not ok, f'{where}: unknown bag accepted', case=case)
    elif k in ('extract', 'branch'):
      d, m, bags, rev = mgr(o[1])
      names = names_of(bags, o[2])
      if names is None:
        continue
      out = DIRS[o[4]]
      s = closure(bags, names, o[3])
      fn = m.extract_bags if k == 'extract' else m.create_branch
      ok, r = attempt(lambda: fn(names, with_all_dependents=o[3],
                                 output_dir=out, fs=w.fs()))
      want = out not in w.dirs and not any(
          e.startswith(out + '/') for e in w.dirs)
      if not ok and want:
        raise r
      expect_eq(ok, want, f'{where} to {out}: success', case=case)
      if ok:
        sub = [b for b in bags if b.name in s]
        interesting |= len(sub) < len(bags)
        w.dirs[out] = sub
        w.needs[out] = (w.needs[d] | {d}) if k == 'branch' else set()
        m2 = D.DataBagManager.create_from_dir(out, fs=w.fs())
        verify_full(m2, sub, case, where)
        # extract and branch promise nothing about the revision number.
        w.rev[out] = 0
        w.managers.append([out, m2, list(sub), 0])
        vp.label(k)
    elif k == 'cache':
      c = CACHE.get_global_cache()
      if o[1] == 'clear':
        c.clear()
      else:
        c.set_max_total_bytes_of_entries_in_cache(o[1])
    elif k == 'nocache':
      mgr(o[1])[1].bag_cache = None
    elif k == 'move':
      src, dst = DIRS[o[1]], DIRS[o[2]]
      if (src not in w.dirs or dst in w.disk.dirs or src == dst
          or any(src in n for n in w.needs.values())
          or os.path.dirname(dst) not in w.disk.dirs):
        continue
      w.fs().rename(src, dst)
      w.dirs[dst] = w.dirs.pop(src)
      w.rev[dst] = w.rev.pop(src)
      w.needs[dst] = w.needs.pop(src)
      w.managers = [e for e in w.managers if e[0] != src]
      m2 = D.DataBagManager.create_from_dir(dst, fs=w.fs())
      verify_full(m2, w.dirs[dst], case, where)
      w.managers.append([dst, m2, list(w.dirs[dst]), w.rev[dst]])
      vp.label('moved')
    elif k == 'meta':
      d, m, bags, rev = mgr(o[1])
      names = names_of(bags, o[2])
      if names:
        expect_eq(m.get_custom_metadata(names),
                  {b.name: any_of(b.meta) for b in bags if b.name in names},
                  f'{where}', case=case)
      ok, _ = attempt(lambda: m.get_custom_metadata(['nope']))
      expect(not ok, f'{where}: unknown bag accepted', case=case)
    for e in w.managers:
      verify_manager(e[1], e[2], case, f'{where}, manager of {e[0]}')
  # Existing (possibly stale) instances still read their own revision ...
  for e in w.managers:
    verify_full(e[1], e[2], case, f'end, manager of {e[0]}')
  # ... and a new process reads the newest one, from disk.
  for d, bags in w.dirs.items():
    m = reopen(w.disk, d)
    expect(m is not None, f'{d} cannot be reopened', case=case)
    verify_full(m, bags, case, f'reopened {d}')
  return interesting


# -- crashes and faults -------------------------------------------------------

crash_case = st.tuples(
    st.lists(specs, min_size=0, max_size=3),  # committed updates
    st.sampled_from(['add', 'add', 'new', 'extract', 'branch']),
    specs, pick, st.booleans(), st.sampled_from(['/p/d0', '/p/x[1]']))


class OneWorker:
  """Executor that runs tasks in the calling thread (deterministic faults)."""

  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def shutdown(self, *a, **k):
    pass

  def submit(self, fn, *a, **k):
    import concurrent.futures
    f = concurrent.futures.Future()
    try:
      f.set_result(fn(*a, **k))
    except BaseException as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f

  def map(self, fn, *its, **k):
    return [fn(*a) for a in zip(*its)]


def deterministic():
  import concurrent.futures
  concurrent.futures.ThreadPoolExecutor = OneWorker


def copy_disk(disk):
  d = memfs.Disk()
  d.files, d.dirs = dict(disk.files), set(disk.dirs)
  return d


def build(updates, d, disk):
  fs = MemFs(disk)
  m = D.DataBagManager.create_new(d, fs=fs)
  bags = []
  for sp in updates:
    new = specs_to_bags(sp, bags, True)
    m.add_bags([to_add(b) for b in new])
    bags = bags + new
  return m, bags


@check.clause(crash_case, n=250, thorough=6000)
def crash(case):
  deterministic()
  updates, kind, sp, idx, dep, d = case
  SERIAL[0] = 0
  clear_cache()
  base = memfs.Disk()
  m, bags = build(updates, d, base)
  if kind in ('extract', 'branch') and not bags:
    return False
  out = '/p/out[2]/sub'
  new = specs_to_bags(sp, bags, True)
  names = sorted({bags[i % len(bags)].name for i in idx}) if bags else []
  sub = [b for b in bags if b.name in closure(bags, names, dep)]

  def run(disk, plan):
    """Runs the operation; returns (fs, manager or None, ok, exception)."""
    fs = MemFs(disk)
    mm = None
    if kind != 'new':
      mm = D.DataBagManager.create_from_dir(d, fs=fs)
    fs.count, fs.plan = 0, dict(plan)
    try:
      if kind == 'new':
        D.DataBagManager.create_new(out, fs=fs)
      elif kind == 'add':
        mm.add_bags([to_add(b) for b in new])
      elif kind == 'extract':
        mm.extract_bags(names, with_all_dependents=dep, output_dir=out, fs=fs)
      else:
        mm.create_branch(names, with_all_dependents=dep, output_dir=out, fs=fs)
      return fs, mm, True, None
    except (Exception, memfs.Crash) as e:  # pylint: disable=broad-except
      return fs, mm, False, e

  fs, _, ok, err = run(copy_disk(base), {})
  if not ok:
    raise err
  total = fs.count
  for i in range(total):
    for fault in ('crash', 'crash_after', 'error', 'error_after'):
      clear_cache()
      disk = copy_disk(base)
      fs, mm, ok, err = run(disk, {i: fault})
      info = dict(case=case, fault=fault, at=fs.log[-1] if fs.log else None,
                  index=i)
      if ok:
        # The fault hit a call whose failure does not matter.
        expect(not fault.startswith('crash'), 'survived a crash', **info)
      m1 = reopen(disk, d)
      expect(m1 is not None, 'the directory cannot be read any more', **info)
      have = set(m1.get_available_bag_names())
      if kind == 'add':
        old, neu = [b.name for b in bags], [b.name for b in bags + new]
        expect(have in (set(old), set(neu)),
               'neither the old nor the new revision', have=have, **info)
        if ok:
          expect_eq(have, set(neu), 'a reported commit is lost', **info)
        now = bags + new if have == set(neu) and new else bags
        verify_full(m1, now, case, f'after {fault} {i}')
        if not ok and fault.startswith('error'):
          # The same manager goes on.
          verify_full(mm, bags, case, f'manager after {fault} {i}')
          committed = mm_committed(disk, base, d)
          ok2, err2 = attempt(lambda: mm.add_bags([to_add(b) for b in new]))
          if committed:
            expect(not ok2, 'retry of a committed update succeeded', **info)
            final = bags + new
          else:
            if not ok2:
              raise err2
            final = bags + new
            verify_full(mm, final, case, f'manager after retry {fault} {i}')
          m3 = reopen(disk, d)
          verify_full(m3, final, case, f'after retry {fault} {i}')
      else:
        verify_full(m1, bags, case, f'source after {fault} {i}')
        m2 = reopen(disk, out)
        want = [] if kind == 'new' else sub
        if ok:
          expect(m2 is not None, 'a reported creation is lost', **info)
          verify_full(m2, want, case, f'output after {fault} {i}')
        elif m2 is not None:
          if kind == 'extract' and not m2.get_available_bag_names():
            pass  # created, bags not committed yet
          else:
            verify_full(m2, want, case, f'output after {fault} {i}')
  vp.label(kind)
  return total > 0


def mm_committed(disk, base, d):
  """Whether a newer revision than that of `base` is readable in `disk`."""
  # A manager opened at `base`'s revision can commit on `disk` iff nothing newer
  # is there.
  fs = MemFs(copy_disk(base))
  probe = D.DataBagManager.create_from_dir(d, fs=fs)
  fs.disk = copy_disk(disk)
  ok, _ = attempt(lambda: probe.add_bags([]))
  return not ok


# -- racing writers -----------------------------------------------------------

race_case = st.tuples(
    st.lists(specs, min_size=0, max_size=2), specs, specs, specs,
    st.booleans(), st.sampled_from(['one', 'nested', 'two']))


@check.clause(race_case, n=250, thorough=6000)
def race(case):
  """Writers B (and C) run to completion inside writer A's fs calls."""
  deterministic()
  updates, spa, spb, spc, fresh, shape = case
  SERIAL[0] = 0
  clear_cache()
  d = '/p/d0'
  base = memfs.Disk()
  m, bags = build(updates, d, base)
  clients = []
  for j, sp in enumerate((spa, spb, spc)):
    new = specs_to_bags(sp, bags, True)
    # Distinguish the writers' bags.
    ren = {b.name: f'{b.name}-{j}' for b in new}
    for b in new:
      b.deps = [ren.get(x, x) for x in b.deps]
      b.name = ren[b.name]
    new.append(Bag(f'own-{j}', content(f'own-{j}', 0), [], None))
    clients.append(new)

  def attempt_all(disk, ia, ib):
    """Runs A with B at its ia-th call (and C at B's ib-th call)."""
    order = []
    res = {}
    mans = {}

    def client(j, plan):
      fs = MemFs(disk)
      if fresh or j == 0:
        mm = D.DataBagManager.create_from_dir(d, fs=fs)
      else:
        fs, mm = pre[j]
      seen = set(mm.get_available_bag_names())
      fs.count, fs.plan = 0, dict(plan)
      try:
        mm.add_bags([to_add(b) for b in clients[j]])
        res[j] = True
        order.append(j)
      except Exception as e:  # pylint: disable=broad-except
        res[j] = False
      mans[j] = (mm, seen)
      return fs.count

    pre = {}
    for j in (1, 2):
      fs = MemFs(disk)
      pre[j] = (fs, D.DataBagManager.create_from_dir(d, fs=fs))
    plan_b = {ib: lambda: client(2, {})} if shape == 'nested' else {}
    plan_a = {ia: lambda: client(1, plan_b)}
    if shape == 'two':
      plan_a[ia + 1 + ib] = lambda: client(2, {})
    n = client(0, plan_a)
    return n, res, mans

  count = attempt_all(copy_disk(base), 10**9, 0)[0]
  for ia in range(count + 1):
    for ib in (0, 1, 3, 6) if shape != 'one' else (0,):
      disk = copy_disk(base)
      clear_cache()
      n, res, mans = attempt_all(disk, ia, ib)
      winners = [j for j in res if res[j]]
      info = dict(case=case, ia=ia, ib=ib, results=res)
      expect(winners, 'every writer lost', **info)
      # Chain of commits: each winner saw exactly the bags committed before it.
      chain, have, left = [], {b.name for b in bags}, list(winners)
      while left:
        nxt = [j for j in left if mans[j][1] == have]
        expect(len(nxt) == 1, 'two writers committed on the same revision (or'
               ' one on a revision that is gone)', left=left, **info)
        j = nxt[0]
        left.remove(j)
        chain.append(j)
        have = have | {b.name for b in clients[j]}
      final = bags + [b for j in chain for b in clients[j]]
      m1 = reopen(disk, d)
      expect(m1 is not None, 'unreadable after a race', **info)
      verify_full(m1, final, case, f'after race at {ia},{ib}')
      for j, (mm, seen) in mans.items():
        own = {b.name for b in clients[j]} if res[j] else set()
        expect_eq(set(mm.get_available_bag_names()), seen | own,
                  f'view of writer {j}', **info)
        vis = [b for b in final if b.name in seen | own]
        verify_full(mm, vis, case, f'writer {j} after race')
  return count > 0


@check.clause(st.tuples(st.one_of(st.integers(1, 14), st.integers(95, 104)),
                        st.integers(1, 5)), n=25, thorough=300)
def many_revisions(case):
  """The newest of many revisions is the one that is read back."""
  deterministic()
  n, every = case
  clear_cache()
  SERIAL[0] = 0
  disk = memfs.Disk()
  m = D.DataBagManager.create_new('/p/d0', fs=MemFs(disk))
  bags = []
  for i in range(n):
    b = Bag(f'r{i}', content(f'r{i}', i % 3),
            [bags[-1].name] if bags and i % 2 else [], None)
    m.add_bags([to_add(b)])
    bags.append(b)
    if i % every == 0:
      m = reopen(disk, '/p/d0')
      expect(m is not None, 'cannot be reopened', case=case, revision=i)
      verify_manager(m, bags, case, f'revision {i + 1}')
  verify_full(reopen(disk, '/p/d0'), bags, case, 'end')
  return n >= 10


# -- the default file system --------------------------------------------------

real_case = st.tuples(
    st.sampled_from(['plain', 'a[1]', 'q?x', 'st*r', 'sp ace', 'n/e/sted']),
    st.lists(specs, min_size=1, max_size=3), pick, st.booleans())


@check.clause(real_case, n=60, thorough=1500)
def default_fs(case):
  name, updates, idx, dep = case
  root = tempfile.mkdtemp(prefix='vp-bm-')
  try:
    clear_cache()
    SERIAL[0] = 0
    d = os.path.join(root, name)
    m = D.DataBagManager.create_new(d)
    bags = []
    for sp in updates:
      new = specs_to_bags(sp, bags, True)
      m.add_bags([to_add(b) for b in new])
      bags = bags + new
    ok, _ = attempt(lambda: D.DataBagManager.create_new(d))
    expect(not ok, 'create_new accepted a populated directory', case=case)
    clear_cache()
    m2 = D.DataBagManager.create_from_dir(d)
    verify_full(m2, bags, case, 'reopened')
    if bags:
      names = sorted({bags[i % len(bags)].name for i in idx})
      sub = [b for b in bags if b.name in closure(bags, names, dep)]
      for k, fn in (('x', m2.extract_bags), ('b', m2.create_branch)):
        out = os.path.join(root, 'out', name, k)
        fn(names, with_all_dependents=dep, output_dir=out)
        clear_cache()
        verify_full(D.DataBagManager.create_from_dir(out), sub, case, k)
    return bool(bags)
  finally:
    shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
  check.main()
