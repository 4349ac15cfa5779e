"""C29: merging bags and updates in the C++ core."""
import vp
import kd
import khist

check = vp.Check(
    'C29',
    'Generated histories over several bags and their forks: writes to'
    ' attributes, lists, dicts and schemas, merges of one bag into another'
    ' under all policies, and updates computed from two bags; compared with a'
    ' model that merges triple by triple. Non-trivial: a merge of a bag that'
    ' is not empty, a reported conflict or a computed update.',
    ['arolla is replaced by the stand-in in shims/kcore.'])

OPS = khist.ATTR_OPS + khist.LIST_OPS + khist.DICT_OPS
SIZES = (1, 2, 3, 4, 5, 9, 17, 65)


@check.setup
def _setup():
  kd.build('merge', ['kcore_impl.cc'], ('internal',))


def run(c, parts, n):
  w = khist.World(c['allocs'], n)
  w.run(c['ops'])
  w.sweep(parts)
  for i in range(len(w.regs)):
    w.check_dump(i)
  if w.conflicts:
    vp.label('conflict')
  if w.updates:
    vp.label('update')
  if w.merges:
    vp.label('merge')
  return bool(w.merges or w.conflicts or w.updates)


@check.clause(khist.histories(OPS + khist.FORKS + khist.MERGES, 'eeeld',
                              min_ops=6, max_ops=24, max_allocs=4,
                              sizes=SIZES),
              n=1600, thorough=60000, native=True)
def data(c):
  """Merging keeps, replaces or reports, and changes nothing else."""
  return run(c, 'ald', 3)


CLEAR = khist.tup('l.remove', khist.bag, khist.idsn,
                  vp.st.just((0, None)))
CLEAR1 = khist.tup('l.extend1', khist.bag, khist.ids1, vp.st.just(0),
                   khist.pat)


@check.clause(khist.histories(khist.LIST_OPS + [CLEAR, CLEAR, CLEAR1]
                              + khist.FORKS + khist.MERGES, 'l',
                              min_ops=4, max_ops=14, max_allocs=2,
                              sizes=(1, 2, 3, 9)),
              n=1500, thorough=40000, native=True)
def lists(c):
  """Few lists, often emptied or never written, on both sides."""
  return run(c, 'l', 3)


@check.clause(khist.histories(khist.DICT_OPS + khist.FORKS + khist.MERGES, 'd',
                              min_ops=4, max_ops=14, max_allocs=2,
                              sizes=(1, 2, 3, 9)),
              n=1200, thorough=40000, native=True)
def dicts(c):
  """Few dicts, often cleared, on both sides."""
  return run(c, 'd', 3)


@check.clause(khist.histories(khist.SCHEMA_OPS + khist.MERGES, 'xxe',
                              min_ops=6, max_ops=20, max_allocs=4,
                              sizes=(1,)),
              n=1500, thorough=40000, native=True)
def schemas(c):
  """Schemas are merged under their own policy."""
  return run(c, 's', 3)


if __name__ == '__main__':
  check.main()
