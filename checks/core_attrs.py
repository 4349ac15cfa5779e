"""C18: attribute storage of the C++ core."""
import vp
import kd
import khist

check = vp.Check(
    'C18',
    'Generated histories of attribute writes (batch, single, whole'
    ' allocation, unit, object creation, dense and sparse sizes, mixed types,'
    ' repeated and missing ids, forks) over generated allocations, compared'
    ' with a dictionary model after the steps and as a whole at the end.'
    ' Non-trivial: at least two writes, and a fork in the second clause.',
    ['arolla is replaced by the stand-in in shims/kcore.'])

OPS = khist.ATTR_OPS + khist.ATTR_READS
KINDS = 'eeld'
SIZES = khist.kgen.SIZES


@check.setup
def _setup():
  kd.build('attrs', ['kcore_impl.cc'], ('internal',))


def run(c):
  w = khist.World(c['allocs'])
  w.run(c['ops'])
  w.sweep('a')
  for i in range(len(w.regs)):
    w.check_dump(i)
  return w


@check.clause(khist.histories(OPS, KINDS, max_ops=16, sizes=SIZES), n=900,
              thorough=60000, native=True)
def last_write(c):
  """Reads give the last write."""
  return run(c).writes >= 2


@check.clause(khist.histories(OPS + khist.FORKS, KINDS, min_ops=6,
                              max_ops=22, sizes=SIZES),
              n=900, thorough=60000, native=True)
def forked(c):
  """Forks see what was written before them and keep to themselves."""
  w = run(c)
  return w.writes >= 2 and len(w.regs) > 1


ONE = vp.st.just('a')
MIXED = vp.st.lists(vp.st.one_of(khist.ids1, khist.ids1, khist.val),
                    min_size=2, max_size=6)
WHOLE = vp.st.tuples(vp.st.tuples(vp.st.integers(0, 6), vp.st.just(0),
                                  vp.st.just(300), vp.st.just(1))).map(list)
SINGLE = [khist.tup('a.set', khist.bag, WHOLE, ONE, MIXED, khist.style),
          *[khist.tup('a.set1', khist.bag, khist.ids1, ONE,
                      vp.st.one_of(khist.ids1, khist.val)) for _ in range(3)],
          khist.tup('a.get', khist.bag, khist.fbs, WHOLE, ONE, khist.style),
          khist.tup('a.get', khist.bag, khist.fbs, khist.idsn, ONE,
                    khist.style)]


@check.clause(khist.histories(SINGLE + khist.FORKS[:1], KINDS, min_ops=4,
                              max_ops=14, max_allocs=6,
                              sizes=(3, 4, 5, 9, 65)),
              n=900, thorough=60000, native=True)
def single_writes(c):
  """Writes to single items of attributes that hold items of all types."""
  return run(c).writes >= 2


if __name__ == '__main__':
  check.main()
