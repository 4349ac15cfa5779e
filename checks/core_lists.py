"""C19: lists of the C++ core."""
import vp
import kd
import khist

check = vp.Check(
    'C19',
    'Generated histories of list operations (append, extend, set,'
    ' replace, remove, pop; single and batch, negative and out of range'
    ' indices, repeated lists) compared with Python lists after the steps and'
    ' as a whole at the end.'
    ' Non-trivial: at least two writes, and a fork in the second clause.',
    ['arolla is replaced by the stand-in in shims/kcore.'])

OPS = khist.LIST_OPS + khist.LIST_READS
KINDS = 'llle'
SIZES = (1, 2, 3, 4, 5, 9, 17, 65)


@check.setup
def _setup():
  kd.build('lists', ['kcore_impl.cc'], ('internal',))


def run(c):
  w = khist.World(c['allocs'])
  w.run(c['ops'])
  w.sweep('l')
  for i in range(len(w.regs)):
    w.check_dump(i)
  return w


@check.clause(khist.histories(OPS, KINDS, max_ops=16, sizes=SIZES), n=2000,
              thorough=60000, native=True)
def history(c):
  """Lists behave like Python lists."""
  return run(c).writes >= 2


@check.clause(khist.histories(OPS + khist.FORKS, KINDS, min_ops=6,
                              max_ops=22, sizes=SIZES),
              n=2000, thorough=60000, native=True)
def forked(c):
  """Forks see what was written before them and keep to themselves."""
  w = run(c)
  return w.writes >= 2 and len(w.regs) > 1


if __name__ == '__main__':
  check.main()
