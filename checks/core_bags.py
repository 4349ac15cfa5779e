"""C30: bags that are composed of others."""
import kcompose
import kd
import vp

check = vp.Check(
    'C30',
    'Generated histories over public bags: writes to entities, objects, lists,'
    ' dicts and schemas; fork, freeze, layering (also repeated, nested and'
    ' missing layers), merge of layers, merge under all options, updates,'
    ' kd.bags.updated/enriched, kd.core.updated/enriched/with_merged_bag,'
    ' adoption. The content of each result is composed from the contents of'
    ' its parts, and no other bag may change. Non-trivial: at least two'
    ' compositions of bags that are not empty.',
    ['arolla is replaced by the stand-in in shims/kcore.',
     'The content of bags is read with ExtractContent (C18-C21).'])


@check.setup
def _setup():
  kd.build('bags', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


@check.clause(kcompose.cases(), n=2500, thorough=60000, native=True)
def compose(c):
  """Composed bags have the content of their parts."""
  w = kcompose.start(c)
  kcompose.run(w, c['ops'])
  for i in range(len(w.bags)):
    w.look(i, 'at the end')
  return w.done >= 2


if __name__ == '__main__':
  check.main()
