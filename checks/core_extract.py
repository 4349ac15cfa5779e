"""C27: extracting what belongs to a slice."""
import kcast
import kd
import kgraph
import kpub
import vp
from vp import expect, expect_eq, st

check = vp.Check(
    'C27',
    'Graphs of up to 8 groups of entities (explicit and uu schemas), objects,'
    ' lists and dicts with random links (cycles, shared items, mixed types,'
    ' removed values) over up to three layered bags; the content of the'
    ' extracted bag is compared with the content reachable from the slice.'
    ' Non-trivial: at least ten facts are reachable and some are not.',
    ['arolla is replaced by the stand-in in shims/kcore.',
     'The content of bags is read with ExtractContent (C18-C21).'])


@check.setup
def _setup():
  kd.build('extract', ['kcore_public.cc', 'kcore_ops.cc'],
           groups=('internal', 'public', 'operators'))


def same_content(got, want, what):
  g, w = got.flat(), want.flat()
  expect(g == w, f'{what}: too much: {sorted(g - w)[:6]};'
                 f' lost: {sorted(w - g)[:6]}')


def start(case):
  d = kd.driver()
  tape = kgraph.Tape(case)
  g = kgraph.Graph(d, tape)
  bag = g.layered()
  return d, tape, g, bag, g.root(bag)


@check.clause(kgraph.tapes, n=1500, thorough=30000, budget_s=40)
def extract(case):
  d, _, g, bag, x = start(case)
  before = kgraph.content(d, bag)
  s = kpub.mk(d, 'sSCHEMA', (), [x.schema], bag).reg
  e = d.call('op', 'kd.core._extract', x.reg, s)
  kpub.check(d, e, x.schema, x.shape, x.items, 'the extracted slice')
  ebag = d.call('s.bag', e)
  want = kgraph.reach(before, x.schema, x.items)
  same_content(kgraph.content(d, ebag), want, f'extract of {x}')
  expect_eq(d.call('b.mutable', ebag), '0', 'extracted bag is mutable')
  same_content(kgraph.content(d, bag), before, 'the source')
  # Again, and with all layers in one bag.
  merged = d.call('b.mergefb', bag)
  again = d.call('s.extract', d.call('s.withbag', x.reg, merged))
  same_content(kgraph.content(d, d.call('s.bag', again)), want,
               f'extract of {x} from the merged bag')
  twice = d.call('s.extract', e)
  same_content(kgraph.content(d, d.call('s.bag', twice)), want,
               f'extract of the extracted {x}')
  n, total = len(want.flat()), len(before.flat())
  vp.label('objects' if x.schema == 'sOBJECT' else 'typed')
  return n >= 10 and n < total


@check.clause(kgraph.tapes, n=1000, thorough=30000, budget_s=40)
def narrower(case):
  """Entities through a schema of another bag with some of the attributes."""
  d, tape, g, bag, x = start(case)
  t = g.tape.pick(g.count)
  ids = g.items(('T', t)) or ['_']
  items = [g.tape.of(ids) for _ in range(1 + tape.pick(6))]
  if tape.pick(3) == 2:
    items = ids
  new = d.call('b.new')
  s = d.call('f.schema', new, 0)
  for k, v in sorted(g.fields[t].items()):
    if tape.pick(3):
      d.call('s.set', s, k, kpub.mk(d, 'sSCHEMA', (), [g.token(v)]).reg, 0)
  token = kpub.show(d, s).items[0]
  both = d.call('b.fallbacks', d.call('b.freeze', new), bag)
  s = d.call('s.withbag', s, both)
  x = kpub.mk(d, g.token(('T', t)), ((len(items),),), items, bag)
  before = kgraph.content(d, bag)
  e = d.call('op', 'kd.core._extract', x.reg, s)
  kpub.check(d, e, token, x.shape, x.items, 'the extracted slice')
  total = kgraph.content(d, both)
  want = kgraph.reach(total, token, items)
  if want.conflict:
    vp.label('two schemas for one item')  # The result is not specified.
    return False
  same_content(kgraph.content(d, d.call('s.bag', e)), want,
               f'extract of {x} as {token}')
  same_content(kgraph.content(d, bag), before, 'the source')
  return 4 <= len(want.flat()) < len(before.flat())


if __name__ == '__main__':
  check.main()
