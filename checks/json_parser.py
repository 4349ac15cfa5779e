"""C16: the streaming JSON parser behind JSON filtering."""
import vp
from vp import st, expect, expect_eq
import jsonlib as J
import jsonparser as P

check = vp.Check(
    'C16',
    'Generated JSON documents (and their tolerated misspellings, per'
    ' compatibility option) in random layouts and byte chunkings, with'
    ' ConsumeChunk called at random moments and in callbacks; expected event'
    ' history computed while rendering. Malformed documents made by one'
    ' structural edit. Non-trivial: at least one container with two values.',
    ['json_stream_parser.cc is compiled from /repo against the distribution\'s'
     ' absl with a stand-in for arolla\'s status macros.'],
)


@check.setup
def _setup():
  P.build()


# Keys whose JSONPath spelling is beyond doubt.
keys = st.one_of(
    st.sampled_from(['a', 'b', 'c', '', 'é', 'a b', 'x,y', '*', '[0]', '{']),
    st.text(st.characters(exclude_categories=('Cs', 'Cc'),
                          exclude_characters='"\\\''), max_size=5))


def trees(max_leaves=10):
  leaf = st.one_of(J.leaves, st.sampled_from(
      [('num', '1'), ('str', '"a,b"'), ('str', '"]"'), ('str', '"{"'),
       ('str', '","'), ('str', '"\\\\"'), ('str', '"\\""')]))
  return st.recursive(
      leaf,
      lambda c: st.one_of(
          st.lists(c, max_size=4).map(lambda x: ('arr', tuple(x))),
          st.lists(st.tuples(keys, c), max_size=4).map(
              lambda x: ('obj', tuple(x)))),
      max_leaves=max_leaves)


class Renderer:
  """Renders documents; tracks the parser's expected events and output."""

  def __init__(self, ws, remove, flags=0, choices=()):
    self.ws = J.ws_iter(ws)
    self.remove = remove
    self.flags = flags
    self.choices = list(choices)
    self.src = ''
    self.out = ''
    self.events = []  # ('begin', path, type, out offset) / ('end', path, a, b)
    self.exotic = False
    self.marks = []  # positions of structural characters in src

  def choose(self, n):
    """A generated decision (0 by default)."""
    return self.choices.pop() % n if self.choices else 0

  def put(self, s, out=None):
    self.src += s
    self.out += s if out is None else out

  def space(self, s=None):
    s = next(self.ws) if s is None else s
    self.src += s
    if not self.remove:
      self.out += s

  def comma(self, trailing=False):
    self.marks.append((len(self.src), ','))
    self.src += ','
    if not self.remove or not trailing:
      self.out += ','

  def mark(self, c):
    self.marks.append((len(self.src), c))
    self.put(c)

  def string(self, raw):
    """A string literal; misspelt when the options allow."""
    body = raw[1:-1]
    if self.flags & P.LINEBREAK and '\\n' in body and self.choose(2):
      # Only a real \n escape, not the end of an escaped backslash.
      i = 0
      parts = []
      while i < len(body):
        if body[i] == '\\':
          parts.append('\n' if body[i + 1] == 'n' else body[i:i + 2])
          i += 2
        else:
          parts.append(body[i])
          i += 1
      body = ''.join(parts)
      self.exotic = True
    if self.flags & P.SINGLE and self.choose(2):
      body = body.replace('\\"', '"') if '\\\\' not in body else body
      if "'" in body:
        body = body.replace("'", "\\'")
      self.exotic = True
      self.put(f"'{body}'", raw)
    else:
      self.put(f'"{body}"', raw)

  def key(self, k):
    raw = '"' + k + '"'
    ident = k and all(c.isalnum() or c in '_$-' for c in k)
    if ident and self.flags & P.UNQUOTED and self.choose(2):
      self.exotic = True
      self.put(k, raw)
    elif self.flags & P.SINGLE and self.choose(2):
      self.exotic = True
      self.put(f"'{k}'", raw)
    else:
      self.put(raw)

  def value(self, node, path):
    k, v = node
    kind = k if k in ('arr', 'obj', 'str') else 'token'
    start = len(self.out)
    if kind == 'str' and self.flags & P.TOKENS and bare(v) and self.choose(2):
      self.exotic = True
      self.events.append(('begin', path, 'str', start))
      self.put(v[1:-1], v)
    else:
      self.events.append(('begin', path, kind, start))
      if k == 'str':
        self.string(v)
      elif k in ('lit', 'num'):
        self.put(v)
      else:
        self.container(k, v, path)
    self.events.append(('end', path, start, len(self.out)))

  def container(self, k, v, path):
    self.mark('[' if k == 'arr' else '{')
    self.space()
    for i, x in enumerate(v):
      if i:
        self.comma()
      self.space()
      if k == 'arr':
        self.value(x, path + '[*]')
      else:
        self.key(x[0])
        self.space()
        self.mark(':')
        self.space()
        self.value(x[1], path + '.' + x[0])
      self.space()
    if v and self.choose(4) == 3:
      self.comma(trailing=True)
      self.space()
      self.exotic = True
    self.mark(']' if k == 'arr' else '}')

  def document(self, node, sep):
    self.value(node, '$')
    self.space(sep)


def bare(raw):
  """A string whose text is an unambiguous invalid token."""
  b = raw[1:-1]
  return (b != '' and b[0] in 'abcdefghjklmopqrstuvwxyzT' and b.isascii()
          and b.isalnum() and b not in ('true', 'false', 'null'))


docs = st.tuples(st.lists(trees(), max_size=3), J.ws_lists, J.sep_lists)


def build(case, remove, flags=0, choices=()):
  vals, ws, seps = case
  r = Renderer(ws, remove, flags, choices)
  si = J.ws_iter(seps)
  for v in vals:
    r.document(v, next(si))
  return r


def heavy(vals):
  return any(v[0] in ('arr', 'obj') and len(v[1]) > 1 for v in vals)


@check.clause(st.tuples(docs, J.cuts, st.integers(0, 31)), n=2500,
              thorough=150000, native=True)
def events(case):
  """The exact event history of a valid document, for every chunking."""
  d, cuts, flags = case
  r = build(d, bool(flags & P.REMOVE))
  data = r.src.encode()
  want = [e[:3] if e[0] == 'begin' else ('end', e[1], r.out[e[2]:e[3]])
          for e in r.events]
  for chunks in (J.split(data, cuts), [data[i:i + 1] for i in range(len(data))]):
    p = P.Parser(flags)
    for c in chunks:
      expect(p.add(c), 'valid JSON rejected', text=r.src, error=p.error())
    expect(p.finalize(), 'valid JSON rejected', text=r.src, error=p.error())
    expect_eq(p.events, want, r.src)
  return heavy(d[0])


@check.clause(st.tuples(docs, J.cuts, st.integers(0, 31),
                        st.lists(st.booleans(), max_size=12)),
              n=2500, thorough=150000, native=True)
def consume(case):
  """ConsumeChunk pieces add up, and split exactly at value boundaries."""
  d, cuts, flags, when = case
  r = build(d, bool(flags & P.REMOVE))
  got = b''
  k = [0]
  it = iter(r.events)

  def now():
    k[0] += 1
    return when[k[0] % len(when)] if when else False

  def on_event(p, e):
    nonlocal got
    m = next(it, None)
    if m is None:
      return
    if now():
      got += p.consume()
      upto = m[3]
      expect_eq(got.decode(), r.out[:upto],
                f'consumed text at {e} of {r.src!r}')

  p = P.Parser(flags, on_event)
  for c in J.split(r.src.encode(), cuts):
    expect(p.add(c), 'valid JSON rejected', text=r.src, error=p.error())
    if now():
      got += p.consume()
  expect(p.finalize(), 'valid JSON rejected', text=r.src, error=p.error())
  got += p.consume()
  expect_eq(got.decode(), r.out, r.src)
  expect_eq(p.consume(), b'')
  return heavy(d[0]) and any(when)


alpha_leaf = st.one_of(
    st.sampled_from([('str', '"yes"'), ('str', '"abc"'), ('str', '"a\\nb"'),
                     ('str', '"\\\\n\\n"'), ('str', '"True"'),
                     ('str', '"say \\"hi\\""'), ('str', '"it\'s"'),
                     ('str', '"x\'\\n\'y"'), ('str', '""'), ('num', '-1.5e3'),
                     ('lit', 'null'), ('arr', ()), ('obj', ())]),
    J.leaves)
alpha_trees = st.recursive(
    alpha_leaf,
    lambda c: st.one_of(
        st.lists(c, max_size=4).map(lambda x: ('arr', tuple(x))),
        st.lists(st.tuples(st.sampled_from(['a', 'ab', 'key', 'x1', 'é', '']),
                           c), max_size=4).map(lambda x: ('obj', tuple(x)))),
    max_leaves=8)


def tree_canon(node):
  k, v = node
  if k == 'obj':
    return ('obj', tuple((tuple(map(ord, a)), tree_canon(b)) for a, b in v))
  if k == 'arr':
    return ('arr', tuple(tree_canon(x) for x in v))
  return J.canon(node)


def walk(node, path):
  k, v = node
  if k == 'arr':
    for x in v:
      yield from walk(x, path + '[*]')
  elif k == 'obj':
    for a, x in v:
      yield from walk(x, path + '.' + a)
  yield path, node


@check.clause(st.tuples(
    st.tuples(st.lists(alpha_trees, min_size=1, max_size=2), J.ws_lists,
              J.sep_lists),
    J.cuts, st.integers(0, 15), st.lists(st.integers(0, 11), max_size=30),
    st.booleans()), n=3000, thorough=150000, native=True)
def compatibility(case):
  """Misspelt documents are reported as the JSON they stand for."""
  d, cuts, opts, choices, consume_often = case
  flags = P.REMOVE | opts << 1
  r = build(d, True, flags, choices)
  p = P.Parser(flags)
  got = b''
  for c in J.split(r.src.encode(), cuts):
    expect(p.add(c), 'rejected', text=r.src, flags=flags, error=p.error())
    if consume_often:
      got += p.consume()
  expect(p.finalize(), 'rejected', text=r.src, flags=flags, error=p.error())
  got += p.consume()
  ends = [e for e in p.events if e[0] == 'end']
  want = [x for v in d[0] for x in walk(v, '$')]
  expect_eq([e[1] for e in ends], [w[0] for w in want], r.src)
  for e, (_, node) in zip(ends, want):
    try:
      c = J.canon(J.parse(e[2]))
    except J.Bad as ex:
      raise vp.Violation(f'reported value is not JSON ({ex}):\n  {e[2]!r}\n'
                         f'  of {r.src!r}, flags {flags}') from None
    expect_eq(c, tree_canon(node), r.src)
  expect_eq([e[1:] for e in p.events if e[0] == 'begin'],
            [e[1:3] for e in r.events if e[0] == 'begin'], r.src)
  expect_eq(got.decode(), ''.join(e[2] for e in ends if e[1] == '$'), r.src)
  return r.exotic


# A document made malformed by one edit.
edits = st.sampled_from(['flip', 'truncate', 'comma', 'nocomma', 'nocolon',
                         'quote', 'unquoted', 'newline', 'extra'])


@check.clause(st.tuples(
    st.tuples(st.lists(st.lists(trees(6), min_size=1, max_size=3).map(
        lambda x: ('arr', tuple(x))) | st.lists(
            st.tuples(keys, trees(6)), min_size=1, max_size=3).map(
                lambda x: ('obj', tuple(x))), min_size=1, max_size=1),
              J.ws_lists, st.just(['\n'])),
    edits, st.floats(0, 1, exclude_max=True), J.cuts, st.booleans()),
              n=2500, thorough=120000, native=True)
def malformed(case):
  d, edit, at, cuts, remove = case
  r = build(d, remove)
  src = r.src
  end = r.marks[-1][0]

  def pick(chars):
    m = [x for x in r.marks if x[1] in chars]
    return m[int(at * len(m))] if m else None

  if edit == 'flip':
    i, c = pick(']}')
    bad = src[:i] + (']' if c == '}' else '}') + src[i + 1:]
  elif edit == 'truncate':
    bad = src[:1 + int(at * end)]
  elif edit == 'extra':
    bad = src + ']}'[int(at * 2)]
  else:
    m = pick({'comma': ',', 'nocomma': ',', 'nocolon': ':'}.get(edit, '{['))
    if m is None:
      return False
    i, c = m
    if edit == 'comma':
      bad = src[:i] + ',' + src[i:]
    elif edit == 'nocomma':
      # Two values side by side.
      j = i + 1
      while src[j] in ' \t\r\n':
        j += 1
      bad = src[:i] + ' ' + src[i + 1:]
      prev = src[:i].rstrip()[-1:]
      if prev not in '"]}' and src[j] not in '"[{':
        label = 'tokens'
        vp.label(label)
    elif edit == 'nocolon':
      bad = src[:i] + ' ' + src[i + 1:]
    else:
      bits = {'quote': "'x'", 'unquoted': 'x:1', 'newline': '"x\n"'}[edit]
      if edit == 'unquoted' and c == '[' or edit != 'unquoted' and c == '{':
        return False
      bad = src[:i + 1] + bits + ',' + src[i + 1:]
  p = P.Parser(P.REMOVE if remove else 0)
  ok = all(p.add(c) for c in J.split(bad.encode(), cuts)) and p.finalize()
  expect(not ok, f'malformed JSON accepted ({edit})', text=bad)
  vp.label(edit)
  return True


if __name__ == '__main__':
  check.main()
