"""C13: JSON salvage."""
import vp
from vp import st, expect
import jsonlib as J
import jsonstream

check = vp.Check(
    'C13',
    'Generated byte streams: arbitrary text and bytes rich in JSON syntax,'
    ' mutilated documents, valid JSON in every layout, and value trees rendered'
    ' in random dialect syntax (JSON5 / Python / JavaScript); random options and'
    ' chunkings. Output is judged by an independent strict JSON parser and'
    ' compared with the generating tree. Non-trivial: at least 4 input bytes'
    ' and a non-empty output.',
    ['json_stream.cc is compiled from /repo against the distribution\'s absl'
     ' and ICU, with a stand-in for absl/log/check.h (DCHECK off).'],
)


@check.setup
def _setup():
  jsonstream.build()


options = st.fixed_dictionaries(dict(
    allow_nan=st.booleans(), ensure_ascii=st.booleans(),
    max_depth=st.sampled_from([100, 100, 100, 100, 3, 1, 0, 7])))


def salvage(data, o, cuts=()):
  chunks = J.split(data, cuts)
  flags = (1 if o['allow_nan'] else 0) | (2 if o['ensure_ascii'] else 0)
  out, _ = jsonstream.run('salvage', chunks, n=o['max_depth'], flags=flags)
  return out


NAN = ('NaN', 'Infinity', '-Infinity')


def valid_lines(out, o):
  """Parses the output; it must be newline separated JSON values."""
  try:
    text = out.decode('utf-8')
  except UnicodeDecodeError as e:
    raise vp.Violation(f'the output is not UTF-8: {e}\n  {out!r}') from None
  if o['ensure_ascii']:
    expect(text.isascii(), 'ensure_ascii, but non-ASCII output', out=out)
  if not text:
    return []
  vals = []
  for line in text.removesuffix('\n').split('\n'):
    try:
      v = J.parse(line, NAN if o['allow_nan'] else ())
    except J.Bad as e:
      raise vp.Violation(
          f'the output is not newline separated JSON: {e}\n  {out!r}') from None
    vals.append(v)
  return vals


# -- arbitrary input ---------------------------------------------------------

tokens = st.sampled_from([
    '"', "'", '`', '"""', "'''", '``', '```', '\\', '\\u', '\\u{', '\\U', '\\x',
    '\\ud83d', '\\ude00', '\\n', '\\/', '\\"', "\\'", '\\`', '\\\n', '\\\r\n',
    '\\é', '\\\x01', '\\8', '\\0', '\\12', '\\777',
    '{', '}', '[', ']', '(', ')', ',', ':', '#', '//', '/*', '*/', '**', '/',
    '*', '\n', '\r', ' ', '\t', '\u2028', '\ufeff', '\x00', '\x0b', '\x1f',
    '0', '00', '1', '9', '-', '+', '.', 'e', 'E', '_', "'", '0x', '0X1F', '0o7',
    '0b1', 'n', 'l', 'L', 'true', 'True', 'nul', 'null', 'None', 'no', 'NaN',
    '-nan', '-inf', 'Infinity', '-Infinity', '+Infinity', 'Inf', 'b"', "u'",
    'a', 'é', '\U0001f600', '\ud83d\ude00'.encode('utf-16', 'surrogatepass')
    .decode('utf-16'), '1.5e', '-.', '+.5', '"a":', '{"a"', 'tru',
])
raw = st.one_of(
    st.lists(tokens, max_size=12).map(lambda x: ''.join(x).encode()),
    st.lists(st.one_of(tokens.map(str.encode),
                       st.binary(min_size=1, max_size=3),
                       st.sampled_from([b'\x80', b'\xff', b'\xc3', b'\xed\xa0',
                                        b'\xf0\x9f', b'\xf8', b'\xc0\xaf'])),
             max_size=10).map(b''.join),
    st.text(J.chars, max_size=20).map(str.encode),
)


@st.composite
def mutilated(draw):
  data = bytearray(J.compact(draw(J.trees(6))).encode())
  for _ in range(draw(st.integers(1, 3))):
    k = draw(st.integers(0, 3))
    i = draw(st.integers(0, len(data)))
    if k == 0:
      del data[i:]
    elif k == 1:
      data[i:i] = draw(tokens).encode()
    elif k == 2:
      del data[i:i + draw(st.integers(1, 4))]
    else:
      j = draw(st.integers(0, len(data)))
      data[i:i] = data[min(i, j):max(i, j)]
  return bytes(data)


@check.clause(st.tuples(st.one_of(raw, mutilated()), options, J.cuts),
              n=6000, thorough=400000, native=True)
def always_valid(case):
  data, o, cuts = case
  out = salvage(data, o)
  valid_lines(out, o)
  expect(salvage(data, o, cuts) == out, 'the output depends on the chunking')
  expect(salvage(data, o, [i / max(1, len(data)) for i in range(len(data))])
         == out, 'the output depends on the chunking (single bytes)')
  # Salvaged output is a fixed point.
  if o['max_depth'] >= 100:
    expect(salvage(out, o).rstrip(b'\n') == out.rstrip(b'\n'),
           'salvaging the output again changes it', out=out,
           again=salvage(out, o))
  return len(data) >= 4 and len(out) > 0


@check.clause(st.tuples(st.lists(J.trees(8), max_size=4), J.ws_lists,
                        J.sep_lists, options, J.cuts),
              n=2500, thorough=150000, native=True)
def lossless_on_json(case):
  vals, ws, seps, o, cuts = case
  it = J.ws_iter(ws)
  si = J.ws_iter(seps)
  text = ''.join(J.spaced(v, it) + next(si) for v in vals)
  if max([J.depth(v) for v in vals], default=0) > o['max_depth']:
    valid_lines(salvage(text.encode(), o, cuts), o)
    return False
  got = valid_lines(salvage(text.encode(), o, cuts), o)
  expect([J.canon(x) for x in got] == [J.canon(x) for x in vals],
         'salvaging valid JSON changed it', text=text, got=got)
  return len(text) >= 4


# -- dialects ----------------------------------------------------------------
# A case is a tree of *typed leaves*; the renderer draws the spelling.

code_points = st.one_of(
    st.integers(0, 0xD7FF), st.integers(0xE000, 0x10FFFF),
    st.sampled_from([0, 0x1f, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000, 0xffff,
                     0x10000, 0x10ffff]))


def paired(cps):
  """Surrogates are joined, those alone are replaced."""
  out = []
  for cp in cps:
    if 0xDC00 <= cp < 0xE000 and out and 0xD800 <= out[-1] < 0xDC00:
      out[-1] = 0x10000 + ((out[-1] - 0xD800) << 10) + cp - 0xDC00
    else:
      out.append(cp)
  return tuple(0xFFFD if 0xD800 <= cp < 0xE000 else cp for cp in out)


@st.composite
def dialect_string(draw, triple=True):
  """(source text, code points)."""
  quote = draw(st.sampled_from(
      ['"', "'"] + (['"""', "'''"] if triple else [])))
  src = draw(st.sampled_from(['', '', '', 'u', 'b']))+ quote
  cps = []
  n = draw(st.integers(0, 6))
  for k in range(n):
    kind = draw(st.integers(0, 15))
    if kind <= 4:
      c = draw(J.chars)
      if c in '\\' or c == quote[0] or c in '\r\n':
        c = 'q'
      src += c
      cps.append(ord(c))
    elif kind == 5:
      e = draw(st.sampled_from('"\\/bfnrt\'av'))
      src += '\\' + e
      cps.append(ord({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t',
                      'a': '\a', 'v': '\v'}.get(e, e)))
    elif kind == 6:
      cp = draw(st.one_of(st.integers(0, 0xD7FF), st.integers(0xE000, 0xFFFF)))
      src += '\\u%04x' % cp
      cps.append(cp)
    elif kind == 7:
      cp = draw(J.SUPPLEMENTARY)
      src += '\\u%04x\\u%04x' % (0xD800 + ((cp - 0x10000) >> 10),
                                 0xDC00 + ((cp - 0x10000) & 0x3ff))
      cps.append(cp)
    elif kind == 8:
      cp = draw(code_points)
      src += '\\U%08x' % cp
      cps.append(cp)
    elif kind == 9:
      cp = draw(code_points)
      src += '\\u{%x}' % cp
      cps.append(cp)
    elif kind == 10:
      cp = draw(st.integers(0, 255))
      src += '\\x%02X' % cp
      cps.append(cp)
    elif kind == 11:
      cp = draw(st.integers(0, 0o777))
      src += '\\%03o' % cp
      cps.append(cp)
    elif kind == 12:
      # Line continuation.
      src += '\\' + draw(st.sampled_from(['\n', '\r\n', '\u2028', '\u2029']))
    elif kind == 13:
      # Not an escape: the backslash is kept.
      c = draw(st.sampled_from('wqyz%é'))
      src += '\\' + c
      cps += [92, ord(c)]
    elif kind == 14:
      # A half of a surrogate pair, alone unless the other half follows.
      cp = draw(st.sampled_from([0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00,
                                 0xDFFF]))
      src += '\\u%04x' % cp
      cps.append(cp)
    elif len(quote) == 3:
      c = draw(st.sampled_from(['\n', 'q', quote[0] + 'z', quote[:2] + 'z']))
      src += c
      cps += [ord(x) for x in c]
  return src + quote, paired(cps)


@st.composite
def dialect_number(draw):
  """(source text, canonical number or special)."""
  k = draw(st.integers(0, 6))
  sign = draw(st.sampled_from(['', '-', '+']))
  neg = '-' if sign == '-' else ''
  if k == 0:
    v = draw(st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 300)))
    fmt, base = draw(st.sampled_from(
        [('0x%x', 16), ('0X%X', 16), ('0o%o', 8), ('0b', 2)]))
    s = '0b' + bin(v)[2:] if base == 2 else fmt % v
    s += draw(st.sampled_from(['', '', 'n', 'L']))
    return sign + s, J.number(neg + str(v))
  a = draw(st.one_of(st.just('0'), st.integers(1, 10**25).map(str)))
  if k == 1:
    # Separators and suffixes.
    i = draw(st.integers(1, len(a)))
    s = a[:i] + ('_' + a[i:] if i < len(a) else '')
    return sign + s + draw(st.sampled_from(['', 'n', 'l', 'L'])), J.number(
        neg + a)
  if k == 2:
    frac = draw(st.text('0123456789', min_size=1, max_size=8))
    return f'{sign}.{frac}', J.number(f'{neg}0.{frac}')
  if k == 3:
    exp = draw(st.sampled_from(['', 'e5', 'E-7', 'e+12']))
    return f'{sign}{a}.{exp}', J.number(f'{neg}{a}.0{exp}')
  if k == 4:
    frac = draw(st.text('0123456789', min_size=1, max_size=8))
    exp = draw(st.sampled_from(['', 'e5', 'E-7', 'e+12', 'e0']))
    return f'{sign}{a}.{frac}{exp}', J.number(f'{neg}{a}.{frac}{exp}')
  if k == 5:
    exp = draw(st.sampled_from(['e5', 'E-7', 'e+12', 'e00']))
    return f'{sign}{a}{exp}', J.number(f'{neg}{a}{exp}')
  return f'{sign}{a}', J.number(f'{neg}{a}')


COMMENTS = ['# x\n', '// y, "z" [\n', '/* a * b \n } " */', '/***/', '/** doc **/',
            '//\r', '#\u2028', '/* **/', '/**/', '//*/\n']
filler = st.lists(st.one_of(
    st.sampled_from([' ', '\n', '\t', '\u00a0', '\ufeff', '\v', '\f', '\u2003']),
    st.sampled_from(COMMENTS)), max_size=2).map(''.join)
ident = st.text('abcxyzABC_$é', min_size=1, max_size=5) | st.sampled_from(
        ['null', 'true', 'False', 'NaN', 'Infinity', 'None', 'b', 'u', 'nul'])


def dialect_value(depth, top=False):
  """Strategy of (source text, canonical value); see `canon`."""
  leaf = st.one_of(
      dialect_string().map(lambda x: (x[0], ('str', x[1]))),
      dialect_number().map(lambda x: (x[0], ('num', x[1]))),
      st.sampled_from([('true', ('lit', 'true')), ('True', ('lit', 'true')),
                       ('false', ('lit', 'false')), ('False', ('lit', 'false')),
                       ('null', ('lit', 'null')), ('None', ('lit', 'null'))]),
      st.sampled_from([('NaN', ('nan', 'NaN')), ('Infinity', ('nan', 'Infinity')),
                       ('-Infinity', ('nan', '-Infinity')),
                       ('+Infinity', ('nan', '+Infinity')),
                       ('-NaN', ('nan', '-NaN'))]),
  )
  if depth == 0:
    return leaf
  sub = st.deferred(lambda: dialect_value(depth - 1))
  return st.one_of(leaf, arr(sub), obj(sub))


def after(s):
  """A comment right after an unquoted name: see KNOWN_FINDINGS.txt."""
  return ' ' if s[-1] in 'Ny' else ''


@st.composite
def arr(draw, sub):
  o, c = draw(st.sampled_from(['[]', '[]', '()']))
  items = draw(st.lists(sub, max_size=3))
  parts = [draw(filler) + s + after(s) + draw(filler) for s, _ in items]
  src = o + draw(filler) + ','.join(parts)
  if items and (draw(st.booleans()) or (o == '(' and len(items) == 1)):
    src += ',' + draw(filler)
  return src + c, ('arr', tuple(v for _, v in items))


@st.composite
def obj(draw, sub):
  parts = []
  vals = []
  for s, v in draw(st.lists(sub, max_size=3)):
    if draw(st.booleans()):
      k, kc = draw(dialect_string(triple=False))
    else:
      k = draw(ident)
      kc = tuple(map(ord, k))
      # b / u before a quote would be a prefix; identifiers end at ':'.
    parts.append(draw(filler) + k + draw(ws_only) + ':' + draw(filler) + s
                 + after(s) + draw(filler))
    vals.append((kc, v))
  src = '{' + draw(filler) + ','.join(parts)
  if parts and draw(st.booleans()):
    src += ',' + draw(filler)
  return src + '}', ('obj', tuple(vals))


ws_only = st.sampled_from(['', '', ' ', '\n'])


def expected(v, o):
  k, x = v
  if k == 'nan':
    if o['allow_nan']:
      return ('lit', {'+Infinity': 'Infinity', '-NaN': 'NaN'}.get(x, x))
    return ('str', tuple(map(ord, x)))
  if k == 'arr':
    return ('arr', tuple(expected(y, o) for y in x))
  if k == 'obj':
    return ('obj', tuple((a, expected(b, o)) for a, b in x))
  return v


@check.clause(st.tuples(st.lists(st.tuples(filler, dialect_value(3)),
                                 min_size=1, max_size=3),
                        options, J.cuts),
              n=4000, thorough=250000, native=True)
def dialects(case):
  vals, o, cuts = case
  o = dict(o, max_depth=100)
  text = ''.join(f + s + '\n' for f, (s, _) in vals)
  got = valid_lines(salvage(text.encode(), o, cuts), o)
  want = [expected(v, o) for _, (_, v) in vals]
  expect([J.canon(x) for x in got] == want, 'dialect syntax changed the value',
         text=text, got=got, want=want)
  return len(text) >= 4


if __name__ == '__main__':
  check.main()
