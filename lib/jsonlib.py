"""Independent JSON tools: strict parser, token-preserving trees, generators.

A node is one of
  ('lit', 'true'|'false'|'null'|'NaN'|...), ('num', text), ('str', raw literal),
  ('arr', (node, ...)), ('obj', ((raw key literal, node), ...)).
Literals keep their source text, so that "the same value" can be decided exactly.
"""

import re

import vp
from vp import st


class Bad(Exception):
  pass


_NUM = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?')
_WS = ' \t\n\r'
_ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n',
        'r': '\r', 't': '\t'}


def parse(text, extra_literals=()):
  """Parses exactly one JSON value (RFC 8259); raises Bad."""
  node, i = _value(text, _skip(text, 0), extra_literals)
  if _skip(text, i) != len(text):
    raise Bad(f'trailing data at {i}')
  return node


def parse_stream(text, extra_literals=()):
  """Whitespace separated values."""
  out = []
  i = _skip(text, 0)
  while i < len(text):
    node, i = _value(text, i, extra_literals)
    out.append(node)
    if i < len(text) and text[i] not in _WS:
      raise Bad(f'no whitespace between values at {i}')
    i = _skip(text, i)
  return out


def _skip(t, i):
  while i < len(t) and t[i] in _WS:
    i += 1
  return i


def _value(t, i, extra):
  """Iterative, so that deep nesting is no problem."""
  stack = []  # [kind, items, pending key]
  while True:
    # Expect a value (or the end of an empty container).
    if i >= len(t):
      raise Bad('unexpected end')
    c = t[i]
    if c in '[{':
      stack.append([c, [], None])
      i = _skip(t, i + 1)
      if i < len(t) and t[i] == (']' if c == '[' else '}'):
        node = (('arr' if c == '[' else 'obj'), ())
        stack.pop()
        i += 1
      else:
        if c == '{':
          i = _key(t, i, stack)
        continue
    elif c == '"':
      j = _string_end(t, i)
      node, i = ('str', t[i:j]), j
    else:
      for lit in ('true', 'false', 'null') + tuple(extra):
        if t.startswith(lit, i):
          node, i = ('lit', lit), i + len(lit)
          break
      else:
        m = _NUM.match(t, i)
        if not m:
          raise Bad(f'bad value at {i}: {t[i:i + 20]!r}')
        node, i = ('num', m.group()), m.end()
    # A value is complete.
    while True:
      if not stack:
        return node, i
      top = stack[-1]
      top[1].append(node if top[0] == '[' else (top[2], node))
      i = _skip(t, i)
      if i >= len(t):
        raise Bad('unexpected end')
      if t[i] == ',':
        i = _skip(t, i + 1)
        if top[0] == '{':
          i = _key(t, i, stack)
        break
      if t[i] == (']' if top[0] == '[' else '}'):
        node = (('arr' if top[0] == '[' else 'obj'), tuple(top[1]))
        stack.pop()
        i += 1
        continue
      raise Bad(f'expected , or end of container at {i}: {t[i:i + 20]!r}')


def _key(t, i, stack):
  if i >= len(t) or t[i] != '"':
    raise Bad(f'expected a key at {i}')
  j = _string_end(t, i)
  stack[-1][2] = t[i:j]
  j = _skip(t, j)
  if j >= len(t) or t[j] != ':':
    raise Bad(f'expected : at {j}')
  return _skip(t, j + 1)


def _string_end(t, i):
  i += 1
  while True:
    if i >= len(t):
      raise Bad('unterminated string')
    c = t[i]
    if c == '"':
      return i + 1
    if c < ' ':
      raise Bad(f'control character {c!r} in string at {i}')
    if c == '\\':
      if i + 1 >= len(t):
        raise Bad('unterminated escape')
      e = t[i + 1]
      if e == 'u':
        if not re.fullmatch('[0-9a-fA-F]{4}', t[i + 2:i + 6]):
          raise Bad(f'bad \\u escape at {i}')
        i += 6
      elif e in _ESC:
        i += 2
      else:
        raise Bad(f'bad escape \\{e} at {i}')
    else:
      i += 1


def decode(raw):
  """Code points of a string literal; surrogate pairs are combined."""
  out = []
  i = 1
  while i < len(raw) - 1:
    c = raw[i]
    if c == '\\':
      if raw[i + 1] == 'u':
        out.append(int(raw[i + 2:i + 6], 16))
        i += 6
      else:
        out.append(ord(_ESC[raw[i + 1]]))
        i += 2
      continue
    out.append(ord(c))
    i += 1
  res = []
  k = 0
  while k < len(out):
    if (0xD800 <= out[k] < 0xDC00 and k + 1 < len(out)
        and 0xDC00 <= out[k + 1] < 0xE000):
      res.append(0x10000 + ((out[k] - 0xD800) << 10) + (out[k + 1] - 0xDC00))
      k += 2
    else:
      res.append(out[k])
      k += 1
  return tuple(res)


def number(text):
  """Exact numeric value as (negative, digits, exponent)."""
  m = re.fullmatch(r'(-?)([0-9]+)(?:\.([0-9]+))?(?:[eE]([+-]?[0-9]+))?', text)
  neg, a, b, e = m.groups()
  b = b or ''
  digits = (a + b).lstrip('0')
  exp = int(e or 0) - len(b)
  stripped = digits.rstrip('0')
  exp += len(digits) - len(stripped)
  if not stripped:
    return (False, '', 0)
  return (neg == '-', stripped, exp)


def canon(node):
  """Equal for equivalent values only."""
  k, v = node
  if k == 'lit':
    return node
  if k == 'num':
    return ('num', number(v))
  if k == 'str':
    return ('str', decode(v))
  if k == 'arr':
    return ('arr', tuple(canon(x) for x in v))
  return ('obj', tuple((decode(a), canon(b)) for a, b in v))


def compact(node):
  k, v = node
  if k in ('lit', 'num', 'str'):
    return v
  if k == 'arr':
    return '[' + ','.join(compact(x) for x in v) + ']'
  return '{' + ','.join(f'{a}:{compact(b)}' for a, b in v) + '}'


def pretty(node, indent, level=0):
  """Python's json.dumps(indent=...) layout over the source tokens."""
  k, v = node
  if k in ('lit', 'num', 'str'):
    return v
  if not v:
    return '[]' if k == 'arr' else '{}'
  nl = '\n' + indent * (level + 1)
  if k == 'arr':
    parts = [pretty(x, indent, level + 1) for x in v]
  else:
    parts = [f'{a}: {pretty(b, indent, level + 1)}' for a, b in v]
  o, c = ('[', ']') if k == 'arr' else ('{', '}')
  return o + nl + (',' + nl).join(parts) + '\n' + indent * level + c


def spaced(node, ws):
  """Renders with whitespace taken from the iterator ws."""
  k, v = node
  n = lambda: next(ws)
  if k in ('lit', 'num', 'str'):
    return v
  if k == 'arr':
    return '[' + n() + ','.join(n() + spaced(x, ws) + n() for x in v) + ']'
  return '{' + n() + ','.join(
      n() + a + n() + ':' + n() + spaced(b, ws) + n() for a, b in v) + '}'


def depth(node):
  k, v = node
  if k in ('lit', 'num', 'str'):
    return 0
  kids = v if k == 'arr' else [b for _, b in v]
  return 1 + max([depth(x) for x in kids], default=0)


def size(node):
  k, v = node
  if k in ('lit', 'num', 'str'):
    return 1
  kids = v if k == 'arr' else [b for _, b in v]
  return 1 + sum(size(x) for x in kids)


# -- generators ---------------------------------------------------------------

def _digits(lo=1, hi=22):
  return st.text('0123456789', min_size=lo, max_size=hi)


@st.composite
def numbers(draw):
  s = draw(st.sampled_from(['', '-']))
  s += draw(st.one_of(st.just('0'), st.integers(1, 99).map(str),
                      st.integers(1, 10**30).map(str)))
  if draw(st.booleans()):
    s += '.' + draw(_digits())
  if draw(st.booleans()):
    s += draw(st.sampled_from('eE')) + draw(st.sampled_from(
        ['', '+', '-'])) + draw(_digits(1, 4))
  return s


# Characters that matter to JSON and its dialects, and all planes of Unicode.
special_chars = '"\'`\\/{}[](),:#*-+_.0129abfnrtuUxXeEnlL \x7f\x80\u00a0\u2028\u2029\ufeff\ufffd\uffff\u0100\u07ff\u0800\ud7ff\ue000\U00010000\U0001f600\U000fffff\U0010ffff'
chars = st.one_of(
    st.sampled_from(special_chars),
    st.sampled_from('abcxyz0189 '),
    st.characters(exclude_categories=('Cs',)),
)


SUPPLEMENTARY = st.one_of(
    st.integers(0x10000, 0x10ffff),
    st.sampled_from([0x10000, 0x10ffff, 0x103ff, 0x10400, 0xffffe]))


@st.composite
def string_pieces(draw):
  k = draw(st.integers(0, 6))
  if k <= 3:
    c = draw(chars)
    if c < ' ':
      return '\\u%04x' % ord(c)
    return {'"': '\\"', '\\': '\\\\'}.get(c, c)
  if k == 4:
    return '\\' + draw(st.sampled_from('"\\/bfnrt'))
  if k == 5:
    cp = draw(st.one_of(st.integers(0, 0xD7FF), st.integers(0xE000, 0xFFFF),
                        st.sampled_from([0, 0x1f, 0x22, 0x5c, 0x7f, 0x80,
                                         0xfffd, 0xffff])))
    fmt = draw(st.sampled_from(['\\u%04x', '\\u%04X']))
    return fmt % cp
  cp = draw(SUPPLEMENTARY) - 0x10000
  return '\\u%04x\\u%04X' % (0xD800 + (cp >> 10), 0xDC00 + (cp & 0x3ff))


strings = st.lists(string_pieces(), max_size=6).map(
    lambda ps: '"' + ''.join(ps) + '"')
simple_keys = st.sampled_from(['"a"', '"b"', '"k"', '""', '"\\u0061"', '"é"'])
leaves = st.one_of(
    st.sampled_from([('lit', 'true'), ('lit', 'false'), ('lit', 'null')]),
    numbers().map(lambda s: ('num', s)),
    strings.map(lambda s: ('str', s)),
    st.sampled_from([('arr', ()), ('obj', ())]),
)


def trees(max_leaves=10, keys=None):
  keys = keys or st.one_of(simple_keys, strings)
  return st.recursive(
      leaves,
      lambda c: st.one_of(
          st.lists(c, max_size=4).map(lambda x: ('arr', tuple(x))),
          st.lists(st.tuples(keys, c), max_size=4).map(
              lambda x: ('obj', tuple(x)))),
      max_leaves=max_leaves)


def ws_iter(choices):
  """Endless whitespace pieces from a generated list."""
  i = 0
  while True:
    yield choices[i % len(choices)] if choices else ''
    i += 1


ws_lists = st.lists(st.sampled_from(['', '', ' ', '\n', '\t', '\r', '  \n ']),
                    max_size=7)
# Between top-level values at least one whitespace character.
sep_lists = st.lists(st.sampled_from([' ', '\n', '\n', '\r\n', '\t', ' \n ']),
                     min_size=1, max_size=5)
cuts = st.lists(st.floats(0, 1, allow_nan=False), max_size=8)


def split(data, fractions):
  """Cuts bytes at generated relative positions (also inside characters)."""
  pos = sorted(int(f * len(data)) for f in fractions)
  out = []
  prev = 0
  for p in pos:
    out.append(data[prev:p])
    prev = p
  out.append(data[prev:])
  return out
