"""C14: JSON stream layout, quoting and chunking."""
import vp
from vp import st, expect, expect_eq
import jsonlib as J
import jsonstream

check = vp.Check(
    'C14',
    'Generated sequences of JSON values (token-preserving trees, all Unicode'
    ' planes, all escapes, long numbers) in random whitespace layouts and'
    ' random byte chunkings; expected output computed from the tree. Non-trivial:'
    ' a container or a string with an escape, and at least two chunks.',
    ['json_stream.cc is compiled from /repo against the distribution\'s absl'
     ' and ICU, with a stand-in for absl/log/check.h (DCHECK off); the operator'
     ' glue in koladata/operators/json_stream.cc is re-enacted (it needs arolla).'],
)


@check.setup
def _setup():
  jsonstream.build()


streams = st.tuples(st.lists(J.trees(10), max_size=4), J.ws_lists, J.sep_lists,
                    st.booleans(), J.cuts)


def render(case):
  """(values, text); the last separator is optional."""
  vals, ws, seps, tail, _ = case
  it, si = J.ws_iter(ws), J.ws_iter(seps)
  text = next(it)
  for i, v in enumerate(vals):
    text += J.spaced(v, it)
    if i < len(vals) - 1 or tail:
      text += next(si)
  return vals, text


def lines(vals):
  return ''.join(J.compact(v) + '\n' for v in vals).encode()


def weight(text, case):
  return len(case[4]) >= 1 and ('\\' in text or '[' in text or '{' in text)


def single_bytes(data):
  return [data[i:i + 1] for i in range(len(data))] or [b'']


@check.clause(streams, n=2500, thorough=120000, native=True)
def compactify(case):
  vals, text = render(case)
  data = text.encode()
  want = lines(vals)
  for chunks in (J.split(data, case[4]), single_bytes(data)):
    expect_eq(jsonstream.pipe([jsonstream.COMPACT], chunks)[0], want, text)
  # Idempotent.
  expect_eq(jsonstream.run('compactify', [want])[0], want)
  return weight(text, case)


indents = st.sampled_from(['', ' ', '  ', '\t', '    ', '\u3000', '--'])


@check.clause(st.tuples(streams, indents), n=2000, thorough=120000, native=True)
def prettify(case):
  s, indent = case
  vals, text = render(s)
  data = text.encode()
  want = '\n'.join(J.pretty(v, indent) for v in vals).encode()
  outs = [jsonstream.pipe([('prettify', dict(s=indent.encode()))], c)[0]
          for c in (J.split(data, s[4]), single_bytes(data))]
  expect(outs[0] == outs[1], 'the output depends on the chunking', outs=outs)
  # Blank lines around the values do not matter.
  expect_eq(outs[0].strip(b'\n'), want, text)
  # Layout does not change the values.
  if not indent.strip():
    expect_eq(jsonstream.run('compactify', [outs[0].replace(
        '\u3000'.encode(), b' ') if indent == '\u3000' else outs[0]])[0],
              lines(vals) if indent != '\u3000' else jsonstream.run(
                  'compactify', [want.replace('\u3000'.encode(), b' ')])[0])
  return weight(text, s)


@check.clause(streams, n=2000, thorough=100000, native=True)
def chunk_values(case):
  vals, text = render(case)
  for chunks in (J.split(text.encode(), case[4]), single_bytes(text.encode())):
    _, out, _ = jsonstream.pipe([('chunk_values', {})], chunks)
    expect_eq(out, [(J.compact(v) + '\n').encode() for v in vals], text)
  return weight(text, case)


@check.clause(st.tuples(streams, st.integers(-1, 6)), n=2000, thorough=100000,
              native=True)
def head(case):
  s, n = case
  vals, text = render(s)
  chunks = J.split(text.encode(), s[4])
  out, _, used = jsonstream.pipe(
      [jsonstream.COMPACT, ('head', dict(n=n))], chunks)
  want = lines(vals[:max(0, n)])
  expect_eq(out, want, text)
  if 0 < n <= len(vals):
    # The stream ends as soon as the nth value is complete: no chunk is read
    # after the one which completes the nth value.
    p = b''
    need = 0
    for need, c in enumerate(chunks, 1):
      p += c
      if jsonstream.run('compactify', [p, b''])[0].startswith(want):
        # Complete only if the newline needs no end of input.
        proc = jsonstream.Proc('compactify')
        o = b''.join(proc.process(p, False)[0])
        if o.startswith(want):
          break
    else:
      need = len(chunks) + 1
    expect_eq(used, need, 'read beyond the nth value')
  return weight(text, s)


texts = st.one_of(st.text(J.chars, max_size=20),
                  st.text(st.one_of(J.chars, st.characters(
                      min_codepoint=0, max_codepoint=0x1f)), max_size=12))
NEED = {**{chr(i): '\\u%04x' % i for i in range(32)}, '"': '\\"',
        '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r',
        '\t': '\\t'}


@check.clause(st.tuples(texts, J.cuts, J.cuts), n=2500, thorough=150000,
              native=True)
def quote_unquote(case):
  text, c1, c2 = case
  data = text.encode()
  for chunks in (J.split(data, c1), single_bytes(data), []):
    q = jsonstream.pipe([('quote', {})], chunks)[0]
    want = ''.join(NEED.get(c, c) for c in (text if chunks else ''))
    expect_eq(q.decode(), f'"{want}"')
    for back in (J.split(q, c2), single_bytes(q)):
      u = jsonstream.pipe([('unquote', {})], back)[0]
      expect_eq(u.decode(), text if chunks else '')
  return len(data) > 2 and len(c1) >= 1


def strings_of(node):
  k, v = node
  if k == 'str':
    yield v
  elif k == 'arr':
    for x in v:
      yield from strings_of(x)
  elif k == 'obj':
    for a, b in v:
      yield a
      yield from strings_of(b)


@check.clause(streams, n=2000, thorough=120000, native=True)
def unquote_streams(case):
  vals, text = render(case)
  want = ''.join(chr(c) for v in vals for s in strings_of(v)
                 for c in J.decode(s))
  data = text.encode()
  for chunks in (J.split(data, case[4]), single_bytes(data)):
    expect_eq(jsonstream.pipe([('unquote', {})], chunks)[0].decode(), want,
              text)
  return weight(text, case) and bool(want)


if __name__ == '__main__':
  check.main()
