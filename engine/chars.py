"""Character sets: int bit masks over the 128 ASCII characters."""

N = 128
FULL = (1 << N) - 1
BIT = {chr(i): 1 << i for i in range(N)}


def of(chars):
  m = 0
  for c in chars:
    m |= BIT.get(c, 0)
  return m


def where(pred):
  return sum(1 << i for i in range(N) if pred(chr(i)))


WS = where(str.isspace)
DIGITS = of('0123456789')
PRED = {p: where(getattr(str, p)) for p in
        ('isalpha', 'isdecimal', 'isdigit', 'isnumeric', 'isalnum', 'isspace',
         'isprintable', 'isascii', 'isupper', 'islower')}
UPPER = PRED['isupper']
LOWER = PRED['islower']


def single(mask):
  """the only character of a mask, or None"""
  if mask and not (mask & (mask - 1)):
    return chr(mask.bit_length() - 1)
  return None


def chars(mask):
  while mask:
    low = mask & -mask
    yield chr(low.bit_length() - 1)
    mask ^= low


def show(mask):
  if mask == FULL:
    return 'any'
  inv = FULL & ~mask
  if bin(inv).count('1') < bin(mask).count('1'):
    return 'any but ' + _lst(inv)
  return _lst(mask)


def _lst(mask):
  for name, p in PRED.items():
    if mask == p:
      return '<' + name[2:] + '>'
  parts = [repr(c)[1:-1] for c in chars(mask)]
  if len(parts) > 14:
    parts = parts[:12] + ['(%d more)' % (len(parts) - 12)]
  return '{' + ' '.join(p if p != ' ' else 'SP' for p in parts) + '}'


def example(mask, prefer='A1 0S'):
  for c in prefer:
    if mask & BIT[c]:
      return c
  for lo, hi in ((65, 91), (48, 58), (33, 127), (0, 128)):
    for i in range(lo, hi):
      if mask >> i & 1:
        return chr(i)
  return '?'
