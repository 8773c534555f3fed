"""Stand-in for the decimal module, evaluated by the analysis instead of it: numbers with
a decimal exponent. What it leaves out ends in _undecided(): the analysis gives up that path."""

ROUND_HALF_UP = 'ROUND_HALF_UP'
ROUND_HALF_EVEN = 'ROUND_HALF_EVEN'
ROUND_DOWN = 'ROUND_DOWN'
ROUND_UP = 'ROUND_UP'
ROUND_FLOOR = 'ROUND_FLOOR'
ROUND_CEILING = 'ROUND_CEILING'


class DecimalException(ArithmeticError):
  pass


class InvalidOperation(DecimalException):
  pass


class Decimal:

  def __init__(self, value='0', context=None):
    if isinstance(value, Decimal):
      self.n, self.exp, self.exact = value.n, value.exp, value.exact
      return
    self.exact = True
    self.exp = 0
    if isinstance(value, int):
      self.n = value
      return
    if not isinstance(value, str):
      _undecided()
    text = value.strip()
    sign = 1
    if text[:1] == '-' or text[:1] == '+':
      sign = -1 if text[:1] == '-' else 1
      text = text[1:]
    if '.' in text:
      whole, _, part = text.partition('.')
      self.exp = -len(part)
      text = whole + part
    if not text.isdigit():
      if text.isalnum() or '_' in text or '.' in text:
        if text.lower() in ('inf', 'infinity', 'nan', 'snan') or 'e' in text.lower() or '_' in text:
          _undecided()
      raise InvalidOperation('invalid literal')
    self.n = sign * int(text)

  def _make(self, n, exp, exact=True):
    r = Decimal(0)
    r.n, r.exp, r.exact = n, exp, exact
    return r

  def _power(self, other):
    """k when other is 10**k, else None"""
    if isinstance(other, Decimal):
      n, k = other.n, other.exp
    elif isinstance(other, int):
      n, k = other, 0
    else:
      return None
    for i in range(8):
      if n == 10 ** i:
        return k + i
    return None

  def scaleb(self, other, context=None):
    return self._make(self.n, self.exp + int(other))

  def __truediv__(self, other):
    k = self._power(other)
    if k is None:
      _undecided()
    return self._make(self.n, self.exp - k, False)

  def __mul__(self, other):
    k = self._power(other)
    if k is None:
      if isinstance(other, int):
        return self._make(self.n * other, self.exp, self.exact)
      if isinstance(other, Decimal):
        return self._make(self.n * other.n, self.exp + other.exp, self.exact and other.exact)
      _undecided()
    if isinstance(other, int):
      return self._make(self.n * other, self.exp, self.exact)
    return self._make(self.n * other.n, self.exp + other.exp, self.exact and other.exact)

  __rmul__ = __mul__

  def quantize(self, exp, rounding=None, context=None):
    want = exp.exp
    if want > self.exp:
      _undecided()
    return self._make(self.n * 10 ** (self.exp - want), want)

  def __float__(self):
    if self.exp == 0:
      return float(self.n)
    if self.exp > 0:
      return float(self.n * 10 ** self.exp)
    return self.n / 10 ** -self.exp

  def __int__(self):
    if self.exp >= 0:
      return self.n * 10 ** self.exp
    return self.n // 10 ** -self.exp

  def __bool__(self):
    return self.n != 0

  def __str__(self):
    if not self.exact or self.exp > 0 or self.exp < -6:
      _undecided()
    if self.exp == 0:
      return str(self.n)
    return format(float(self), '.' + str(-self.exp) + 'f')

  def __format__(self, spec):
    if spec == '':
      return str(self)
    if spec == 'f':
      return str(self)
    if spec[-1:] != 'f' or '.' not in spec:
      _undecided()
    if int(spec.rpartition('.')[2][:-1]) < -self.exp:
      _undecided()
    return format(float(self), spec)

  def _cmp(self, other):
    o = other if isinstance(other, Decimal) else Decimal(other)
    e = min(self.exp, o.exp)
    return self.n * 10 ** (self.exp - e), o.n * 10 ** (o.exp - e)

  def __eq__(self, other):
    if not isinstance(other, (Decimal, int)):
      return False
    a, b = self._cmp(other)
    return a == b

  def __lt__(self, other):
    a, b = self._cmp(other)
    return a < b

  def __le__(self, other):
    a, b = self._cmp(other)
    return a <= b

  def __gt__(self, other):
    a, b = self._cmp(other)
    return a > b

  def __ge__(self, other):
    a, b = self._cmp(other)
    return a >= b

  def __hash__(self):
    _undecided()
