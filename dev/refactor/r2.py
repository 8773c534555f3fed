"""definitions rewritten: tables of fields, base class, dispatch by dict"""
import re, glob
def apply(src):
  # every read_* list becomes a table read by a shared helper
  for p in sorted(glob.glob(src + '/definitions/*.py')):
    s = open(p).read()
    if 'Field(' not in s:
      continue
    style = len(p) % 3
    if style == 0:
      s = re.sub(r'Field\(([^,\n]+),\s*(r\[[^\n]*?\]),\s*decoder\.(\w+)\)', r'self._f(\1, \2, decoder.\3)', s)
      s = re.sub(r'(class \w+\(\)):\n', r'\1:\n\n  @staticmethod\n  def _f(label, text, fn):\n    return Field(label, text, fn)\n', s)
    elif style == 1:
      # build up a list with append
      s = re.sub(r'    return \[\n((?:\s+(?:Field|#)[^\n]*\n)+)    \]', lambda m: '    fields = []\n' + re.sub(r'^ +(Field\([^\n]*?\)) *,? *(#[^\n]*)?$', r'    fields.append(\1)', m.group(1), flags=re.M) + '    return fields', s)
    else:
      # tuples (label, slice, decoder) and a comprehension
      def conv(m):
        rows = m.group(1)
        if re.search(r'r\[\d+\]\s*\+', rows) or 'self.' in rows:
          return m.group(0)
        rows = re.sub(r'Field\(([^,\n]+),\s*r\[(\d+):(\d+)\],\s*(decoder\.\w+)\)', r'(\1, slice(\2, \3), \4)', rows)
        rows = re.sub(r'Field\(([^,\n]+),\s*r\[(\d+)\],\s*(decoder\.\w+)\)', r'(\1, \2, \3)', rows)
        if 'Field(' in rows:
          return m.group(0)
        return '    layout = (\n%s    )\n    return [Field(label, r[where], fn) for label, where, fn in layout]' % re.sub(r'\)\s*(#.*)?$', '),', rows, flags=re.M).replace('),,', '),')
      s = re.sub(r'    return \[\n((?:\s+Field\([^\n]*\n)+)    \]', conv, s)
    # dispatch by dict
    def disp(m):
      cases = re.findall(r"case '([^']+)':\n\s+return self\.(\w+)\(line\)", m.group(2))
      if not cases or re.search(r"case '[^']+' \|", m.group(0)):
        return m.group(0)
      return '    readers = {%s}\n    reader = readers.get(%s)\n    return reader(line) if reader is not None else []\n' % (', '.join("'%s': self.%s" % c for c in cases), m.group(1))
    s = re.sub(r"    match (\w+):\n((?:      case '[^']+':\n        return self\.\w+\(line\)\n)+)      case _:\n        return \[\]\n?", disp, s)
    open(p, 'w').write(s)
  p = src + '/definitions/GridMORA.py'; s = open(p).read()
  i = s.index('  def read_primary')
  s = s[:i] + '''  def read_primary(self, r):
    fields = [
      Field("Record Type", r[0], decoder.field_002),
      Field("Section Code", r[4:6], decoder.field_004),
      Field("Starting Latitude", r[13:16], decoder.field_141),
      Field("Starting Longitude", r[16:20], decoder.field_142),
    ]
    start = 30
    for n in range(1, 31):
      label = "MORA" if n == 1 else f"MORA ({n})"
      fields.append(Field(label, r[start:start + 3], decoder.field_143))
      start += 3
    fields += [Field("File Record No", r[123:128], decoder.field_031), Field("Cycle Date", r[128:132], decoder.field_032)]
    return fields
'''
  open(p, 'w').write(s)
  p = src + '/definitions/MSA.py'; s = open(p).read()
  i = s.index('  def read_primary'); j = s.index('  def read_cont')
  s = s[:i] + '''  def _head(self, r):
    yield Field("Record Type", r[0], decoder.field_002)
    yield Field("Customer / Area Code", r[1:4], decoder.field_003)
    yield Field("Section Code", r[4] + r[12], decoder.field_004)
    yield Field(self.id_name, r[6:10], decoder.field_006)
    yield Field("ICAO Code", r[10:12], decoder.field_014)
    yield Field("MSA Center", r[13:18], decoder.field_144)
    yield Field("ICAO Code (2)", r[18:20], decoder.field_014)
    yield Field("Section Code (2)", r[20:22], decoder.field_004)
    yield Field("Multiple Code", r[22], decoder.field_130)
    yield Field("Continuation Record No", r[38], decoder.field_016)

  def read_primary(self, r):
    sectors = []
    for i in range(7):
      at = 42 + 11 * i
      suffix = f' ({i + 1})' if i else ''
      sectors.extend([
        Field("Sector Bearing" + suffix, r[at:at + 6], decoder.field_146),
        Field("Sector Altitude" + suffix, r[at + 6:at + 9], decoder.field_147),
        Field("Sector Radius" + suffix, r[at + 9:at + 11], decoder.field_145),
      ])
    return [
      *self._head(r),
      *sectors,
      Field("Magnetic/True Bearing", r[119], decoder.field_165),
      Field("File Record No", r[123:128], decoder.field_031),
      Field("Cycle Date", r[128:132], decoder.field_032)
    ]

''' + s[j:]
  open(p, 'w').write(s)
