"""Ground-truth generators: delimited text (textpack) and lazy numeric text."""
import datetime
import io
import os

from . import vio


# ---------------------------------------------------------------- converters
def _txt(v):
    return v.decode('latin-1') if isinstance(v, bytes) else v


def conv_hex(v):
    return int(_txt(v).strip(), 16)


def conv_upper(v):
    return _txt(v).strip().upper() + '!'


def conv_twice(v):
    return 2.0 * float(_txt(v))


def conv_date(v):
    return datetime.datetime.strptime(_txt(v).strip(), '%Y-%m-%d')


def conv_len(v):
    return len(_txt(v).strip())


def conv_pct(v):
    return float(_txt(v).strip().rstrip('%')) / 4


def conv_orzero(v):
    t = _txt(v).strip()
    return float(t.replace(',', '.')) if t else 0.0


def conv_flag(v):
    return _txt(v).strip().lower() in ('on', 'yes', '1')


def conv_none(v):
    t = _txt(v).strip()
    return t or None


# converters that take an empty field too
EMPTYOK = ('upper', 'len', 'orzero', 'flag', 'none')

# name -> (function, value generator)
CONVERTERS = {
    'orzero': (conv_orzero, lambda s: '%d.%d' % (s.draw(100), s.draw(100))),
    'flag': (conv_flag, lambda s: s.pick(['on', 'off', 'Yes', '1', '0'])),
    'none': (conv_none, lambda s: s.pick(['a', 'bb', '1', 'xy'])),
    'hex': (conv_hex, lambda s: '%x' % s.draw(5000)),
    'upper': (conv_upper, lambda s: s.pick(['aa', 'Bb', 'c1', 'delta', '7x'])),
    'twice': (conv_twice, lambda s: '%d.%d' % (s.draw(100), s.draw(100))),
    'date': (conv_date, lambda s: '20%02d-%02d-%02d' % (s.draw(30), 1 + s.draw(12), 1 + s.draw(28))),
    'len': (conv_len, lambda s: 'x' * (1 + s.draw(12))),
    'pct': (conv_pct, lambda s: '%d%%' % s.draw(101)),
}

ASCII_WORDS = ['abc', 'Zed', 'ON', 'off', 'x9', 'q-1', 'val', 'T1', 'low', 'a.b', '0x1f', '--', '_', 'e', 'E5', 'd1e']
LATIN_WORDS = ['åäö', 'naïve', 'Ünit', 'm²', 'æø', 'ÿ', 'µm']
WIDE_WORDS = ['漢字', 'Ωhm', '№7', '😀', 'ж', 'e\u0301x']


def word(src, encoding, firstrow):
    pools = [ASCII_WORDS]
    if encoding in ('latin-1', 'cp1252'):
        pools.append(LATIN_WORDS)
    elif encoding in ('utf-8', 'utf-16', 'utf-8-sig', 'utf-16-le', 'utf-32'):
        pools += [LATIN_WORDS, WIDE_WORDS]
    w = src.pick(src.pick(pools))
    if encoding == 'cp1252' and w == 'ÿ':
        w = 'y'
    if not firstrow and src.chance(1, 5):
        w = src.pick(['12', '3.5', 'nan', '1e3', '0', '1,5'])
    if src.chance(1, 6):
        w = w + src.pick(ASCII_WORDS)
    return w


def oddspace(src, encoding):
    """White space that ends no line and is no delimiter, for the middle of a text."""
    k = ['\x0b', '\x0c', '\x1c', '\x1e']
    if encoding == 'latin-1':
        k += ['\x85', '\xa0']
    elif encoding == 'cp1252':
        k += ['\xa0']
    elif encoding.startswith('utf'):
        k += ['\x85', '\xa0', '\u2028', '\u2029', '\u3000', '\ufeff']
    return src.pick(k)


def number(src, dec):
    """A number as text with decimal character dec."""
    k = src.draw(9)
    a, b = src.draw(1000), src.draw(1000)
    if k == 0:
        s = '%d' % a
    elif k == 1:
        s = '%d.%d' % (a, b)
    elif k == 2:
        s = '-%d.%03d' % (a, b)
    elif k == 3:
        s = '%d.%dE%s%02d' % (a % 10, b, src.pick(['', '+', '-']), src.draw(12))
    elif k == 4:
        s = '%de%d' % (1 + a % 9, src.draw(9))
    elif k == 5:
        s = '.%d' % b
    elif k == 6:
        s = '%d.' % a
    elif k == 7:
        s = '+%d.%d' % (a, b)
    else:
        s = '%.12f' % (a / 7.0 + b)
    return s.replace('.', dec)


def fval(s):
    return float(s.replace(',', '.')) if s.strip() else float('nan')


class TextCase(object):
    """A delimited text table, textpack options, and the expected pack."""
    factory = 'textpack'

    def __init__(self, src, big=False, plain=False, maxrows=None, force_delivery=None,
                 converters=True):
        self.src = src
        self.make_format(src)
        self.make_table(src, big, plain, maxrows, converters)
        self.make_text(src)
        self.make_options(src)
        self.delivery = force_delivery or self.pick_delivery(src)
        self.finish(src)

    # -- format
    def make_format(self, src):
        self.delim = src.weighted([(';', 4), (',', 3), ('\t', 3), (None, 4), (' ', 1), ('|', 1),
                                   ('::', 1)])
        self.dec = ',' if (self.delim != ',' and src.chance(1, 3)) else '.'
        self.encoding = src.weighted([('utf-8', 5), ('latin-1', 2), ('utf-16', 1), ('cp1252', 1),
                                      ('utf-8-sig', 1), ('ascii', 2)])
        self.eol = src.weighted([('\n', 6), ('\r\n', 3), ('\r', 1)])

    # -- table
    def make_table(self, src, big, plain, maxrows, converters):
        self.ncols = src.size(1, 7)
        if maxrows:
            self.nrows = src.between(1, maxrows)
        else:
            self.nrows = src.size(1, 40)
        huge = 0
        if big:
            if src.chance(1, 3):
                self.nrows = src.between(100, 1200)
            else:
                huge = src.pick([1000, 4096, 10001, 20000, 257, 513])
        types = []
        for c in range(self.ncols):
            t = src.weighted([('num', 6), ('str', 3), ('conv', 2 if converters else 0)])
            if t == 'conv':
                t = 'conv:' + src.pick(sorted(CONVERTERS))
            types.append(t)
        if plain:
            types = ['num' for t in types]
        self.types = types
        self.converters = {c: t.split(':')[1] for c, t in enumerate(types) if t.startswith('conv:')}
        single = self.ncols == 1
        empties = self.delim is not None and not single
        spaced = self.delim not in (None, ' ')
        rows = []
        for r in range(self.nrows):
            row = []
            for t in types:
                first = r == 0
                if t == 'num':
                    if not first and empties and src.chance(1, 8):
                        s = ''
                    else:
                        s = number(src, self.dec)
                        if src.chance(1, 30):
                            s = src.pick(['nan', 'inf', '-inf', 'NaN'])
                elif t == 'str':
                    if empties and not first and src.chance(1, 8):
                        s = ''
                    else:
                        s = word(src, self.encoding, first)
                        if self.delim == ',':
                            s = s.replace(',', '.')
                        if spaced and src.chance(1, 6):
                            s = s + ' ' + word(src, self.encoding, True)
                        if empties and src.chance(1, 12):
                            s = 'w' + s[:1] + oddspace(src, self.encoding) + s[1:] + 'w'
                else:
                    s = CONVERTERS[t.split(':')[1]][1](src)
                    if empties and t[5:] in EMPTYOK and src.chance(1, 5):
                        s = ''
                    if self.delim and self.delim in s:
                        s = s.replace(self.delim, '')
                row.append(s)
            rows.append(row)
        if huge:
            # the same rows over again, in another order
            for r in range(self.nrows, huge):
                rows.append(rows[(r * 7) % self.nrows])
            self.nrows = len(rows)
        # decimal comma must be recognisable in the first row
        if self.dec == ',':
            nums = [c for c, t in enumerate(types) if t == 'num']
            if nums and not any(',' in rows[0][c] for c in nums):
                rows[0][nums[0]] = '1,5'
        # a row of nothing but separators of the strippable kind must not look blank
        if single:
            for row in rows:
                if not row[0].strip():
                    row[0] = 'z' if types[0] == 'str' else '7'
        self.rows = rows
        self.single = single
        self.empties = empties
        self.spaced = spaced

    # -- text, expected values per column
    def make_text(self, src):
        delim = self.delim
        pad = self.spaced and src.chance(1, 3)
        # what strip() at the line ends removes
        lines = []
        fields = []
        for row in self.rows:
            out, frow = [], []
            for c, s in enumerate(row):
                t = self.types[c]
                if pad and s and t != 'str' and src.chance(1, 3):
                    s = ' ' * src.draw(3) + s + ' ' * src.draw(3)
                elif pad and s and t == 'str' and 0 < c < self.ncols - 1 and src.chance(1, 3):
                    s = ' ' * src.draw(3) + s + ' ' * src.draw(3)
                out.append(s)
                frow.append(s)
            if delim is None:
                sep = src.pick([' ', '  ', '\t', ' \t ']) if src.chance(1, 2) else ' '
                line = sep.join(out)
                if src.chance(1, 8):
                    line = ' ' + line + '  '
            else:
                line = delim.join(out)
            lines.append(line)
            fields.append(frow)
        self.fields = fields
        # header
        nskip = src.draw(5) if src.chance(2, 3) else 0
        header = []
        for i in range(nskip):
            header.append(src.pick(['', 'header', 'Some text 1 2 3', '# c;o,m\tm ent', 'x', '12.5',
                                    'a' * (1 + src.draw(200)), 'page\x0cbreak', 'unit\x1cmark\x0bend']))
        self.hasnames = nskip > 0 and src.chance(1, 2)
        colnames = []
        if self.hasnames:
            dup = src.chance(1, 4)      # the same name over several columns
            for c in range(self.ncols):
                nm = src.pick(['t', 'speed', 'RPM', 'Pressure', 'n1', 'Temp', 'a_b', 'v-x'])
                if self.encoding in ('utf-8', 'latin-1', 'cp1252', 'utf-16', 'utf-8-sig') and src.chance(1, 5):
                    nm += 'å'
                if not dup:
                    nm += str(c)
                if self.spaced and src.chance(1, 4):
                    nm = nm + ' [m/s]'
                if self.empties and src.chance(1, 12):
                    nm = 'n' + oddspace(src, self.encoding) + nm
                colnames.append(nm)
            header[-1] = (delim or ' ').join(colnames)
            if self.spaced and delim != '\t' and src.chance(1, 4):
                header[-1] = (' ' + delim + ' ').join(colnames)
        self.colnames = colnames
        self.header = header
        # blank lines between rows (never before the first)
        body = []
        blanks = src.chance(1, 4)
        rowline = []
        for i, line in enumerate(lines):
            if i and blanks and src.chance(1, 4):
                for _ in range(1 + src.draw(2)):
                    body.append('' if delim == ' ' else src.pick(['', '   ']))
            rowline.append(len(body))
            body.append(line)
        if blanks and src.chance(1, 3):
            body.append('')
        self.body = body
        self.rowline = rowline
        self.final_eol = not src.chance(1, 4)

    def text(self):
        alll = self.header + self.body
        t = self.eol.join(alll)
        if self.final_eol:
            t += self.eol
        return t

    # -- options
    def make_options(self, src):
        o = {}
        if self.delim is not None:
            o['delimiter'] = self.delim
        skip = len(self.header)
        if skip:
            o['skiprows'] = skip
        usecols = None
        names = None
        k = src.draw(6)
        if k in (1, 2):
            chosen = src.subset(range(self.ncols)) or [src.draw(self.ncols)]
            if k == 2:
                chosen = src.shuffle(chosen)
            usecols = list(chosen)
            form = src.draw(5)
            if len(chosen) == 1 and form == 0:
                o['usecols'] = chosen[0]
            elif form == 1:
                o['usecols'] = tuple(chosen)
            elif form == 2:
                o['usecols'] = set(chosen)
            elif form == 3:
                o['usecols'] = list(chosen) + [chosen[0]]       # a duplicate
            else:
                o['usecols'] = list(chosen)
        elif k == 3:
            chosen = src.subset(range(self.ncols)) or [src.draw(self.ncols)]
            if src.chance(1, 2):
                chosen = src.shuffle(chosen)
            names = {c: 'given%d' % c for c in chosen}
            o['names'] = names
            if src.chance(1, 4):
                o['usecols'] = list(range(self.ncols))
        if self.hasnames:
            o['hasnames'] = True
        if self.converters:
            o['converters'] = self.converters      # replaced by functions in kwargs()
        if src.chance(1, 3):
            o['stripstrings'] = True
        if src.chance(1, 4):
            o['debug'] = True
        self.opts = o
        self.names_arg = names
        self.usecols = (sorted(names) if names else
                        sorted(set(usecols)) if usecols is not None else list(range(self.ncols)))

    DELIVERIES = ['path', 'textfile', 'stringio', 'bytesfile', 'bytesio', 'fdtext', 'fdbytes', 'ducktext', 'rawfile']

    def pick_delivery(self, src):
        d = src.weighted([('path', 5), ('textfile', 4), ('stringio', 2), ('bytesfile', 4),
                          ('bytesio', 2), ('fdtext', 1), ('fdbytes', 1), ('ducktext', 1), ('rawfile', 1)])
        return d

    def is_bytes(self):
        return self.delivery in ('bytesfile', 'bytesio', 'fdbytes', 'rawfile')

    def finish(self, src):
        if self.is_bytes():
            if self.encoding in ('utf-16', 'utf-8-sig'):
                self.encoding = 'utf-8'
            if self.eol == '\r':
                self.eol = '\n'
            # bytes fields: decoded when an encoding is given, else left as bytes
            self.pass_encoding = src.chance(2, 3)
            if not self.pass_encoding and any(t == 'str' for t in self.types):
                pass
        else:
            self.pass_encoding = True
        if self.encoding == 'ascii' and not self.is_bytes():
            self.pass_encoding = src.chance(1, 2)
        if self.delivery == 'stringio' and self.eol == '\r':
            self.eol = '\n'
        # start position: junk lines consumed by the caller beforehand
        self.prefix = []
        if self.delivery not in ('path',) and src.chance(1, 3):
            self.prefix = [src.pick(['junk', '1 2 3', '', 'å' if self.encoding != 'ascii' else 'a', 'x;y;z', '9' * 40])
                           for _ in range(1 + src.draw(3))]
        self.content = self.encode()

    def encode(self):
        full = ''.join(p + self.eol for p in self.prefix) + self.text()
        return full.encode(self.encoding)

    def expected(self):
        asbytes = self.is_bytes() and not self.pass_encoding
        cols = {}
        strip = self.opts.get('stripstrings', False)
        stripchars = ' \t\n\r\x0b\x0c'.replace(self.delim or '\t', '')
        for c in self.usecols:
            vals = []
            t = self.types[c]
            for row in self.fields:
                s = row[c]
                if t == 'num':
                    vals.append(fval(s))
                elif t == 'str':
                    if self.delim is not None:
                        if c == 0:
                            s = s.lstrip(stripchars)
                        if c == self.ncols - 1:
                            s = s.rstrip(stripchars)
                    if strip:
                        s = s.strip()
                    vals.append(s.encode(self.encoding) if asbytes else s)
                else:
                    vals.append(CONVERTERS[t.split(':')[1]][0](s))
            cols[c] = vals
        names = {}
        if self.names_arg:
            names = dict(self.names_arg)
        elif self.hasnames:
            for c in self.usecols:
                n = self.colnames[c]
                names[c] = n.encode(self.encoding) if asbytes else n
        return cols, names

    # -- call
    def kwargs(self, conv_wrap=None):
        o = dict(self.opts)
        if self.is_bytes() and o.get('delimiter') is not None:
            o['delimiter'] = o['delimiter'].encode(self.encoding)
        if self.pass_encoding and self.delivery != 'stringio':
            o['encoding'] = self.encoding
        if 'converters' in o:
            o['converters'] = {c: (conv_wrap(CONVERTERS[n][0]) if conv_wrap else CONVERTERS[n][0])
                               for c, n in o['converters'].items()}
        for k in ('names',):
            if k in o:
                o[k] = dict(o[k])
        if isinstance(o.get('usecols'), list):
            o['usecols'] = list(o['usecols'])
        return o

    def describe(self):
        return {'factory': self.factory, 'delivery': self.delivery, 'encoding': self.encoding,
                'eol': self.eol, 'prefix_lines': len(self.prefix), 'opts': {k: repr(v) for k, v in self.opts.items()},
                'text': self.text()[:400], 'rows': self.nrows, 'cols': self.ncols}


class DuckText(object):
    """A minimal caller-made text stream: read, readline, iteration, tell, seek."""

    def __init__(self, inner):
        self.inner = inner
        self.closed_calls = 0

    def read(self, n=-1):
        return self.inner.read(n)

    def readline(self):
        return self.inner.readline()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.inner.readline()
        if not line:
            raise StopIteration
        return line

    def tell(self):
        return self.inner.tell()

    def seek(self, *a):
        return self.inner.seek(*a)

    def close(self):
        self.closed_calls += 1
        self.inner.close()

    @property
    def closed(self):
        return self.inner.closed


LAZY_HEADER_WORDS = ['Logger file', 'operator: abc', 'engine test', '', '   ', 'comment line', 'Datum', '***', 'alfa beta']
LAZY_NAMES = ['time', 'speed', 'rpm', 'Pressure', 'temp', 'volt', 'flow']


class LazyCase(object):
    """A numeric data file for lazy_textpack."""
    factory = 'lazy_textpack'

    def __init__(self, src, maxrows=None, force_delivery=None, like=None, long_ok=False):
        self.eol = src.weighted([('\n', 6), ('\r\n', 3), ('\r', 1)])
        self.encoding = src.weighted([('utf-8', 4), ('latin-1', 2), ('utf-16', 1), ('ascii', 2)])
        if like is not None:
            self.encoding = like.encoding
        self.ncols = src.size(1, 6)
        self.sepkind = src.weighted([(';', 4), ('\t', 4), (' ', 3), (', ', 2), (',', 2), ('|', 1), ('spaces', 1),
                                     (' ; ', 1)])
        self.dec = ',' if (',' not in self.sepkind and src.chance(1, 3)) else '.'
        self.nrows = src.between(1, maxrows) if maxrows else (
            src.size(1, 30) if src.chance(2, 3) else src.between(20, 90))
        # every line may end in white space or in a further separator
        self.indent = self.trail = ''
        if src.chance(1, 8):
            self.indent = ' ' * src.draw(5)
            if self.ncols > 1 and self.sepkind in (';', '\t', '|', ',') and src.chance(1, 2):
                self.trail = self.sepkind
            elif self.sepkind not in (' ', '\t'):
                self.trail = '  '
        self.header_lines(src)
        rows = []
        for r in range(self.nrows):
            # in every row one number shows the decimal mark between digits
            full = src.draw(self.ncols)
            rows.append([self.num(src, c == full) for c in range(self.ncols)])
        if long_ok and src.chance(1, 100):
            for r in range(self.nrows, src.pick([1030, 300, 5000, 20000])):
                rows.append(rows[(r * 7) % self.nrows])
            self.nrows = len(rows)
        self.rows = rows
        self.body = [self.line(src, row) for row in rows]
        # blank lines: only where the pre-parse is told about them (after the window) or trailing
        self.parselines = src.pick([25, 25, 25, 5, 10, 60, 1000])
        if self.parselines < len(self.header) + 1:
            self.parselines = len(self.header) + 1 + src.draw(3)
        self.tail_blank = src.draw(3) if src.chance(1, 5) else 0
        after = self.parselines - len(self.header)
        self.blanks = {}
        if like is None and not maxrows and len(self.body) > after and src.chance(1, 4):
            for _ in range(1 + src.draw(3)):
                self.blanks[after + src.draw(len(self.body) - after)] = 1 + src.draw(2)
        self.final_eol = not src.chance(1, 4)
        self.delivery = force_delivery or src.weighted([
            ('path', 5), ('textfile', 4), ('stringio', 2), ('bytesfile', 4), ('bytesio', 2), ('fdtext', 1),
            ('fdbytes', 1), ('ducktext', 1), ('rawfile', 1)])
        if self.is_bytes() and self.encoding == 'utf-16':
            self.encoding = 'utf-8'
        if (self.is_bytes() or self.delivery == 'stringio') and self.eol == '\r':
            self.eol = '\n'
        self.prefix = []
        if self.delivery != 'path' and src.chance(1, 3):
            self.prefix = [src.pick(['junk', '1 2 3', '', 'x;y;z', '9' * 40]) for _ in range(1 + src.draw(3))]
        self.usecols = None
        self.opts = {}
        if src.chance(1, 4):
            chosen = src.subset(range(self.ncols)) or [src.draw(self.ncols)]
            if src.chance(1, 2):
                chosen = src.shuffle(chosen)
            self.usecols = sorted(chosen)
            if len(chosen) == 1 and src.chance(1, 2):
                self.opts['usecols'] = chosen[0]
            else:
                self.opts['usecols'] = list(chosen)
        if src.chance(1, 5):
            self.opts['debug'] = True
        self.conv, self.given = {}, None
        if like is None and src.chance(1, 6):
            self.overrides(src)
        if self.parselines != 25:
            self.opts['parselines'] = self.parselines
        # the preferred encoding is utf-8 here (check.sh sets the locale)
        self.pass_encoding = self.encoding not in ('utf-8', 'ascii') or src.chance(1, 2)
        if like is not None:
            # another file that the same call could be made on
            self.opts = dict(like.opts)
            self.pass_encoding = like.pass_encoding
            self.usecols = None
            if like.usecols is not None:
                self.usecols = sorted(like.usecols)
            self.parselines = like.parselines
            self.conv, self.given = like.conv, like.given
            self.like = like
        self.content = self.encode()

    def overrides(self, src):
        """Arguments for textpack that replace what would be derived."""
        d = None
        if self.ncols > 1:
            d = self.sep()
            d = d.strip() if d.strip() else d
        if src.chance(1, 3):
            self.opts['delimiter'] = d
        if src.chance(1, 3):
            self.opts['skiprows'] = len(self.header)
        if src.chance(1, 3):
            chosen = src.subset(range(self.ncols)) or [0]
            self.conv = {c: src.pick(['orzero', 'len', 'none']) for c in chosen}
            self.opts['converters'] = self.conv
        if src.chance(1, 3):
            chosen = src.subset(range(self.ncols)) or [0]
            self.given = {c: 'given%d' % c for c in (src.shuffle(chosen) if src.chance(1, 2) else chosen)}
            self.opts['names'] = self.given
            self.usecols = sorted(chosen)
        if src.chance(1, 3):
            self.opts['stripstrings'] = True

    def fits(self):
        like = self.like
        if 'skiprows' in like.opts and len(self.header) != len(like.header):
            return False
        if 'delimiter' in like.opts and self.sep().strip() != like.sep().strip():
            return False
        if 'delimiter' in like.opts and (self.ncols > 1) != (like.ncols > 1):
            return False
        if 'delimiter' in like.opts and not like.sep().strip() and self.sep() != like.sep():
            return False
        if self.conv and max(self.conv) >= self.ncols:
            return False
        return (self.parselines > len(self.header) and
                (self.usecols is None or max(self.usecols) < self.ncols))

    def num(self, src, full=True):
        s = number(src, '.')
        # plain decimals only; exponent forms are allowed, bare '.5' and '5.' too
        if self.sepkind in (',', ', '):
            # ambiguous with decimal comma unless a point is always present
            if '.' not in s:
                s = '%d.%d' % (src.draw(100), src.draw(100))
        if self.dec == ',' and '.' not in s:
            # every row must show the decimal comma
            s = s.replace('e', '.0e') if 'e' in s else s + '.%d' % src.draw(100)
        if self.dec == ',' or ',' in self.sepkind:
            # ',5' and '5,' are ambiguous with a comma that separates
            if not full and src.chance(1, 6):
                i, f = s.split('.', 1)
                if i in ('', '0', '-0') and f and f[0].isdigit():
                    s = i.rstrip('0') + '.' + f
                elif self.dec == ',' and 'e' not in f:
                    s = (i or '0') + '.'
                else:
                    full = True
            else:
                full = True
            if full and s[0] == '.':
                s = '0' + s
            if full and s[-1] == '.':
                s = s + '0'
        return s.replace('.', self.dec)

    def line(self, src, row):
        if self.sepkind == 'spaces':
            return self.indent + '   '.join(row) + self.trail
        return self.sepkind.join(row) + self.trail

    def sep(self):
        return '   ' if self.sepkind == 'spaces' else self.sepkind

    def header_lines(self, src):
        n = src.draw(6) if src.chance(2, 3) else 0
        if src.chance(1, 40):
            n = src.pick([23, 24, 12, 40])      # up to and past what is pre-parsed by default
        h = [src.pick(LAZY_HEADER_WORDS) for _ in range(n)]
        self.colnames = {}
        if src.chance(1, 2):
            names = [src.pick(LAZY_NAMES) + 'abcdefg'[c] for c in range(self.ncols)]
            h.append(self.indent + self.sep().join(names) + self.trail)
            self.colnames = dict(enumerate(names))
        else:
            # no header line may look like a line of names
            h = [x for x in h if not self.looks_like_names(x)]
        self.header = h

    def looks_like_names(self, x):
        if self.ncols == 1:
            # one column: the derived delimiter is None, a single word would do
            f = x.split()
        else:
            d = self.sep()
            d = d.strip() if d.strip() else d
            f = [q for q in x.split(d) if q.strip()]
        return len(f) == self.ncols

    def is_bytes(self):
        return self.delivery in ('bytesfile', 'bytesio', 'fdbytes', 'rawfile')

    def text(self):
        body = self.body
        if self.blanks:
            body = []
            for i, line in enumerate(self.body):
                body += [''] * self.blanks.get(i, 0) + [line]
        t = self.eol.join(self.header + body + [''] * self.tail_blank)
        if self.final_eol:
            t += self.eol
        return t

    def encode(self):
        return (''.join(p + self.eol for p in self.prefix) + self.text()).encode(self.encoding)

    def expected(self):
        use = self.usecols if self.usecols is not None else list(range(self.ncols))
        cols = {c: [CONVERTERS[self.conv[c]][0](r[c]) if c in self.conv else fval(r[c]) for r in self.rows] for c in use}
        names = {c: n for c, n in self.colnames.items() if c in use}
        return cols, dict(self.given) if self.given else names

    def kwargs(self, conv_wrap=None):
        o = dict(self.opts)
        if 'usecols' in o and isinstance(o['usecols'], list):
            o['usecols'] = list(o['usecols'])
        if self.pass_encoding:
            o['encoding'] = self.encoding
        if 'converters' in o:
            o['converters'] = {c: (conv_wrap(CONVERTERS[n][0]) if conv_wrap else CONVERTERS[n][0])
                               for c, n in o['converters'].items()}
        if 'names' in o:
            o['names'] = dict(o['names'])
        if self.is_bytes() and o.get('delimiter') is not None:
            o['delimiter'] = o['delimiter'].encode(self.encoding)
        return o

    def describe(self):
        return {'factory': self.factory, 'delivery': self.delivery, 'encoding': self.encoding, 'eol': self.eol,
                'prefix_lines': len(self.prefix), 'opts': {k: repr(v) for k, v in self.opts.items()},
                'text': self.text()[:400], 'rows': self.nrows, 'cols': self.ncols}
