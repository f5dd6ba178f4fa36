"""Ground-truth generator: dbf files."""
import datetime
import struct


class DbfCase(object):
    factory = 'dbfpack'

    def __init__(self, src, maxrows=None, force_delivery=None, nodeleted=False, minrows=0, nonames=False, long_ok=False):
        self.ncols = src.size(1, 8)
        fields = []
        for c in range(self.ncols):
            typ = src.weighted([('N', 4), ('C', 4), ('D', 2), ('L', 2), ('F', 2), ('Nd', 3), ('M', 1)])
            if typ == 'C':
                size, deci = 1 + src.draw(20), 0
                if src.chance(1, 20):
                    size = 254
            elif typ == 'N':
                size, deci = 1 + src.draw(12), 0
                if src.chance(1, 8):
                    size = 13 + src.draw(8)
            elif typ == 'Nd':
                size, deci = 6 + src.draw(10), 1 + src.draw(3)
            elif typ == 'F':
                size, deci = 8 + src.draw(10), src.draw(4)
            elif typ == 'D':
                size, deci = 8, 0
            elif typ == 'L':
                size, deci = 1, 0
            else:
                size, deci = 10, 0
            name = src.pick(['ID', 'TIME', 'V', 'SPEED', 'NAME', 'X_1', 'ABCDEFGHIJ']) + str(c)
            name = name[-10:]
            if src.chance(1, 12):
                name = name[:8] + src.pick([' ', '  ', '_'])
            elif src.chance(1, 12):
                name = name.lower()
            fields.append((name, typ, size, deci))
        if self.ncols > 1 and src.chance(1, 10):
            # two fields of the same name
            a, b = 0, 1 + src.draw(self.ncols - 1)
            fields[b] = (fields[a][0],) + fields[b][1:]
        self.fields = fields
        if maxrows:
            n = src.between(minrows or 1, maxrows)
        else:
            n = src.size(minrows, 40)
            if src.chance(1, 12):
                n = src.between(60, 300)
        self.records = []
        delrate = 0 if nodeleted else src.pick([0, 1, 3, 6])
        for r in range(n):
            deleted = delrate and src.chance(delrate, 8)
            raws, vals = [], []
            for f in fields:
                raw, val = self.value(src, f)
                raws.append(raw)
                vals.append(val)
            self.records.append((bool(deleted), raws, vals))
        if n and long_ok and src.chance(1, 100):
            # the same records over again, in another order
            most = src.pick([1030, 257, 4097, 10001])
            if self.ncols <= 4 and src.chance(1, 8):
                most = 65536 + src.draw(4)
            for r in range(n, most):
                self.records.append(self.records[(r * 7) % n])
        self.extra_header = 0
        self.eofmark = src.chance(3, 4)
        names = None
        if not nonames and src.chance(1, 2):
            allnames = [f[0] for f in fields]
            chosen = src.subset(allnames) or [src.pick(allnames)]
            if src.chance(1, 2):
                chosen = src.shuffle(chosen)
            if src.chance(1, 6):
                # names the file does not have, some nearly one it has
                near = src.pick(chosen)
                for extra in [src.pick(['', 'OTHER', near + 'X', near[:-1], near.swapcase(), near + ' ', near.strip() + '  '])]:
                    if extra not in allnames:
                        chosen = chosen + [extra]
                        if src.chance(1, 2):
                            chosen = src.shuffle(chosen)
            names = chosen
        self.names = names
        self.names_form = src.draw(3)
        self.delivery = force_delivery or src.weighted([('path', 5), ('bytesfile', 4), ('bytesio', 2), ('fdbytes', 1)])
        self.prefix = b''
        if self.delivery != 'path' and src.chance(1, 3):
            self.prefix = bytes(bytearray(src.draw(256) for _ in range(1 + src.draw(40))))
        self.content = self.prefix + self.encode()

    def value(self, src, f):
        name, typ, size, deci = f
        if typ == 'C':
            n = src.between(0, size)
            s = ''.join(src.pick('abcXYZ 019_-.') for _ in range(min(n, 24)))
            if not src.chance(1, 4):
                s = s.lstrip()
            s = s + ' ' * (size - len(s))
            return s.encode('ascii'), s
        if typ == 'M':
            s = src.pick(['          ', '0000000001', '        12'])
            return s.encode('ascii'), s
        if typ == 'N':
            if src.chance(1, 8):
                return src.pick([b' ' * size, b'\0' * size]), float('nan')
            v = src.draw(10 ** min(size, 7))
            if size > 12 and src.chance(1, 2):
                # whole numbers a float does not hold
                v = (v + 1) * 10 ** (min(size, 18) - 8) + src.draw(1000)
            s = '%d' % v
            if size > 1 and len(s) < size and src.chance(1, 4):
                s = '-' + s
            s = s.rjust(size)
            if src.chance(1, 10):
                s = s.strip().ljust(size)          # left justified, trailing blanks
            return s.encode('ascii'), int(s)
        if typ in ('Nd', 'F'):
            if src.chance(1, 8):
                # blank F is nan; NUL-filled only for N
                return (b' ' * size), float('nan')
            v = (src.draw(20000) - 5000) / 8.0
            s = ('%.*f' % (deci, v))[:size].rjust(size)
            return s.encode('ascii'), float(s)
        if typ == 'D':
            if src.chance(1, 8):
                return b' ' * 8, None
            if src.chance(1, 12):
                d = src.pick([datetime.date(2000, 2, 29), datetime.date(1582, 10, 15), datetime.date(9999, 12, 31),
                              datetime.date(1, 1, 1), datetime.date(1899, 12, 31), datetime.date(2024, 12, 31)])
                return ('%04d%02d%02d' % (d.year, d.month, d.day)).encode('ascii'), d
            d = datetime.date(1900 + src.draw(200), 1 + src.draw(12), 1 + src.draw(28))
            return d.strftime('%Y%m%d').rjust(8, '0').encode('ascii'), d
        if typ == 'L':
            c = src.pick('YyTtNnFf? ')
            return c.encode('ascii'), ('T' if c in 'YyTt' else 'F' if c in 'NnFf' else '?')

    def header(self, numrec):
        lenheader = 33 + 32 * self.ncols
        reclen = 1 + sum(f[2] for f in self.fields)
        h = struct.pack('<BBBBLHH20x', 3, 120, 1, 2, numrec, lenheader, reclen)
        for name, typ, size, deci in self.fields:
            h += struct.pack('<11sc4xBB14x', name.encode('ascii'), typ[:1].encode('ascii'), size, deci)
        return h + b'\r'

    def record_bytes(self, rec):
        d, raws, _ = rec
        return (b'*' if d else b' ') + b''.join(raws)

    def encode(self):
        b = [self.header(len(self.records))]
        b += [self.record_bytes(rec) for rec in self.records]
        if self.eofmark:
            b.append(b'\x1a')
        return b''.join(b)

    def chosen(self):
        if not self.names:
            return list(range(self.ncols))
        return [i for i, f in enumerate(self.fields) if f[0] in self.names]

    def expected(self, nrec=None):
        live = [v for d, _, v in self.records[:nrec] if not d]
        cols = {}
        if live:
            for c in self.chosen():
                cols[c] = [v[c] for v in live]
        names = {c: self.fields[c][0] for c in self.chosen()}
        return cols, names

    def is_bytes(self):
        return True

    def kwargs(self, conv_wrap=None):
        if not self.names:
            return {}
        n = list(self.names)
        return {'names': n if self.names_form == 0 else tuple(n) if self.names_form == 1 else list(n)}

    def describe(self):
        return {'factory': 'dbfpack', 'delivery': self.delivery, 'prefix_bytes': len(self.prefix),
                'fields': self.fields, 'records': len(self.records),
                'deleted': [i for i, r in enumerate(self.records) if r[0]][:40], 'names': self.names}
