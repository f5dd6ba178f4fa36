"""Ground-truth generators: workbooks stored as xlsx or xls (BIFF8/BIFF5 in OLE2,
BIFF4/BIFF3/BIFF2 bare streams), with seeded container layouts.

A cell is (kind, value): ('n', float) number, ('t', str) text, ('d', float) date
serial, ('b', bool), ('e', code), None empty, ('x', None) formatted blank.
"""
import datetime
import io
import struct
import zipfile
from xml.sax.saxutils import escape, quoteattr

ERRS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}
TEXTS = ['abc', 'Speed', 'x y', ' lead', 'trail ', 'a&b<c>"d\'', '0012', 'nan', 'TRUE', '#N/A', 'line1\nline2', '-', '1.5']
LATIN = ['åäö', 'm²', 'ÿ', '°C']
WIDE = ['漢字', 'Ωhm', 'ж', '№']
NBSP = ['\u00a0', '\u00a0x', 'x\u00a0', '\u2003y']    # no space to XML
ASTRAL = ['😀x', '𝄞']
DATEFMTS = [('b', 14), ('b', 15), ('b', 22), ('b', 20), ('b', 46), ('c', 'yyyy-mm-dd'), ('c', 'dd/mm/yy hh:mm'), ('c', 'h:mm:ss'),
            ('b', 16), ('b', 18), ('b', 21), ('b', 45), ('b', 47), ('c', '[$-409]d\\-mmm\\-yy;@'), ('c', 'hh"h "mm"min"'), ('c', 'YYYY/MM/DD'),
            ('c', '[Blue]dd.mm'), ('c', 'mm:ss')]
NUMFMTS = [('b', 0), ('b', 1), ('b', 2), ('b', 4), ('b', 9), ('b', 11), ('c', '0.000'), ('c', '#,##0.00'),
           ('b', 3), ('b', 10), ('b', 12), ('b', 37), ('b', 40), ('b', 48), ('c', '0.0" days"'), ('c', '[Red]-#,##0;0'), ('c', '0.00\\m'), ('c', '#,##0_s'),
           ('c', 'General'), ('c', '[$kr-41D] 0.00'), ('c', '0*d')]
# encodings of the versions before BIFF8: CODEPAGE record, python codec, words
CODEPAGES = [(1252, 'cp1252', LATIN), (None, 'latin-1', LATIN), (1251, 'cp1251', ['\u0416\u0430\u0440', '\u0442\u0435\u0441\u0442']),
             (1250, 'cp1250', ['\u0159ada', '\u017elu\u0165']), (10000, 'mac_roman', ['\u00e5\u00e4', '\u00fc']), (32769, 'cp1252', ['\u00e9', '\u00b0C']),
             (932, 'cp932', ['\u6f22\u5b57', '\u30c6\u30b9\u30c8']), (437, 'cp437', ['\u00e5\u00e4', '\u2592'])]
ESCAPED = ['_x0041_', 'a_x000d_b', '_x005F_', '__', '_x12', 'two\r\nlines', 'tab\tx']


def colletters(c):
    s = ''
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


def addr(r, c):
    return colletters(c) + str(r + 1)


class SheetModel(object):
    def __init__(self, name, cells):
        self.name = name
        self.cells = cells            # dict (r, c) -> cell
        real = [k for k, v in cells.items() if v is not None and v[0] != 'x']
        self.nrows = 1 + max([r for r, _ in real] or [-1])
        self.ncols = 1 + max([c for _, c in real] or [-1])

    def get(self, r, c):
        v = self.cells.get((r, c))
        if v is None or v[0] == 'x':
            return None
        return v


def gen_number(src):
    k = src.draw(8)
    if k == 7:
        return src.pick([0.0, 0.01, 0.29, 1.15, 536870911.0, 536870912.0, -536870912.0, -536870913.0, 5368709.11, -5368709.12, 1e305, 5e-324,
                         9007199254740993.0, 123456789012345680.0, 1e15, 1e16, -1e-7, 65535.0])
    if k == 0:
        return float(src.draw(1000))
    if k == 1:
        return src.draw(100000) / 100.0
    if k == 2:
        return -src.draw(10000) / 8.0
    if k == 3:
        return src.draw(10 ** 6) * 1e9 + 0.5
    if k == 4:
        return src.draw(10 ** 9) / 7.0
    if k == 5:
        return -float(src.draw(2 ** 29))
    return 1.0 / (1 + src.draw(1000)) * 1e-20


def gen_text(src, wide=True, long_ok=False, latin=LATIN):
    pools = [TEXTS]
    if latin:
        pools.append(latin)
    if wide:
        pools += [WIDE, ASTRAL]
    if src.chance(1, 30):
        pools = [ESCAPED + (NBSP if wide else [])]
    s = src.pick(src.pick(pools))
    if src.chance(1, 4):
        s = s + src.pick(TEXTS)
    if long_ok and src.chance(1, 6):
        s = (s + 'q') * (1 + src.draw(600))
        s = s[:9000]
    return s


def gen_sheet(src, name, wide=True, small=False, types=None, latin=LATIN, long_ok=False, textlimit=None, maxrows=65536, maxcols=256):
    nrows = src.size(1, 8) if small else src.size(2, 26)
    ncols = src.size(1, 6) if small else src.size(1, 9)
    if not small and src.chance(1, 14):
        ncols = src.between(24, 32)
    r0 = src.draw(4) if src.chance(1, 3) else 0
    c0 = src.draw(3) if src.chance(1, 3) else 0
    tall = 0
    if not small and src.chance(1, 60):
        # far down, far to the right, or long
        k = src.draw(3)
        if k == 0:
            r0 = min(src.pick([250, 1020, 4090, 16380, 32760, 65530, 69990]), maxrows - nrows - 1)
            ncols = min(ncols, 4)
        elif k == 1:
            c0 = min(src.pick([25, 250, 254, 700, 16380]), maxcols - ncols)
            nrows = min(nrows, 5)
        else:
            ncols = min(ncols, 4)
            tall = src.pick([64, 128, 255, 256, 512, 1030, 2100])
            long_ok = False
    types = types or ['n', 't', 'd', 'b', 'mix', 'n', 'e']
    coltypes = [src.pick(types) for _ in range(ncols)]
    cells = {}
    for c in range(ncols):
        t = coltypes[c]
        # header cell
        if src.chance(7, 8):
            h = ('t', gen_text(src, wide, latin=latin) + str(c))
        elif src.chance(1, 2):
            h = ('n', float(src.draw(100)))
        else:
            h = None
        cells[(r0, c0 + c)] = h
        for r in range(1, nrows + 1):
            k = t
            if t == 'mix':
                k = src.pick(['n', 't', 'd', 'b'])
            if src.chance(1, 8):
                k = src.pick(['-', '-', 'x', 'e'])
            if k == 'n':
                v = ('n', gen_number(src))
            elif k == 't':
                v = ('t', gen_text(src, wide, long_ok=long_ok, latin=latin))
                if src.chance(1, 24):
                    v = ('t', '')       # text of no characters, not an empty cell
            elif k == 'd':
                v = ('d', 61 + src.draw(60000) + src.draw(64) / 64.0)
                if src.chance(1, 8):
                    # around the leap day of 1900 that never was, or a time of day
                    v = ('d', src.draw(60) + src.draw(64) / 64.0)
                elif src.chance(1, 8):
                    v = ('d', 61 + src.draw(60000) + src.draw(86400000) / 86400000.0)
            elif k == 'b':
                v = ('b', src.chance(1, 2))
            elif k == 'e':
                v = ('e', src.pick(sorted(ERRS)))
            elif k == 'x':
                v = ('x', None)
            else:
                v = None
            cells[(r0 + r, c0 + c)] = v
    for r in range(nrows + 1, tall + 1):
        for c in range(ncols):
            cells[(r0 + r, c0 + c)] = cells[(r0 + 1 + (r * 7) % nrows, c0 + c)]
    nrows = max(nrows, tall)
    last = (r0 + nrows, c0 + ncols - 1)
    if cells.get(last) is None or cells[last][0] == 'x':
        cells[last] = ('n', 7.0)
    if cells.get((r0, c0)) is None:
        cells[(r0, c0)] = ('t', 'first')
    if textlimit:
        for k, v in list(cells.items()):
            if v is not None and v[0] == 't':
                cells[k] = ('t', v[1][:textlimit])
    m = SheetModel(name, cells)
    m.r0, m.c0 = r0, c0
    return m


def date_value(serial, datemode):
    epoch = datetime.datetime(1904, 1, 1) if datemode else datetime.datetime(1899, 12, 30)
    if not datemode and serial < 60:
        epoch = datetime.datetime(1899, 12, 31)
    days = int(serial)
    ms = int(round((serial - days) * 86400000))
    return epoch + datetime.timedelta(days=days, milliseconds=ms)


def column_values(sheet, c, r_from, r_to, datemode):
    cells = [sheet.get(r, c) for r in range(r_from, r_to + 1)]
    kinds = set(v[0] for v in cells if v is not None and v[0] != 'e')
    miss = lambda v: v is None or v[0] == 'e'
    if kinds <= {'n'}:
        return [float('nan') if miss(v) else v[1] for v in cells]
    if kinds <= {'t'}:
        return ['' if miss(v) else v[1] for v in cells]
    out = []
    for v in cells:
        if miss(v):
            out.append(None)
        elif v[0] == 'd':
            out.append(date_value(v[1], datemode))
        else:
            out.append(v[1])
    return out


# ------------------------------------------------------------------ xlsx
class XlsxWriter(object):
    def __init__(self, src, sheets, datemode):
        self.src = src
        self.sheets = sheets
        self.datemode = datemode
        self.sst = []
        self.sstidx = {}
        self.filler = 0
        self.members = []

    def esc(self, s):
        """XML text of s, in the spreadsheet way (_x000D_)."""
        import re
        s = re.sub('_(?=x[0-9A-Fa-f]{4}_)', '_x005F_', s)
        return escape(s).replace('\r', '_x000D_')

    def esc_name(self, s):
        """A sheet name with a character escaped as _xHHHH_."""
        import re
        s = re.sub('_(?=x[0-9A-Fa-f]{4}_)', '_x005F_', s)
        if s and '_' not in s and self.src.chance(1, 10):
            i = self.src.draw(len(s))
            if ord(s[i]) < 0x10000:
                s = s[:i] + self.src.pick(['_x%04X_', '_x%04x_']) % ord(s[i]) + s[i + 1:]
        return s

    def string_cell(self, s, ref):
        src = self.src
        k = src.weighted([('s', 6), ('inline', 1), ('str', 1)])
        if not s and k == 'inline':
            k = 's'
        if k == 's':
            if s not in self.sstidx or src.chance(1, 10):
                self.sstidx[s] = self.filler + len(self.sst)
                self.sst.append(s)
            return '<c%s t="s">%s<v>%d</v></c>' % (ref, '<f>A1</f>' if src.chance(1, 12) else '', self.sstidx[s])
        t = '<t xml:space="preserve">%s</t>' % self.esc(s)
        if k == 'inline' and s == s.strip('\t\n \r') and '_' not in s and '\r' not in s and src.chance(1, 8):
            return '<c%s t="inlineStr"><v>%s</v></c>' % (ref, escape(s))
        if k == 'inline':
            return '<c%s t="inlineStr"><is>%s</is></c>' % (ref, t)
        sp = ' xml:space="preserve"' if s != s.strip('\t\n \r') else ''
        return '<c%s t="str">%s<v%s>%s</v></c>' % (ref, '' if src.chance(1, 4) else '<f>A1</f>', sp, self.esc(s))

    def ref(self, r, c):
        if self.refstyle == 1:
            return addr(r, c).lower()
        if self.refstyle == 2:
            return '$%s$%d' % (colletters(c), r + 1)
        return addr(r, c)

    def sheet_xml(self, sh):
        src = self.src
        self.refstyle = src.draw(3) if src.chance(1, 8) else 0
        out = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
               '<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main">']
        if src.chance(2, 3):
            out.append('<dimension ref="A1:%s"/>' % addr(sh.nrows - 1, sh.ncols - 1) if sh.nrows else '<dimension ref="A1"/>')
        if src.chance(1, 4):
            out.append('<sheetViews><sheetView tabSelected="1" workbookViewId="0"><pane ySplit="1" topLeftCell="A2"/>'
                       '<selection activeCell="C3" sqref="C3"/></sheetView></sheetViews><sheetFormatPr defaultRowHeight="15"/>'
                       '<cols><col min="1" max="2" width="9.1" style="1" hidden="1"/></cols>')
        out.append('<sheetData>')
        rows = {}
        for (r, c), v in sh.cells.items():
            if v is not None:
                rows.setdefault(r, {})[c] = v
        norefs = src.chance(1, 8) and all(
            sorted(rows[r]) == list(range(len(rows[r]))) for r in rows) and sorted(rows) == list(range(len(rows)))
        rorder = sorted(rows)
        if not norefs and src.chance(1, 12):
            rorder = src.shuffle(rorder)
        lazyrefs = src.chance(1, 8)     # references only where needed
        ws = src.pick(['\n  ', '\n', ' ']) if src.chance(1, 6) else ''
        prev = -1
        for r in rorder:
            implicit = norefs or (lazyrefs and r == prev + 1)
            prev = r
            out.append(ws + ('<row>' if implicit else '<row r="%d"%s>' % (r + 1, ' spans="1:3" ht="15"' if src.chance(1, 8) else '')))
            corder = sorted(rows[r])
            if not norefs and src.chance(1, 12):
                corder = src.shuffle(corder)
            pc = -1
            for c in corder:
                k, v = rows[r][c]
                ref = '' if norefs or (lazyrefs and c == pc + 1) else ' r="%s"' % self.ref(r, c)
                pc = c
                if ws:
                    out.append(ws)
                f = '<f>SUM(1,2)</f>' if src.chance(1, 10) else ''
                if k == 'n':
                    st = ' s="%d"' % src.pick(self.numxf) if src.chance(1, 2) else ''
                    txt = repr(v)
                    if v == int(v) and abs(v) < 1e15 and src.chance(1, 2):
                        txt = '%d' % v
                    elif src.chance(1, 12):
                        txt = '%.40g' % v       # more digits than anyone needs
                        assert float(txt) == v
                    tt = ' t="n"' if src.chance(1, 6) else ''
                    out.append('<c%s%s%s>%s<v>%s</v></c>' % (ref, st, tt, f, txt))
                elif k == 'd':
                    out.append('<c%s s="%d">%s<v>%s</v></c>' % (ref, src.pick(self.datexf), f, repr(v)))
                elif k == 't':
                    out.append(self.string_cell(v, ref))
                elif k == 'b':
                    out.append('<c%s t="b">%s<v>%s</v></c>' % (ref, f, ('%d' % v if src.chance(3, 4) else ('false', 'true')[v])))
                elif k == 'e':
                    if v == 0x2A and src.chance(1, 4):
                        out.append('<c%s t="e">%s</c>' % (ref, f))
                    else:
                        out.append('<c%s t="e">%s<v>%s</v></c>' % (ref, f, ERRS[v]))
                elif k == 'x':
                    out.append(src.pick(['<c%s s="0"/>', '<c%s t="s"/>', '<c%s t="inlineStr"/>', '<c%s s="0"><f>B9</f></c>']) % ref)
            out.append(ws + '</row>')
        out.append('</sheetData>')
        if not rows and src.chance(1, 2):
            out[-2:] = ['<sheetData/>']
        if src.chance(1, 8):
            out.append('<mergeCells count="1"><mergeCell ref="A1:%s"/></mergeCells>' % addr(src.draw(sh.nrows), src.draw(sh.ncols)))
        if src.chance(1, 4):
            out.append(src.pick(['<conditionalFormatting sqref="A1:A9"><cfRule type="cellIs" priority="1"><formula>1</formula></cfRule></conditionalFormatting>',
                                 '<dataValidations count="1"><dataValidation type="list" sqref="B2"><formula1>"a,b"</formula1></dataValidation></dataValidations>',
                                 '<hyperlinks><hyperlink ref="A1" location="Sheet1!A1" display="row"/></hyperlinks>', '<phoneticPr fontId="1"/>', '']))
            out.append('<pageMargins left="0.7" right="0.7" top="0.75" bottom="0.75" header="0.3" footer="0.3"/>')
            out.append(src.pick(['', '<headerFooter><oddHeader>&amp;C1</oddHeader></headerFooter>']))
        out.append('</worksheet>')
        x = ''.join(out)
        if src.chance(1, 10):
            x = self.prefixed(x)
        return x

    def prefixed(self, x):
        """The same document with its elements under a namespace prefix."""
        import re
        x = re.sub(r'<(/?)([a-zA-Z])', r'<\1x:\2', x)
        return x.replace(' xmlns="', ' xmlns:x="', 1)

    def styles_xml(self):
        src = self.src
        custom = {}
        over = src.shuffle([17, 19, 39, 49])     # not in the lists above
        xfs = [0]
        self.numxf, self.datexf = [0], []
        for pool, tgt in ((src.subset(NUMFMTS), self.numxf), (src.subset(DATEFMTS) or [('b', 14)], self.datexf)):
            for kind, v in pool:
                if kind == 'c':
                    nid = 164 + len(custom)
                    if over and src.chance(1, 6):
                        nid = over.pop()    # a built-in number given another format
                    custom[nid] = v
                else:
                    nid = v
                tgt.append(len(xfs))
                xfs.append(nid)
        if any(v is not None and v[0] == 'd' for sh in self.sheets for v in sh.cells.values()) or not src.chance(1, 4):
            self.nostyles = False
        else:
            self.nostyles = True
            self.numxf = [0]
        out = ['<?xml version="1.0" encoding="UTF-8"?><styleSheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main">']
        if custom:
            out.append('<numFmts count="%d">' % len(custom))
            for nid, code in custom.items():
                out.append('<numFmt numFmtId="%d" formatCode=%s/>' % (nid, quoteattr(code)))
            out.append('</numFmts>')
        n = src.pick([1, 1, 2, 40])
        out.append('<cellStyleXfs count="%d">%s</cellStyleXfs>' % (n, '<xf numFmtId="14"/>' * n))
        out.append('<cellXfs count="%d">' % len(xfs))
        for nid in xfs:
            if nid == 0 and src.chance(1, 4):
                out.append('<xf/>')
            else:
                out.append('<xf numFmtId="%d" xfId="0"/>' % nid)
        out.append('</cellXfs></styleSheet>')
        return ''.join(out)

    def workbookpr(self):
        src = self.src
        if self.datemode:
            return '<workbookPr date1904="%s"/>' % ('1' if src.chance(1, 2) else 'true')
        return src.pick(['<workbookPr/>', '', '<workbookPr date1904="0"/>', '<workbookPr date1904="false"/>'])

    def build(self):
        src = self.src
        styles = self.styles_xml()
        R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
        rels, shx = [], []
        sheetfiles = []
        order = src.shuffle(range(len(self.sheets))) if src.chance(1, 3) else list(range(len(self.sheets)))
        for i, sh in enumerate(self.sheets):
            fn = 'xl/worksheets/sheet%d.xml' % (order[i] + 1)
            tgt = '/' + fn if src.chance(1, 5) else fn[3:]
            if src.chance(1, 20):
                # elsewhere in the package
                fn = src.pick(['tables/s%d.xml', 'xl/s%d.xml', 'xl/worksheets/a/s%d.xml']) % i
                tgt = '/' + fn
            rels.append('<Relationship Id="rId%d" Type="%s/worksheet" Target="%s"/>' % (i + 1, R, tgt))
            if src.chance(1, 10):
                # a sheet that is a chart, not counted
                rels.append('<Relationship Id="rIdc%d" Type="%s/chartsheet" Target="chartsheets/sheet1.xml"/>' % (i, R))
                shx.append('<sheet name="Chart%d" sheetId="%d" r:id="rIdc%d"/>' % (i, 50 + i, i))
            state = ' state="%s"' % src.pick(['visible', 'hidden', 'veryHidden']) if src.chance(1, 8) else ''
            shx.append('<sheet name=%s sheetId="%d"%s r:id="rId%d"/>' % (quoteattr(self.esc_name(sh.name)), (i * 7) % 40 + 1, state, i + 1))
            sheetfiles.append((fn, self.sheet_xml(sh)))
        rels.append('<Relationship Id="rId90" Type="%s/styles" Target="styles.xml"/>' % R)
        rels.append('<Relationship Id="rId91" Type="%s/sharedStrings" Target="sharedStrings.xml"/>' % R)
        if src.chance(1, 3):
            rels = src.shuffle(rels)
        wb = ('<?xml version="1.0" encoding="UTF-8"?><workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" '
              'xmlns:r="%s">%s<sheets>%s</sheets>%s</workbook>'
              % (R, self.workbookpr(), ''.join(shx),
                 '<definedNames><definedName name="Area" localSheetId="0">A1:B2</definedName></definedNames>' if src.chance(1, 8) else ''))
        relx = ('<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">'
                + ''.join(rels) + '</Relationships>')
        sst = ['<?xml version="1.0" encoding="UTF-8"?><sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="%d">'
               % (self.filler + len(self.sst))]
        sst.append('<si><t>f</t></si>' * self.filler)
        for s in self.sst:
            pho = '<rPh sb="0" eb="1"><t>phonetic</t></rPh><phoneticPr fontId="1"/>' if src.chance(1, 12) else ''
            if len(s) > 1 and '_' not in s and src.chance(1, 6):
                cut = 1 + src.draw(len(s) - 1)
                sst.append('<si><r><t xml:space="preserve">%s</t></r><r><rPr><b/></rPr><t xml:space="preserve">%s</t></r>%s</si>'
                           % (self.esc(s[:cut]), self.esc(s[cut:]), pho))
            elif not s:
                sst.append('<si>%s</si>' % src.pick(['<t/>', '', '<t></t>']))
            elif s == s.strip('\t\n \r') and src.chance(1, 2):
                sst.append('<si><t>%s</t>%s</si>' % (self.esc(s), pho))
            else:
                sst.append('<si><t xml:space="preserve">%s</t>%s</si>' % (self.esc(s), pho))
        sst.append('</sst>')
        sst = ''.join(sst)
        if src.chance(1, 10):
            sst = self.prefixed(sst)
        mem = [('[Content_Types].xml', '<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'),
               ('_rels/.rels', '<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"/>'),
               ('xl/workbook.xml', wb), ('xl/_rels/workbook.xml.rels', relx)]
        if not self.nostyles:
            mem.append(('xl/styles.xml', styles))
        if self.sst or src.chance(1, 2):
            mem.append(('sharedStrings.xml' if src.chance(1, 12) else 'xl/sharedStrings.xml', sst))
        mem += sheetfiles
        for fn, _ in sheetfiles:
            if src.chance(1, 10):
                base = fn.rsplit('/', 1)[1]
                mem.append(('xl/worksheets/_rels/%s.rels' % base,
                            '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" '
                            'Type="%s/comments" Target="../comments_%s"/></Relationships>' % (R, base)))
                mem.append(('xl/comments_' + base,
                            '<comments xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><authors><author>a</author></authors>'
                            '<commentList><comment ref="A1" authorId="0"><text><t>note</t></text></comment></commentList></comments>'))
        if src.chance(1, 3):
            mem.append(('docProps/core.xml',
                        '<cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" '
                        'xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:creator>sim</dc:creator></cp:coreProperties>'))
        if src.chance(1, 6):
            mem.append(('xl/theme/theme1.xml', '<a:theme xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" name="Office"/>'))
            mem.append(('xl/calcChain.xml', '<calcChain><c r="A1" i="1"/></calcChain>'))
            mem.append(('xl/media/image1.png', 'PNG' * src.draw(500)))
        if src.chance(1, 2):
            # the first member must keep the PK\3\4 signature; any order will do
            mem = src.shuffle(mem)
        up = src.chance(1, 8)
        self.spans = []
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, 'w') as z:
            for name, txt in mem:
                zi = zipfile.ZipInfo(name.upper() if up and name.startswith('xl/') else name, (2020, 1, 1, 0, 0, 0))
                zi.compress_type = src.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])
                z.writestr(zi, txt.encode('utf-8'))
            if src.chance(1, 12):
                z.comment = b'made by the simulator'
            infos = list(z.infolist())
        data = bio.getvalue()
        for zi in infos:
            nl, el = struct.unpack('<HH', data[zi.header_offset + 26:zi.header_offset + 30])
            start = zi.header_offset + 30 + nl + el
            self.spans.append((zi.filename, start, start + zi.compress_size))
        return data


# ------------------------------------------------------------------ xls
def rec(code, data=b''):
    assert len(data) <= 8224, len(data)
    return struct.pack('<HH', code, len(data)) + data


def rk_encode(v):
    """4-byte RK for v, or None."""
    if v == int(v) and -2 ** 29 <= v < 2 ** 29:
        return struct.pack('<i', (int(v) << 2) | 2)
    p = struct.pack('<d', v)
    if p[:4] == b'\0\0\0\0' and not (p[4] & 3):
        return p[4:]
    h = round(v * 100)
    if h == int(h) and -2 ** 29 <= h < 2 ** 29 and int(h) / 100.0 == v:
        return struct.pack('<i', (int(h) << 2) | 3)
    return None


def ustr(s, lenlen=2):
    """BIFF8 unicode string, no rich text."""
    u = s.encode('utf-16-le')
    n = len(u) // 2
    head = struct.pack('<H' if lenlen == 2 else '<B', n)
    try:
        return head + b'\0' + s.encode('latin-1')
    except UnicodeEncodeError:
        return head + b'\1' + u


class BiffWriter(object):
    """Workbook stream for BIFF versions 80, 50, 40, 30, 21."""

    def __init__(self, src, sheets, datemode, version=80, codepage=(1252, 'cp1252')):
        self.src = src
        self.sheets = sheets
        self.datemode = datemode
        self.bv = version
        self.codepage, self.enc = codepage[:2]
        self.sst = []
        self.sstidx = {}
        self.nsst = 0
        self.filler = 0

    # ---- globals
    def formats(self):
        src = self.src
        xfs = [('b', 0)]
        self.numxf, self.datexf = [0], []
        for pool, tgt in ((src.subset(NUMFMTS), self.numxf), (src.subset(DATEFMTS) or [('b', 14)], self.datexf)):
            for f in pool:
                tgt.append(len(xfs))
                xfs.append(f)
        custom = {}
        keys = []
        for kind, v in xfs:
            if kind == 'c':
                k = 164 + len(custom)
                custom[k] = v
                keys.append(k)
            else:
                keys.append(v)
        out = b''
        for k, v in custom.items():
            if self.bv >= 80:
                out += rec(0x041E, struct.pack('<H', k) + ustr(v))
            else:
                b = v.encode('ascii')
                out += rec(0x041E, struct.pack('<HB', k, len(b)) + b)
        for k in keys:
            if self.bv >= 80:
                out += rec(0x00E0, struct.pack('<HHHBBBBIiH', 0, k, 1, 0, 0, 0, 0xFC, 0, 0, 0))
            else:
                out += rec(0x00E0, struct.pack('<HHHBbIiHH', 0, k, 1, 0, 0, 0, 0, 0, 0)[:16].ljust(16, b'\0'))
        return out

    def sst_records(self):
        src = self.src
        chunks = []
        cur = bytearray(struct.pack('<ii', self.nsst, self.filler + len(self.sst)))
        limit = src.pick([8224, 8224, 60, 200, 1000]) if self.sst else 8224
        for i in range(0, self.filler, 2000):
            cur += b'\x01\0\0f' * min(2000, self.filler - i)
            chunks.append(bytes(cur))
            cur = bytearray()

        def full(n):
            return len(cur) + n > limit
        for s in self.sst:
            u = s.encode('utf-16-le')
            nchars = len(u) // 2
            try:
                b8 = s.encode('latin-1')
            except UnicodeEncodeError:
                b8 = None
            rich = src.chance(1, 8)
            pho = src.chance(1, 12)
            opt = (0 if b8 is not None and not src.chance(1, 8) else 1)
            head = struct.pack('<HB', nchars, opt | (8 if rich else 0) | (4 if pho else 0))
            if rich:
                head += struct.pack('<H', 2)
            if pho:
                head += struct.pack('<i', 6)
            # the header and at least the first character stay together
            if full(len(head) + 2):
                chunks.append(bytes(cur))
                cur = bytearray()
            cur += head
            i = 0
            while i < nchars:
                room = limit - len(cur)
                if opt & 1:
                    k = min(room // 2, nchars - i)
                    # do not split a surrogate pair
                    if k and i + k < nchars and 0xD8 <= u[2 * (i + k) - 1] <= 0xDB:
                        k -= 1
                    cur += u[2 * i:2 * (i + k)]
                else:
                    k = min(room, nchars - i)
                    cur += b8[i:i + k]
                i += k
                if i < nchars:
                    chunks.append(bytes(cur))
                    cur = bytearray()
                    # width may change at a continuation
                    if b8 is not None and src.chance(1, 4):
                        opt ^= 1
                    cur += bytes([opt & 1])
            if rich:
                for run in ((0, 1), (1, 2)):
                    if full(4):
                        chunks.append(bytes(cur))
                        cur = bytearray()
                    cur += struct.pack('<HH', *run)
            if pho:
                if full(6):
                    k = limit - len(cur)
                    cur += b'PHONET'[:k]
                    chunks.append(bytes(cur))
                    cur = bytearray(b'PHONET'[k:])
                else:
                    cur += b'PHONET'
        chunks.append(bytes(cur))
        out = rec(0x00FC, chunks[0])
        for c in chunks[1:]:
            out += rec(0x003C, c)
        return out

    # ---- cells
    def text_bytes(self, s):
        return s.encode(self.enc)

    def cellrec(self, r, c, cell):
        src, bv = self.src, self.bv
        k, v = cell
        if bv == 21:
            return self.cellrec_b2(r, c, cell)
        xf = 0
        if k == 'n':
            xf = src.pick(self.numxf)
        elif k == 'd':
            xf = src.pick(self.datexf)
        pos = struct.pack('<HHH', r, c, xf)
        if k in 'nd':
            how = src.weighted([('number', 3), ('rk', 3), ('formula', 1)])
            rk = rk_encode(v)
            if how == 'rk' and rk:
                return rec(0x027E, pos + rk)
            if how == 'formula':
                return self.formula(pos, struct.pack('<d', v))
            return rec(0x0203, pos + struct.pack('<d', v))
        if k == 't':
            how = src.weighted([('sst', 5), ('label', 2), ('formula', 1), ('rstring', 1)])
            if bv < 80 and how == 'sst':
                how = 'label'
            if how != 'sst' and len(v) > 2000:
                how = 'sst' if bv >= 80 else 'label'
            if not v and how == 'formula':
                return self.formula(pos, b'\3\0\0\0\0\0\xff\xff')
            if bv < 50 and how == 'rstring':
                how = 'label'
            if how == 'sst':
                self.nsst += 1
                if v not in self.sstidx or src.chance(1, 10):
                    self.sstidx[v] = self.filler + len(self.sst)
                    self.sst.append(v)
                return rec(0x00FD, pos + struct.pack('<i', self.sstidx[v]))
            if bv >= 80:
                if how == 'rstring':
                    return rec(0x00D6, pos + ustr(v) + struct.pack('<HHH', 1, 0, 1))
                if how == 'formula':
                    s = ustr(v)
                    out = self.formula(pos, b'\0\0\0\0\0\0\xff\xff')
                    if len(v) > 3 and src.chance(1, 3):
                        # the string continues in a CONTINUE record
                        n = 1 + src.draw(len(v) - 1)
                        a, b = v[:n], v[n:]
                        d, first = b'', True
                        for part in (a, b):
                            w = 1 if not self.is_latin(part) or src.chance(1, 3) else 0
                            body = bytes([w]) + part.encode('utf-16-le' if w else 'latin-1')
                            if first:
                                body = struct.pack('<H', len(v.encode('utf-16-le')) // 2) + body
                            d += rec(0x0207 if first else 0x003C, body)
                            first = False
                        return out + d
                    return out + rec(0x0207, s)
                return rec(0x0204, pos + ustr(v))
            b = self.text_bytes(v)
            if how == 'rstring':
                return rec(0x00D6, pos + struct.pack('<H', len(b)) + b + struct.pack('<BBB', 1, 0, 1))
            if how == 'formula':
                return self.formula(pos, b'\0\0\0\0\0\0\xff\xff') + rec(0x0207, struct.pack('<H', len(b)) + b)
            return rec(0x0204, pos + struct.pack('<H', len(b)) + b)
        if k == 'b':
            if src.chance(1, 4):
                return self.formula(pos, bytes([1, 0, int(v), 0, 0, 0, 0xff, 0xff]))
            return rec(0x0205, pos + struct.pack('<BB', int(v), 0))
        if k == 'e':
            if src.chance(1, 4):
                return self.formula(pos, bytes([2, 0, v, 0, 0, 0, 0xff, 0xff]))
            return rec(0x0205, pos + struct.pack('<BB', v, 1))
        if k == 'x':
            return rec(0x0201, pos)

    def is_latin(self, s):
        try:
            s.encode('latin-1')
            return True
        except UnicodeEncodeError:
            return False

    def formula(self, pos, result):
        code = {80: 0x0006, 50: 0x0006, 45: 0x0406, 40: 0x0406, 30: 0x0206}[self.bv]
        if self.bv >= 50:
            out = rec(code, pos + result + struct.pack('<HIH', 0, 0, 3) + b'\x1e\x01\x00')
        else:
            out = rec(code, pos + result + struct.pack('<HH', 0, 3) + b'\x1e\x01\x00')
        return out + self.companion(*struct.unpack('<HH', pos[:4]))

    def companion(self, r, c):
        """A record that may follow a formula, before the string it gives."""
        src, bv = self.src, self.bv
        if not src.chance(1, 4):
            return b''
        k = src.draw(3)
        tokens = b'\x1e\x01\x00\x1e\x01\x00\x03'
        area = struct.pack('<HHBB', r, r, c, c)
        if k == 0 and bv >= 50:
            return rec(0x04BC, area + struct.pack('<xBH', 1, len(tokens)) + tokens)
        if k == 1:
            return rec(src.pick([0x0036, 0x0037]) if bv == 21 else 0x0236, area + struct.pack('<HHHHH', 1, 0, 0, 0, 0))
        if bv == 21:
            return rec(0x0021, area + struct.pack('<BB', 0, len(tokens)) + tokens)
        if bv < 50:
            return rec(0x0221, area + struct.pack('<HH', 0, len(tokens)) + tokens)
        return rec(0x0221, area + struct.pack('<HIH', 0, 0, len(tokens)) + tokens)

    def cellrec_b2(self, r, c, cell):
        src = self.src
        k, v = cell
        ixfe, attr = self.b2attr(k)
        return ixfe + self.cellrec_b2_at(r, c, cell, struct.pack('<HH3s', r, c, attr))

    def b2attr(self, k):
        """The cell attributes of BIFF2, and an IXFE record if they need one."""
        src = self.src
        if self.b2style == 'plain':
            return b'', b'\0\0\0'
        look = src.pick([0, 0, 3, 0x78, 0x88])
        fmt = src.pick([2, 3]) if k == 'd' else src.pick([0, 1])
        if self.b2style == 'attr':
            return b'', bytes([src.pick([0, 0x40]), src.pick([0, 0x40, 0xC0]) | fmt, look])
        # an XF record, by its number in the cell or by the last IXFE record
        xf = src.pick([i for i, f in enumerate(self.b2xf) if f == fmt])
        if xf == self.b2ixfe and src.chance(3, 4):
            return b'', bytes([0x3F | src.pick([0, 0x40]), 0, look])
        if xf >= 63 or src.chance(1, 6):
            self.b2ixfe = xf
            return rec(0x0044, struct.pack('<H', xf)), bytes([0x3F, 0, look])
        return b'', bytes([xf | src.pick([0, 0x40]), 0, look])

    def b2formats(self):
        src = self.src
        dates = any(v is not None and v[0] == 'd' for sh in self.sheets for v in sh.cells.values())
        self.b2style = src.pick(['attr', 'xf'] if dates else ['plain', 'attr', 'xf'])
        if self.b2style == 'plain':
            return b''
        out = b''
        for f in ('General', '0.00', 'yyyy-mm-dd', 'h:mm'):
            out += rec(0x001E, struct.pack('<B', len(f)) + f.encode('ascii'))
        if self.b2style == 'xf':
            n = src.pick([4, 4, 7, 62, 63, 64, 70])
            self.b2xf = [0, 1, 2, 3] + [src.draw(4) for _ in range(n - 4)]
            self.b2ixfe = None
            for f in self.b2xf:
                out += rec(0x0043, struct.pack('<BxBB', 0, f | src.pick([0, 0x40]), 0))
        return out

    def cellrec_b2_at(self, r, c, cell, pos):
        src = self.src
        k, v = cell
        if k in 'nd':
            if v == int(v) and 0 <= v < 65536 and src.chance(1, 2):
                return rec(0x0002, pos + struct.pack('<H', int(v)))
            if src.chance(1, 5):
                return rec(0x0006, pos + struct.pack('<dBB', v, 0, 3) + b'\x1e\x01\x00') + self.companion(r, c)
            return rec(0x0003, pos + struct.pack('<d', v))
        if k == 't':
            b = self.text_bytes(v)
            if b and src.chance(1, 5):
                return rec(0x0006, pos + b'\0\0\0\0\0\0\xff\xff' + b'\0\3' + b'\x1e\x01\x00') + self.companion(r, c) + rec(0x0007, bytes([len(b)]) + b)
            return rec(0x0004, pos + struct.pack('<B', len(b)) + b)
        if k == 'b':
            return rec(0x0005, pos + struct.pack('<BB', int(v), 0))
        if k == 'e':
            return rec(0x0005, pos + struct.pack('<BB', v, 1))
        if k == 'x':
            return rec(0x0001, pos)
        raise ValueError(k)

    def sheet_stream(self, sh):
        src, bv = self.src, self.bv
        if bv >= 80:
            out = rec(0x0809, struct.pack('<HHHHII', 0x0600, 0x0010, 0x0DBB, 0x07CC, 0, 0))
            if src.chance(3, 4):
                out += rec(0x0200, struct.pack('<iiHHH', 0, sh.nrows, 0, sh.ncols, 0))
        elif bv == 50:
            out = rec(0x0809, struct.pack('<HHHH', 0x0500, 0x0010, 0x0DBB, 0x07CC))
            if src.chance(3, 4):
                out += rec(0x0200, struct.pack('<HHHHH', 0, sh.nrows, 0, sh.ncols, 0))
        elif bv == 21:
            out = rec(0x0009, struct.pack('<HH', 2, 0x10))
            out += self.codepage_rec()
            out += rec(0x0022, struct.pack('<H', self.datemode))
            out += self.b2formats()
            out += rec(0x0000, struct.pack('<HHHH', 0, sh.nrows, 0, sh.ncols))
        else:
            out = rec(0x0409 if bv in (40, 45) else 0x0209, struct.pack('<HHH', 0, 0x10, 0))
            out += self.codepage_rec()
            out += rec(0x0022, struct.pack('<H', self.datemode))
            out += self.old_formats()
            out += rec(0x0200, struct.pack('<HHHHH', 0, sh.nrows, 0, sh.ncols, 0))
        rows = {}
        for (r, c), v in sh.cells.items():
            if v is not None:
                rows.setdefault(r, {})[c] = v
        order = sorted(rows)
        if src.chance(1, 8):
            order = src.shuffle(order)
        if src.chance(1, 6):
            out += self.bystander(src.draw(20))
        for r in order:
            cols = sorted(rows[r])
            if src.chance(1, 10):
                cols = src.shuffle(cols)
            if src.chance(1, 10):
                out += self.bystander(r)
            i = 0
            if bv >= 50 and src.chance(1, 4):
                out += rec(0x0208, struct.pack('<HHHHHHI', r, 0, sh.ncols, 255, 0, 0, 0x0100))
            while i < len(cols):
                # runs of RK numbers or blanks may be packed
                j = i
                if bv >= 50 and src.chance(1, 2):
                    while (j < len(cols) and (j == i or cols[j] == cols[j - 1] + 1)
                           and rows[r][cols[j]][0] in 'nd' and rk_encode(rows[r][cols[j]][1])):
                        j += 1
                    if j - i >= 2:
                        d = struct.pack('<HH', r, cols[i])
                        for c in cols[i:j]:
                            k, v = rows[r][c]
                            d += struct.pack('<H', src.pick(self.numxf if k == 'n' else self.datexf)) + rk_encode(v)
                        out += rec(0x00BD, d + struct.pack('<H', cols[j - 1]))
                        i = j
                        continue
                    j = i
                    while (j < len(cols) and (j == i or cols[j] == cols[j - 1] + 1)
                           and rows[r][cols[j]][0] == 'x'):
                        j += 1
                    if j - i >= 2:
                        out += rec(0x00BE, struct.pack('<HH', r, cols[i]) + b'\0\0' * (j - i) + struct.pack('<H', cols[j - 1]))
                        i = j
                        continue
                out += self.cellrec(r, cols[i], rows[r][cols[i]])
                i += 1
        if bv >= 80 and src.chance(1, 6):
            # an embedded chart substream, to be skipped
            out += rec(0x0809, struct.pack('<HHHHII', 0x0600, src.pick([0x20, 0x20, 0x20, 0x40, 0x10]), 0, 0, 0, 0))
            out += rec(0x0203, struct.pack('<HHHd', 0, 0, 0, 99999.0)) + rec(0x000A)
        while src.chance(1, 4):
            out += self.bystander(src.draw(20))
        out += rec(0x000A)
        return out

    def codepage_rec(self):
        return b'' if self.codepage is None else rec(0x0042, struct.pack('<H', self.codepage))

    def bystander(self, r):
        """Records among the cells that hold none."""
        src, bv = self.src, self.bv
        k = src.draw(16)
        if k == 0:
            return rec(0x0867, b'\x67\x08' + b'\0' * src.draw(40))
        if k == 1 and bv >= 50:
            return rec(0x007D, struct.pack('<HHHHHH', 0, 2, 2560, 0, 0, 0))
        if k == 2 and bv >= 80:
            return rec(0x001C, struct.pack('<HHHH', r, 0, 0, 1) + ustr('me') + b'\0')
        if k == 3 and 50 <= bv < 80:
            if src.chance(1, 2):
                # a note of several parts
                return rec(0x001C, struct.pack('<HHH', r, 0, 9) + b'note') + rec(0x001C, struct.pack('<HHH', 0xFFFF, 0, 5) + b' more')
            return rec(0x001C, struct.pack('<HHH', r, 0, 4) + b'note')
        if k == 4 and bv >= 80:
            return rec(0x00E5, struct.pack('<HHHHH', 1, 0, r, 0, 0))
        if k == 5 and bv >= 30:
            opts = src.draw(0x1000)
            if bv >= 80 and src.chance(3, 4):
                return rec(0x023E, struct.pack('<HHHHHHHI', opts, 0, 0, 64, 0, 60, 100, 0))
            return rec(0x023E, struct.pack('<HHHI', opts, 0, 0, 0))
        if k == 6 and bv >= 40:
            return rec(0x00A0, struct.pack('<HH', 1 + src.draw(9), src.draw(5)))
        if k == 7:
            return rec(0x0041, struct.pack('<HHHHB', 1, 2, 3, 4, src.draw(4)) + b'\0')
        if k == 8 and bv >= 80:
            return self.hlink(r)
        if k == 9 and bv >= 80:
            return self.comment(r)
        if k == 10 and bv >= 30:
            return rec(0x0055, struct.pack('<H', 8)) + (rec(0x0099, struct.pack('<H', 2340)) if bv >= 40 else b'') + \
                rec(0x0225, struct.pack('<HH', src.draw(16), 255))
        if k == 11 and bv >= 80:
            n, m = src.draw(3), src.draw(2)
            return rec(0x015F, struct.pack('<H', n) + struct.pack('<HHHH', 0, 1, 0, 0) * n + struct.pack('<H', m) + struct.pack('<HHHH', 0, 0, 0, 2) * m)
        if k == 12 and bv >= 80:
            # conditional formatting and a table, page breaks
            return rec(0x01B0, struct.pack('<HHHHHHH', 1, 0, 0, 3, 0, 3, 1) + struct.pack('<HHHH', 0, 3, 0, 3)) + \
                rec(0x01B1, struct.pack('<BBHHiH', 1, 5, 3, 0, 0, 0) + b'\x1e\x01\x00') + rec(0x001B, struct.pack('<HHHH', 1, 4, 0, 255)) + \
                rec(0x0872, b'\x72\x08' + b'\0' * 33)
        if k == 13 and bv >= 50:
            return rec(0x00AB, b'\x20\0' + b'\0' * 32)
        if k == 14 and bv == 21:
            return rec(0x003E, b'\0\1\1\0\1' + struct.pack('<HHB', 0, 0, 1) + b'\0\0\0\0') + rec(0x0024, struct.pack('<BBH', 0, 3, 2560))
        return rec(0x001D, b'\3' + b'\0' * 14)

    def hlink(self, r):
        """A hyperlink: web address, file or place in the document."""
        src = self.src
        z = lambda t: struct.pack('<L', len(t) + 1) + (t + '\0').encode('utf-16-le')
        k = src.draw(4)
        opts, body = 0, b''
        if src.chance(1, 2):
            opts |= 0x14
            body += z('look here')
        if src.chance(1, 4):
            opts |= 0x80
            body += z('_blank')
        if k == 0:
            opts |= 3
            u = 'http://example.org/x\0'.encode('utf-16-le')
            extra = b'\0' * 24 if src.chance(1, 2) else b''
            body += b'\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B' + struct.pack('<L', len(u) + len(extra)) + u + extra
        elif k == 1:
            opts |= 3
            p = b'a.xls\0'
            body += b'\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46' + struct.pack('<HL', src.draw(3), len(p)) + p
            body += b'\xff\xff\xad\xde' + b'\0' * 20
            if src.chance(1, 2):
                x = 'a.xls'.encode('utf-16-le')
                body += struct.pack('<LLH', len(x) + 6, len(x), 3) + x
            else:
                body += struct.pack('<L', 0)
        elif k == 2:
            opts |= 0x103
            body += z('\\\\server\\share')
        else:
            opts |= 8
        if opts & 8 or src.chance(1, 4):
            opts |= 8
            body += z('Sheet1!A1')
        where = struct.pack('<HHHH', r, r + src.draw(2), 0, src.draw(3))
        head = where + b'\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B\x02\0\0\0' + struct.pack('<L', opts)
        out = rec(0x01B8, head + body)
        if src.chance(1, 3):
            out += rec(0x0800, struct.pack('<H', 0x0800) + where + 'tip\0'.encode('utf-16-le'))
        return out

    def comment(self, r):
        """A comment: drawing, object, its text, the note itself."""
        src = self.src
        oid = 1 + src.draw(100)
        t = src.pick(['a note', 'not\u00e9', '\u6f22\u5b57'])
        obj = struct.pack('<HHHHH12x', 0x15, 18, 25, oid, 0x4011) + struct.pack('<HH22x', 0x0D, 22) + struct.pack('<HH', 0, 0)
        out = rec(0x00EC, b'\x0f\0\x02\xf0' + b'\0' * 20) + rec(0x005D, obj)
        out += rec(0x01B6, struct.pack('<HH6sHHHI', 0x0212, 0, b'\0' * 6, len(t), 16, 0, 0))
        cut = src.draw(len(t)) if src.chance(1, 3) else 0
        for part in ([t[:cut], t[cut:]] if cut else [t]):
            w = 0 if self.is_latin(part) else 1
            out += rec(0x003C, bytes([w]) + part.encode('utf-16-le' if w else 'latin-1'))
        out += rec(0x003C, struct.pack('<HH4xHH4x', 0, 5, len(t), 0))
        return out + rec(0x001C, struct.pack('<HHHH', r, 0, 0, oid) + ustr('me') + b'\0')

    def book_bystanders(self):
        """Book level records about names, links, styles and colours."""
        src, bv = self.src, self.bv
        if not src.chance(1, 4):
            return b''
        out = b''
        n = len(self.sheets)
        if src.chance(1, 3):
            out += rec(0x0293, struct.pack('<HBB', 0x8000, 0, 255))
        if src.chance(1, 3):
            out += rec(0x0092, struct.pack('<H', 56) + b''.join(struct.pack('<BBBB', i, 2 * i, 255 - i, 0) for i in range(56)))
        num = struct.pack('<Bd', 0x1F, 2.5)
        if bv >= 80:
            refs = []
            nb = 0
            if src.chance(1, 4):
                out += rec(0x01AE, struct.pack('<H', 1) + b'\x01\x3A') + rec(0x0023, struct.pack('<HI', 0, 0) + ustr('ADDIN', 1) + b'\0\0')
                nb += 1
            if src.chance(1, 4):
                out += rec(0x01AE, struct.pack('<H', 1) + ustr('\x01other.xls') + ustr('There'))
                refs.append((nb, 0, 0))
                nb += 1
            out += rec(0x01AE, struct.pack('<H', n) + b'\x01\x04')
            for i in range(n):
                refs.append((nb, i, i))
            d = struct.pack('<H', len(refs)) + b''.join(struct.pack('<HHH', *x) for x in refs)
            out += rec(0x0017, d)
            area = lambda: struct.pack('<BHHHHH', 0x3B, src.draw(len(refs)), 0, src.draw(9), 0, src.draw(4))
            for i in range(src.draw(4)):
                scope = src.draw(n + 1)
                k = src.draw(5)
                f = [num, area(), struct.pack('<BHHH', 0x3A, src.draw(len(refs)), 1, 2), b'\x1e\x07\x00',
                     struct.pack('<BH', 0x29, 23) + area() + area() + b'\x10'][k]
                if src.chance(1, 2):
                    nm, opt = b'\0' + bytes([src.pick([6, 7, 13])]), 0x20
                else:
                    nm, opt = b'\0' + b'Name%d' % i, src.draw(2)
                out += rec(0x0018, struct.pack('<HBBHHH4B', opt, 0, len(nm) - 1, len(f), 0, scope, 0, 0, 0, 0) + nm + f)
        else:
            for sh in self.sheets:
                b = sh.name.encode(self.enc)
                out += rec(0x0017, bytes([len(b), 3]) + b)
            for i in range(src.draw(3)):
                nm = b'Name%d' % i
                out += rec(0x0018, struct.pack('<HBBHHH4B', 0, 0, len(nm), len(num), src.draw(n + 1), 0, 0, 0, 0, 0) + nm + num)
        return out

    def build_4w(self):
        """An Excel 4 workbook: the sheets lie inside the book stream."""
        self.sheet_spans = None
        head = rec(0x0409, struct.pack('<HHH', 0, 0x100, 0)) + self.codepage_rec()
        streams = [self.sheet_stream(sh) for sh in self.sheets]
        names = [bytes([len(sh.name.encode(self.enc))]) + sh.name.encode(self.enc) for sh in self.sheets]
        bs = b''.join(rec(0x0085, n) for n in names)
        out = head + rec(0x008E, struct.pack('<i', len(head) + 8 + len(bs))) + bs
        for n, st in zip(names, streams):
            out += rec(0x008F, struct.pack('<i', len(st)) + n) + st
        return out + rec(0x000A)

    def old_formats(self):
        """BIFF3/4: a format list indexed by position, then XFs."""
        out = b''
        fmts = ['General', '0.00', 'yyyy-mm-dd', 'h:mm']
        for i, f in enumerate(fmts):
            b = f.encode('ascii')
            if self.bv in (40, 45):
                out += rec(0x041E, struct.pack('<HB', i, len(b)) + b)
            else:
                out += rec(0x001E, struct.pack('<B', len(b)) + b)
        self.numxf, self.datexf = [0, 1], [2, 3]
        for i in range(4):
            if self.bv in (40, 45):
                out += rec(0x0443, struct.pack('<BBHBBHI', 0, i, 1, 0, 0xFC, 0, 0))
            else:
                out += rec(0x0243, struct.pack('<BBBBHHI', 0, i, 1, 0xFC, 0, 0, 0))
        return out

    def build(self):
        src, bv = self.src, self.bv
        if bv == 45:
            return self.build_4w()
        if bv < 50:
            self.sheet_spans = None
            return self.sheet_stream(self.sheets[0])
        fmts = self.formats()
        streams = [self.sheet_stream(sh) for sh in self.sheets]
        head = rec(0x0809, struct.pack('<HHHHII', 0x0600, 0x0005, 0x0DBB, 0x07CC, 0, 0)) if bv >= 80 else \
            rec(0x0809, struct.pack('<HHHH', 0x0500, 0x0005, *src.pick([(0x0DBB, 0x07CC), (0x0DBB, 0x07C9), (2412, 0x07CC)])))
        user = b''
        if src.chance(1, 4):
            user = rec(0x005C, (ustr('sim user') if bv >= 80 else b'\x08sim user').ljust(112, b' ')[:112])
        if src.chance(1, 2):
            head, user = head + user, b''
        if bv < 80:
            head += self.codepage_rec()
        elif not src.chance(1, 4):
            head += rec(0x0042, struct.pack('<H', 1200))
        head += user
        if src.chance(1, 4):
            head += rec(0x008C, struct.pack('<HH', 1, 46)) + rec(0x0031, b'\xc8\0' + b'\0' * 20)
        head += rec(0x0022, struct.pack('<H', self.datemode))
        head += fmts
        sst = self.sst_records() if bv >= 80 and (self.sst or src.chance(1, 2)) else b''
        ext = rec(0x00FF, b'\x08\x00' + b'\0' * 8) if src.chance(1, 2) else b''
        names = [ustr(sh.name, 1) if bv >= 80 else bytes([len(sh.name.encode(self.enc))]) + sh.name.encode(self.enc) for sh in self.sheets]
        # sheets that are not work sheets (macro, chart, VB module) anywhere between
        others = {}
        if src.chance(1, 5):
            for k in range(1 + src.draw(2)):
                nm = 'Other%d' % k
                others.setdefault(src.draw(len(names)), []).append(
                    (src.pick([2, 1, 6]), ustr(nm, 1) if bv >= 80 else bytes([len(nm)]) + nm.encode()))
        bslen = sum(4 + 6 + len(n) for n in names) + sum(4 + 6 + len(n) for x in others.values() for _, n in x)
        order = list(range(len(self.sheets)))
        if src.chance(1, 4):
            order = src.shuffle(order)
        extra = self.book_bystanders()
        base = len(head) + bslen + len(extra) + len(sst) + len(ext) + 4
        offs, p = {}, base
        for i in order:
            offs[i] = p
            p += len(streams[i])
        bs = b''
        for i, n in enumerate(names):
            for typ, nm in others.get(i, ()):
                bs += rec(0x0085, struct.pack('<iBB', offs[0], 0, typ) + nm)
            bs += rec(0x0085, struct.pack('<iBB', offs[i], src.draw(3) if src.chance(1, 8) else 0, 0) + n)
        out = head + bs + extra + sst + ext + rec(0x000A)
        assert len(out) == base
        self.sheet_spans = {i: (offs[i], offs[i] + len(streams[i])) for i in offs}
        return out + b''.join(streams[i] for i in order)


def ole2(src, stream, name='Workbook'):
    """Wrap a stream into an OLE2 compound file with a seeded layout.
    Returns (bytes, map from stream offset to file offset)."""
    FREE, EOC, SATSID = -1, -2, -3
    ssz = src.pick([9, 9, 9, 12]) if len(stream) > 6000 else 9
    SS = 1 << ssz
    pad4096 = src.chance(1, 2)
    if len(stream) < 4096 and pad4096:
        stream = stream + b'\0' * (4096 - len(stream))
    short = len(stream) < 4096
    extra = []
    if src.chance(1, 2):
        extra.append(('\x05SummaryInformation', b'S' * src.between(1, 300)))
    if src.chance(1, 4):
        extra.append(('\x05DocumentSummaryInformation', b'D' * src.between(4096, 6000)))
    if name == 'Workbook' and src.chance(1, 10):
        # a workbook saved for two versions of Excel: the newer one counts
        extra.append(('Book', b'\x09\x08\x08\0\0\x05\x05\0' + b'B' * src.pick([9, 1000, 5000])))
    streams = [(name, stream)] + extra
    if src.chance(1, 3):
        streams = src.shuffle(streams)
    # mini stream
    mini = bytearray()
    minifat = []
    ministart = {}
    minimap = {}
    smalls = [(n, s) for n, s in streams if len(s) < 4096]
    nm = sum((len(s) + 63) // 64 for _, s in smalls)
    slots = list(range(nm))
    fragmini = src.chance(1, 3)
    if fragmini:
        slots = src.shuffle(slots)
    minisec = [b''] * nm
    minifat = [FREE] * nm
    k = 0
    for n, s in smalls:
        cnt = (len(s) + 63) // 64
        mine = slots[k:k + cnt]
        k += cnt
        ministart[n] = mine[0]
        for i, sl in enumerate(mine):
            minisec[sl] = s[64 * i:64 * i + 64].ljust(64, b'\0')
            minifat[sl] = mine[i + 1] if i + 1 < cnt else EOC
            if n == name:
                minimap[i] = sl
    ministream = b''.join(minisec)
    nent = SS // 4
    chains = {}
    if ministream:
        chains['mini'] = ministream
        mf = minifat + [FREE] * (-len(minifat) % nent)
        chains['minifat'] = struct.pack('<%di' % len(mf), *mf)
    for n, s in streams:
        if len(s) >= 4096:
            chains['s:' + n] = s
    storage = src.chance(1, 6)
    ndir = 1 + len(streams) + (3 if storage else 0)
    dirlen = -(-(128 * ndir) // SS) * SS
    chains['dir'] = b'\0' * dirlen
    nsec = {c: -(-len(b) // SS) for c, b in chains.items()}
    gaps = src.draw(4) if src.chance(1, 4) else 0
    huge = SS == 512 and src.chance(1, 600)
    if huge:
        gaps = 13900 + src.draw(400)        # more allocation table than the header can point at
    total = sum(nsec.values()) + gaps
    nsat = 1
    if not huge and SS == 512 and src.chance(1, 400):
        nsat = src.pick([111, 240, 370])    # an allocation table with much room left, pointed at in several steps
    nmsatx = -(-max(0, nsat - 109) // (nent - 1))
    while nsat * nent < total + nsat + nmsatx:
        nsat += 1
        nmsatx = -(-max(0, nsat - 109) // (nent - 1))
    total += nsat + nmsatx
    slots = list(range(total))
    mode = src.draw(3)
    if mode == 1:
        slots = src.shuffle(slots)          # completely fragmented
    corder = sorted(chains) + ['sat', 'gap', 'msatx']
    if mode >= 0 and src.chance(1, 2):
        corder = src.shuffle(corder)
    if mode == 2 and total > 3:
        # two halves swapped: a few fragments
        cut = 1 + src.draw(total - 1)
        slots = slots[cut:] + slots[:cut]
    need = dict(nsec)
    need['sat'] = nsat
    need['gap'] = gaps
    need['msatx'] = nmsatx
    place, k = {}, 0
    for c in corder:
        place[c] = slots[k:k + need[c]]
        k += need[c]
    sat = [FREE] * (nsat * nent)
    for c in chains:
        p = place[c]
        for i, s in enumerate(p):
            sat[s] = p[i + 1] if i + 1 < len(p) else EOC
    for s in place['sat']:
        sat[s] = SATSID
    for s in place['msatx']:
        sat[s] = -4
    # directory
    order = [n for n, _ in streams]

    def dirent(nm, etype, left, right, root, first, size):
        nb = nm.encode('utf-16-le') + b'\0\0'
        return (nb.ljust(64, b'\0') + struct.pack('<HBBiii', len(nb), etype, 1, left, right, root)
                + b'\0' * 36 + struct.pack('<iii', first, size, 0))
    d = dirent('Root Entry', 5, -1, -1, 1, place['mini'][0] if ministream else EOC, len(ministream))
    for i, n in enumerate(order):
        s = dict(streams)[n]
        first = ministart[n] if len(s) < 4096 else place['s:' + n][0]
        right = i + 2 if i + 1 < len(order) else -1
        left = -1
        if i == 0 and len(order) == 3:
            left, right = 2, 3
        elif len(order) == 3:
            right = -1
        if storage and right == -1 and (len(order) < 3 or i == 2):
            right = 1 + len(order)          # a storage hangs off the last of them
        d += dirent(n, 2, left, right, -1, first, len(s))
    if storage:
        k = 1 + len(order)
        d += dirent('Macros', 1, -1, -1, k + 2, 0, 0)
        d += dirent('', 0, -1, -1, -1, 0, 0)
        # an empty stream of the same name, one level down
        d += dirent(name, 2, -1, -1, -1, EOC, 0)
    chains['dir'] = d.ljust(dirlen, b'\0')
    # sectors
    secs = [b'\0' * SS] * total
    for c, b in chains.items():
        for i, s in enumerate(place[c]):
            secs[s] = b[SS * i:SS * i + SS].ljust(SS, b'\0')
    satb = struct.pack('<%di' % len(sat), *sat)
    for i, s in enumerate(place['sat']):
        secs[s] = satb[SS * i:SS * i + SS]
    hdr = (b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1' + b'\0' * 16 + struct.pack('<HHHHH', 0x3E, 3, 0xFFFE, ssz, 6)
           + b'\0' * 10
           + struct.pack('<iiiiiiii', nsat, place['dir'][0], 0, 4096,
                         place['minifat'][0] if ministream else EOC, need.get('minifat', 0),
                         place['msatx'][0] if nmsatx else EOC, nmsatx))
    msat = place['sat'][:109]
    hdr += struct.pack('<109i', *(msat + [FREE] * (109 - len(msat))))
    rest = place['sat'][109:]
    for i, s in enumerate(place['msatx']):
        part = rest[(nent - 1) * i:(nent - 1) * (i + 1)]
        nxt = place['msatx'][i + 1] if i + 1 < len(place['msatx']) else EOC
        secs[s] = struct.pack('<%di' % nent, *(part + [FREE] * (nent - 1 - len(part)) + [nxt]))
    data = hdr + b''.join(secs)

    def offset(o):
        if short:
            m = minimap[o // 64] * 64 + o % 64
            return 512 + place['mini'][m // SS] * SS + m % SS
        return 512 + place['s:' + name][o // SS] * SS + o % SS
    return data, offset


class SheetCase(object):
    """A workbook, sheetpack options, and the expected pack."""
    factory = 'sheetpack'

    def __init__(self, src, fmt=None, small=False, maxsheets=3, huge_ok=False, datemode=None):
        # strings that no cell of the workbook uses come first, more than 16 bits count
        self.filler = 65536 if huge_ok and src.chance(1, 1500) else 0
        self.fmt = fmt or src.weighted([('xlsx', 6), ('xls', 6), ('biff5', 2), ('biff4', 1), ('biff3', 1), ('biff2', 1), ('biff4w', 1)])
        self.datemode = 1 if src.chance(1, 5) else 0
        wide = self.fmt in ('xlsx', 'xls')
        types = None
        if datemode is not None:
            self.datemode = datemode
            types = ['d', 'd', 'n', 't', 'mix']
        textlimit = None
        if self.fmt == 'biff2':
            types = ['n', 't', 'b', 'n', 'e'] + (['d', 'd'] if src.chance(1, 2) else [])
        n = src.size(1, maxsheets) if self.fmt in ('xlsx', 'xls', 'biff5', 'biff4w') else 1
        latin = LATIN
        self.codepage = (1252, 'cp1252')
        if not wide:
            textlimit = 100
            cp = src.pick(CODEPAGES) if src.chance(1, 3) else CODEPAGES[0]
            self.codepage, latin = cp[:2], cp[2]
        self.sheets = []
        for i in range(n):
            nm = src.pick(['Sheet', 'Data', 'Log åä' if wide else 'Log', 'x y', 'R&D']) + str(i + 1)
            if src.chance(1, 6):
                # all digits, quotes, spaces at the ends, as long as a name may be, other alphabets
                nm = src.pick(['20', "it's ", ' ', 'abcdefghij' * 3, '-', '"q"'] + (['漢字', '😀', 'Ж'] if wide else ['_'])) + str(i + 1)
            sh = gen_sheet(src, nm, wide, small, types, latin=latin, long_ok=wide and not small, textlimit=textlimit,
                           maxrows={'xlsx': 1 << 20, 'xls': 65536}.get(self.fmt, 16384), maxcols=16384 if self.fmt == 'xlsx' else 256)
            self.sheets.append(sh)
        if n > 1 and src.chance(1, 6):
            # sheets with nothing in them
            keep = src.draw(n)
            for i in range(n):
                if i != keep and src.chance(1, 2):
                    nothing = {(src.draw(4), src.draw(4)): ('x', None)} if src.chance(1, 4) else {}
                    self.sheets[i] = SheetModel(self.sheets[i].name, nothing)
                    self.sheets[i].r0 = self.sheets[i].c0 = 0
        if self.fmt in ('biff4', 'biff3', 'biff2'):
            self.sheets[0].name = 'Sheet 1'
        self.encode(src)
        self.options(src)
        self.delivery = 'path'
        self.prefix = b''

    def encode(self, src):
        self.member_spans = None
        if self.fmt == 'xlsx':
            w = XlsxWriter(src, self.sheets, self.datemode)
            w.filler = self.filler
            self.content = w.build()
            self.member_spans = w.spans
        else:
            bv = {'xls': 80, 'biff5': 50, 'biff4w': 45, 'biff4': 40, 'biff3': 30, 'biff2': 21}[self.fmt]
            w = BiffWriter(src, self.sheets, self.datemode, bv, self.codepage)
            w.filler = self.filler
            stream = w.build()
            self.sheet_spans = w.sheet_spans
            if bv >= 50 and not src.chance(1, 8):
                self.content, self.offset = ole2(src, stream, 'Workbook' if bv >= 80 else src.pick(['Book', 'Book', 'BOOK']))
            else:
                self.content, self.offset = stream, (lambda o: o)

    def options(self, src):
        o = {}
        self.sheetno = src.pick([i for i, x in enumerate(self.sheets) if x.nrows])
        sh = self.sheets[self.sheetno]
        if self.sheetno or src.chance(1, 3):
            o['sheet'] = self.sheetno if src.chance(1, 2) else sh.name
        r1, c1 = 0, 0
        r2, c2 = sh.nrows - 1, sh.ncols - 1
        k = src.draw(4)
        if k >= 1 or sh.r0 or sh.c0:
            r1 = sh.r0 + (src.draw(max(1, sh.nrows - sh.r0)) if k == 3 else 0)
            c1 = sh.c0 + (src.draw(max(1, sh.ncols - sh.c0)) if k == 3 else 0)
            a = addr(r1, c1)
            o['startcell'] = a.lower() if src.chance(1, 4) else a
        if k >= 2 and src.chance(2, 3):
            r2 = src.between(r1, sh.nrows - 1)
            c2 = src.between(c1, sh.ncols - 1)
            a = addr(r2, c2)
            o['stopcell'] = a.lower() if src.chance(1, 4) else a
        use = list(range(c1, c2 + 1))
        if src.chance(1, 3):
            chosen = src.subset(use) or [src.pick(use)]
            use = sorted(chosen)
            form = src.draw(3)
            if form == 0:
                o['usecols'] = src.shuffle(chosen)
            elif form == 1:
                o['usecols'] = tuple(chosen)
            else:
                o['usecols'] = self.usestr(src, use)
        hk = src.draw(4)
        names = {}
        d1 = r1
        if hk in (0, 1):
            hrow = r1
            d1 = r1 + 1
            if hk == 1:
                o['header'] = True
        elif hk == 2:
            o['header'] = False
            hrow = None
        else:
            hrow = src.draw(sh.nrows)
            o['header'] = addr(hrow, c1)
        if hrow is not None:
            for c in use:
                v = sh.get(hrow, c)
                names[c] = self.rawvalue(v)
        self.opts = o
        self.use = use
        self.names = names
        self.hrow = hrow
        self.rows = (d1, r2)

    def rawvalue(self, v):
        if v is None:
            return ''
        if v[0] == 'b':
            return int(v[1])
        return v[1]

    def usestr(self, src, use):
        parts = []
        i = 0
        while i < len(use):
            j = i
            while j + 1 < len(use) and use[j + 1] == use[j] + 1:
                j += 1
            if j > i and src.chance(2, 3):
                parts.append(colletters(use[i]) + ':' + colletters(use[j]))
                i = j + 1
            else:
                parts.append(colletters(use[i]))
                i += 1
        if src.chance(1, 3):
            parts = src.shuffle(parts)
        s = src.pick([',', ', ']).join(parts)
        return s.lower() if src.chance(1, 5) else s

    def is_bytes(self):
        return True

    def expected(self):
        sh = self.sheets[self.sheetno]
        cols = {c: column_values(sh, c, self.rows[0], self.rows[1], self.datemode) for c in self.use}
        return cols, dict(self.names)

    def kwargs(self, conv_wrap=None):
        o = dict(self.opts)
        if isinstance(o.get('usecols'), list):
            o['usecols'] = list(o['usecols'])
        return o

    def describe(self):
        sh = self.sheets[self.sheetno]
        return {'factory': 'sheetpack', 'format': self.fmt, 'bytes': len(self.content), 'datemode': self.datemode,
                'opts': {k: repr(v) for k, v in self.opts.items()}, 'sheets': [(s.name, s.nrows, s.ncols) for s in self.sheets],
                'sample_cells': [[repr(sh.get(r, c)) for c in range(min(4, sh.ncols))] for r in range(min(5, sh.nrows))]}
