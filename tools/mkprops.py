"""Regenerates /verif/properties.jsonl (kept here so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))
RT, DB, RX, PK, DU = ('channelpack/readtext.py', 'channelpack/dbf.py', 'channelpack/readxl.py',
                      'channelpack/pack.py', 'channelpack/datautils.py')
XI, XB, XC, XS, XX = ['channelpack/xlrd/' + n for n in ('__init__.py', 'book.py', 'compdoc.py', 'sheet.py', 'xlsx.py')]

p('C01', 'A disturbed read raises or returns exactly the healthy result',
  "When storage misbehaves during a textpack, lazy_textpack, dbfpack or sheetpack call (an I/O error, timeout, out-of-memory or interrupt raised by an open, read, seek, tell or memory mapping, at any point, or an exception raised by a caller's converter), the call either raises with that very failure visible as the exception or in its cause/context chain (for xlsx possibly as the zip layer's BadZipFile) and not buried under an accidental KeyError, IndexError, TypeError or the like of the library's own, or returns exactly the pack the undisturbed source gives. It never swallows the failure into a shorter, altered or empty pack. Reads that merely deliver fewer bytes than asked for change nothing, and repeating the call once the fault has passed gives the exact pack.",
  ['fault_sequences', 'inputs', 'configurations'],
  'every source table and reader option, every fault kind at every I/O call or converter call of the read, every pattern of short reads',
  'The tests read healthy files only; no test makes an I/O call or a converter fail, and a failure at one particular call out of hundreds is not something examples reach.',
  [RT, DB, RX, XI, XB, XX, XC],
  [('stream position', 'where the next byte comes from', RT)],
  [('exceptions propagate through generators, zip and context managers; no catch-all handlers', RT + ' textpack/linetuples, ' + DB + ' dbfreader/dbfrecords, ' + RX + ' sheetpack')],
  ['return value or exception of textpack, lazy_textpack, dbfpack, sheetpack'])

p('C02', 'Files the library opens are closed; streams the caller gives are not',
  "Every file and memory map that textpack, lazy_textpack, dbfpack or sheetpack opens by name has been explicitly closed when the call ends, whether it returns or raises and whichever I/O or converter call failed. A stream object passed in by the caller is never closed, on any path, and remains usable afterwards.",
  ['fault_sequences', 'inputs', 'configurations'],
  'every source, option set and outcome, every fault kind at every I/O or converter call',
  'No test looks at open handles, and leaks sit on error paths the tests never enter; garbage collection hides them when they are entered.',
  [RT, DB, RX, XI, XB, XX],
  [('handle ownership', 'opened here vs. handed in', RT + ' contextopen')],
  [('contextopen closes only what it opened', RT), ('with open/mmap release in Book.__exit__/release_resources', XB), ('ZipFile handling', XI)],
  ['handles opened during the call, state of the stream argument after it'])

p('C03', 'textpack reads the exact table however the bytes are delivered',
  "For a delimited text table, textpack returns exactly the table's rows and columns under the requested options (delimiter, skipped rows, header names, given names, chosen columns in any order, converters, string stripping, encoding, debug), with each column's numbers or strings under its own column number and name. The result is the same whether the source is a path, a text stream or a byte stream, starts at the stream's current position, and does not depend on buffer sizes or on how the bytes are split into reads, including in the middle of a character, a line ending or a field.",
  ['inputs', 'configurations', 'schedules'],
  'all tables in the documented format (decimal point or comma, missing values, strings, blank lines, LF/CRLF endings), all option combinations, all delivery patterns',
  'The tests read a dozen fixed small files in one gulp with a few option combinations; delivery splits and option combinations multiply beyond examples.',
  [RT],
  [('field functions', 'conversion per column, decided on the first data row', RT + ' linetuples')],
  [('line iteration over the stream, split by delimiter, zip into columns', RT + ' linetuples/textpack')],
  ['data, names and fn of the pack returned by textpack'])

p('C04', 'lazy_textpack finds the exact numeric table however it is delivered',
  "For a numeric data file with an optional digit-free header (free text, blank lines, a line of field names), with one consistent separator and decimal point or decimal comma, lazy_textpack returns exactly the numbers of every data row under their column numbers, and the field names when a line of names matches the columns. Files longer than the pre-parsed lines, path, text or byte streams, streams not positioned at their beginning, chosen columns and any splitting of the bytes into reads all give the same table; a source without any data line raises ValueError when nothing is told about its layout.",
  ['inputs', 'configurations', 'schedules'],
  'all such files, header shapes, separators, lengths around the pre-parse window and delivery patterns',
  'Tests use a few fixed files; the interplay of pre-parse window, header shape, stream kind and start position is not covered.',
  [RT],
  [('derived keyword arguments', 'delimiter, rows to skip, converters, columns, names', RT + ' preparse')],
  [('preparse a window, rewind, textpack with derived arguments', RT + ' lazy_textpack')],
  ['data, names and fn of the pack returned by lazy_textpack'])

p('C05', 'dbfpack yields exactly the live records and the chosen fields',
  "dbfpack returns, in file order, exactly the records not marked deleted, converted by field type (character, number, date, logical, float), under the field's column number and name; missing numbers become nan and missing dates None. Asking for some field names gives precisely those columns of the full result, wherever deleted records lie. The result does not depend on path or stream, start position of the stream, buffering, or how reads are split.",
  ['inputs', 'configurations', 'schedules'],
  'all dbf files of the supported types, all deletion patterns, all field subsets, all delivery patterns',
  'Tests read three fixed files, none of which mixes deleted records with a subset of names.',
  [DB], [('record position', 'offset of the record being read', DB + ' dbfrecords')],
  [('fixed size records unpacked by struct; field offsets computed from the header', DB)],
  ['data, names and fn of the pack returned by dbfpack'])

p('C06', 'sheetpack yields exactly the selected cells, for xlsx and xls alike',
  "sheetpack returns exactly the cells of the chosen sheet and range (start cell, stop cell, chosen columns, header row inside or elsewhere), each column under its own column number and header name, with numbers, text, dates, booleans, empty and error cells converted as documented per column. The same sheet stored as xlsx or as xls gives equal packs, however the bytes are laid out in the container (sector order, stream fragmentation, record continuation, shared strings, packed number and formula records) and however reads are split. A sheet that does not exist, a cell address without a column letter or with row 0, or columns outside the given range raise instead of giving other cells.",
  ['inputs', 'configurations', 'schedules'],
  'all sheets of the supported cell types, all option combinations, all container layouts and delivery patterns',
  'Tests read two or three fixed spreadsheets written by one program each, with one container layout.',
  [RX, XI, XB, XC, XS, XX], [('cell store', 'values and types per row', XS)],
  [('sheet_columns typing per column', RX), ('BIFF record and OLE2 stream assembly', XB + ', ' + XC + ', ' + XS), ('xlsx parts', XX)],
  ['data, names and fn of the pack returned by sheetpack'])

p('C07', 'A truncated or damaged source never yields invented or altered rows',
  "If a dbf, xls or xlsx file is cut short at any byte (a copy or save that crashed half way), or a stored byte of an xlsx member's data is changed, reading it raises an exception or returns exactly the pack of the intact file. If a text file is cut short at any byte, textpack raises or returns columns that hold exactly the complete rows of the intact file, all columns equally many, followed by at most one value from the row that was cut.",
  ['crash_points', 'inputs', 'fault_sequences'],
  'every file and every truncation length or changed byte',
  'No test truncates or damages a file; the number of cut points is the file size.',
  [RT, DB, RX, XI, XB, XC, XS, XX], [('source length', 'bytes that survived', RT)],
  [('struct.unpack on short reads raises', DB), ('zip CRC and central directory', XI), ('OLE2 and BIFF length checks', XC + ', ' + XB)],
  ['return value or exception of the reading functions'])

p('C08', 'Reading beside a live writer yields one consistent prefix or version',
  "While another process appends whole lines to a text file, textpack and lazy_textpack return exactly a prefix of the final rows that contains at least all rows present when the call began. While records are appended to a dbf file (record first, then the header count), dbfpack returns exactly the first n records for some count n the header held during the call. When a file is atomically replaced by another version during the call, the pack is exactly one of the versions, never a mixture, or the call raises.",
  ['schedules', 'inputs', 'histories'],
  'every placement of the writer steps between the I/O calls of the reader',
  'Tests have no concurrent writer; only particular placements between two reads go wrong.',
  [RT, DB, XI, XB], [('file contents', 'grow or are replaced between two I/O calls', RT)],
  [('single pass over one handle; header count read once', RT + ', ' + DB)],
  ['pack returned while the writer is active'])

p('C09', 'Reads and packs in separate threads do not affect each other',
  "Threads that each read their own source or work on their own ChannelPack get exactly the results and exceptions they would get alone, for every interleaving and also when a fault strikes one of them. Nothing leaks from one reader or pack to another: no rows, converters, names, column types, masks or file handles.",
  ['schedules', 'inputs', 'fault_sequences'],
  'all interleavings at instruction granularity of 2 to 4 threads running any mix of the readers and pack operations',
  'All tests are single threaded.',
  [RT, DB, RX, PK, DU, XI, XB, XS, XX], [('module level state', 'anything shared between calls', 'channelpack/*')],
  [('all state is held in locals and instances', 'channelpack/*')],
  ['results of every thread against the same work done alone'])

p('C10', 'Mask, parts and selected data follow the selection history exactly',
  "After any sequence of setting the mask, mask_reset, startstop, duration, mindur, nof, data and append_pack, including operations that fail, the mask equals that of the documented semantics applied in order (reset gives all true whatever the values, minimum duration re-applied at every mask change), and parts() numbers exactly its maximal true runs. Calls with part, 'filter', 'nan' and 'ignore', and the nof attribute, return exactly the corresponding elements of that state.",
  ['histories', 'fault_sequences', 'inputs'],
  'all operation histories over all data types, with operations failing part-way',
  'Unit tests drive two or three operations from a fresh pack; stale derived state shows only after particular longer sequences or a failed step.',
  [PK, DU], [('mask', 'selection', PK), ('slice list', 'true runs derived from the mask', PK), ('mindur', 'persistent minimum duration', PK)],
  [('attribute setters recompute derived state', PK + ' __setattr__, duration, startstop, mask_reset')],
  ['mask, parts(), pack(ch, part, nof), return values of duration and startstop'])

p('C11', 'append_pack concatenates in order, and all or nothing',
  "After a.append_pack(b) every column of a is its old content followed by b's, names are kept (or taken over if a had none), filenames is a's list followed by b's, and the mask is reset to all true and re-subjected to the minimum duration. If the append cannot be done - keys that do not align in data or names, or memory that runs out at any allocation - it raises and a is exactly as before; b is never changed.",
  ['histories', 'fault_sequences', 'inputs'],
  'all pairs and sequences of packs (empty, misaligned, appended to themselves, read from files), failure at any allocation',
  'Tests append healthy packs and check one mismatch per kind; never state after a failure, never allocation failure.',
  [PK], [('data, names, filenames, mask', 'the four things an append changes together', PK)],
  [('check, build, then commit', PK + ' append_pack')],
  ['all observable state of both packs after each append'])

p('C12', "No operation on one pack changes another pack or the caller's objects",
  "Packs may be built from, appended to and assigned from the same arrays, dicts, masks and one another; afterwards operations on one pack (appending, masking, durations, assignments of data, names, fn or mask) leave every other pack's data, names, filenames, mask and parts unchanged. Arrays, dicts, lists and masks the caller passed in are never modified by the library, a mask array the caller alters after setting it does not change the pack, and arrays a call of a pack returned keep their values whatever is done to the pack later.",
  ['histories', 'inputs', 'fault_sequences'],
  'all histories of operations over several packs sharing inputs',
  'Tests check the pack under operation, not the bystanders, and aliasing needs a later operation to show.',
  [PK, RT], [('shared references', 'arrays, dicts or masks reachable from two packs', PK)],
  [('copying at the boundary', PK + ' __setattr__, append_pack')],
  ["state of every other pack and of the caller's objects after each operation"])

p('C13', 'An operation that fails leaves the pack exactly as it was',
  "When setting an attribute, appending, masking, updating data or names, or calling the pack raises - because of invalid arguments, an iterable that raises half way, or memory running out at any allocation - the pack's observable state (data, names, mask, parts, nof, mindur, fn, filenames, fallback prefix) is exactly what it was before. The pack stays fully usable, and the same operation with good arguments then has its normal effect.",
  ['fault_sequences', 'histories', 'inputs'],
  'every mutating operation, every kind of invalid argument, failure at every allocation',
  'Tests assert that the exception is raised, not that nothing changed; allocation failure is never tried.',
  [PK], [('pack state', 'all attributes and the derived part list', PK)],
  [('validate and build before committing', PK)],
  ['all observable state of the pack before and after the failed operation'])

p('C14', 'Concurrent readers of one pack get exactly the sequential answers',
  "Any number of threads that only read one ChannelPack (calls with part and nof, records, parts, name, repr) get, for every interleaving, exactly the answers a single thread would get, and leave the pack unchanged.",
  ['schedules', 'inputs'],
  'all interleavings at instruction granularity of 2 to 4 reading threads',
  'All tests are single threaded.',
  [PK, DU], [('pack state', 'shared by the readers', PK)],
  [('reading does not write', PK + ' __call__, records, parts, name')],
  ['answers of every thread, pack state afterwards'])

p('C15', 'records() iterates one snapshot whatever happens to the pack meanwhile',
  "Once iteration of records() has begun, it yields exactly the records of the pack as it was at that moment - every row once, in order, each field from its own column under its own name or fallback name, respecting part, nof and fallback - however iteration is interleaved with other iterators over the same pack and with later changes of mask, nof, mindur, names, data or appends, successful or failed.",
  ['schedules', 'histories', 'inputs'],
  'all interleavings of iterator steps with operations on the pack and other iterators',
  'Tests exhaust one iterator at once on an unchanging pack.',
  [PK], [('iterator position', 'rows handed out so far', PK + ' records')],
  [('arrays are captured when iteration begins and never modified in place', PK)],
  ['records handed out by every iterator'])

p('C16', 'data and names keep integer keys and flat arrays; lookup is by key first',
  "Through any history of item assignment, update, merge, setdefault, construction from mappings or one-shot iterables, deletion and attribute assignment, including rejected ones, keys of data and names stay integers, every value of data is a one-dimensional array with the given elements, and accepted items are all present and rejected operations add nothing. pack(ch) and name(ch) resolve integer keys first, then names, then fallback strings, and raise KeyError for any other integer or string.",
  ['histories', 'inputs', 'fault_sequences'],
  'all histories of mapping operations and lookups, with raising iterables and failing allocations',
  'Tests try single operations on a fresh dict with list arguments.',
  [PK], [('data, names', 'the two mappings', PK)],
  [('key and dimension checks in every entry point', PK + ' IntKeyDict, NpDict'), ('lookup order', PK + ' _datakey')],
  ['items of data and names, result of pack(ch) and name(ch)'])

p('C17', 'On-demand workbooks equal eager ones under any load/unload history',
  "An xls workbook (BIFF 5 to 8) opened on demand gives for every sheet, loaded, unloaded and reloaded in any order and interleaved with other workbooks, exactly the cells an eagerly loaded workbook gives, and a load that fails (damaged sheet data, a sheet that does not exist, an interrupt or exhausted memory at any point) raises, never leaves a half-loaded sheet, and leaves the other sheets readable. sheet_names and sheet_loaded report the history truthfully, and after the resources are released no file or map stays open and further loads raise instead of returning wrong cells.",
  ['histories', 'fault_sequences', 'inputs'],
  'all histories of loads, unloads and releases over generated xls workbooks, with damaged sheets',
  'The tests open each sample workbook once and load sheets in one order.',
  [XB, XS, XC], [('sheet list', 'loaded sheet objects', XB)],
  [('get_sheet seeks to the sheet offset and parses', XB), ('release_resources', XB)],
  ['cells of the loaded sheets, sheet_names, sheet_loaded, exceptions'])

p('C22', 'Every way of opening a workbook gives exactly the cells stored in it',
  "open_workbook on a path, with or without memory mapping, or on contents in memory (bytes or a map), eagerly or on demand, with or without ragged rows and (for xls) formatting information, gives for every sheet, through every accessor (cell, row, column, slices, iteration), exactly the stored cells with their types and values; ragged rows only leave out empty cells at the ends of rows, formatting information only adds blank cells. An I/O error, interrupt or exhausted memory while opening raises with that failure visible and leaves no file or map open; a later opening is exact, and once the resources are released nothing stays open.",
  ['inputs', 'fault_sequences'],
  'all generated workbooks of every format version, all combinations of opening arguments, a fault at every I/O call of an opening',
  'The tests open a few sample workbooks with default arguments.',
  [XB, XS, XC, 'channelpack/xlrd/__init__.py', 'channelpack/xlrd/xlsx.py'], [('sheet cells', 'types and values by row', XS)],
  [('cells are placed and rows padded', XS + ' put_cell_ragged, put_cell_unragged, tidy_dimensions'), ('the source is mapped or read whole', XB + ' biff2_8_load')],
  ['cells by every accessor, sheet names and sizes, exceptions, open handles and maps'])

p('C18', 'Column letters and cell addresses convert exactly',
  "letter2num, cellreference and usecols strings map every spreadsheet address to its zero-based row and column, and reject malformed ones.",
  ['inputs'], 'all address strings', 'Tests sample a few addresses.', [RX], [], [('base-26 conversion', RX + ' letter2num')], ['return values'])
p('C19', 'Excel serial dates convert exactly in both date systems',
  "Every valid serial number converts to the calendar date and time it stands for in the 1900 and 1904 date systems, and ambiguous or negative ones are rejected.",
  ['inputs'], 'all serial numbers and both date modes', 'Tests sample a few dates.', ['channelpack/xlrd/xldate.py'], [], [('date arithmetic', 'channelpack/xlrd/xldate.py')], ['return values'])
p('C20', 'Trigger and run-length helpers compute the documented function',
  "startstop_bool, slicelist and masked, as functions of their arguments alone, give the documented result for all arguments.",
  ['inputs'], 'all argument values', 'Tests sample a few sequences.', [DU], [], [('one pass loops', DU)], ['return values'])
p('C21', 'Number format strings are classified as date or not date correctly',
  "Whether a cell style's number format denotes a date is decided correctly for every format string, and formulas are decompiled to the text that was entered.",
  ['inputs'], 'all format strings and formulas', 'Tests sample a few formats.', ['channelpack/xlrd/formatting.py', 'channelpack/xlrd/formula.py'], [], [('format scanning', 'channelpack/xlrd/formatting.py')], ['cell types'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
