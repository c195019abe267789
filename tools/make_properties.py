#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand; the .jsonl is what is committed and read)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))


DM = 'pydarnio/dmap/dmap.py'
SD = 'pydarnio/dmap/superdarn.py'
SF = 'pydarnio/dmap/superdarn_formats.py'
CV = 'pydarnio/utils/conversions.py'
BF = 'pydarnio/borealis/base_format.py'
FM = 'pydarnio/borealis/borealis_formats.py'
BU = 'pydarnio/borealis/borealis_utilities.py'
BS = 'pydarnio/borealis/borealis_site.py'
BA = 'pydarnio/borealis/borealis_array.py'
BO = 'pydarnio/borealis/borealis.py'
BR = 'pydarnio/borealis/borealis_restructure.py'
BC = 'pydarnio/borealis/borealis_convert.py'

p('C01', 'DMAP write-then-read returns the same records',
  'Any list of records that each hold at least one scalar and one non-empty numeric array of the supported types '
  '(8/16/32/64-bit signed and unsigned integers, 32/64-bit floats, text) reads back - from a file or from a byte stream - '
  'as the same number of records in the same order, with the same field names in order (scalars first, then arrays), the same types, the same array shapes and '
  'bit-identical values, whatever the memory layout or byte order of the arrays handed in. '
  'Plain Python integers and floats travel as 32-bit integers and single-precision floats; everything else travels exactly.',
  ['inputs'], 'every field type x boundary value x array rank/shape x memory layout, every combination of field types, every number of records and fields, file and stream',
  'The existing tests write one or two fixed records with small positive values; they never combine types, ranks, layouts, signed 8-bit values, 64-bit arrays or non-ASCII text.',
  [DM, CV], [('record/scalar/array encoder', DM), ('record/scalar/array decoder', DM), ('dictionary conversion', CV)],
  ['DmapWrite(...).write_dmap / write_dmap_stream followed by DmapRead(...).read_records'])

p('C02', 'DMAP bytes follow the published wire format exactly',
  'The bytes written for a list of records are exactly the DMAP encoding of those records: per record the 65537 identifier, the total block size, the scalar count, the array count, all scalars then all arrays, names and text NUL-terminated UTF-8, '
  'array dimensions listed fastest-varying first, all in host byte order with no padding. '
  'Reading any well-formed DMAP stream yields the values that format defines, and writing those records again reproduces the stream byte for byte.',
  ['inputs'], 'every well-formed stream over a bounded alphabet of names, types, values, ranks and record counts; byte-exact comparison with an independently written codec',
  'Tests only feed pydarnio its own output, so a writer and reader that are wrong in the same way (order of dimensions, block size, type codes) agree with each other.',
  [DM, CV], [('encoder', DM), ('decoder', DM), ('type code tables', DM + ' / ' + CV)],
  ['bytes returned by write_dmap_stream', 'bytes in files written by write_dmap and the SuperDARN writers'])

p('C03', 'Truncated or corrupted DMAP data is never silently mis-read',
  'A DMAP stream that is cut short anywhere inside a record, or altered so that it is no longer well formed, is rejected with one of the documented DMAP errors, and reading it always terminates. '
  'If the reader does return records for some bytes, they are exactly the records that the DMAP format defines for those bytes (the leading identifier of a record carries no data and is not checked). '
  'A check of the initial integrity of the data accepts exactly those streams whose block sizes chain to the end of the data.',
  ['inputs', 'crash_points'], 'every truncation point, every single-byte change (all 255 values at structural bytes), every 32-bit size/count field replaced by each boundary value, every insertion and deletion of a byte, over a set of streams covering all types',
  'The tests corrupt one stream at one random place and skip it by default; the guarantee is over every cut and every damaged byte.',
  [DM, SD], [('size, count, type and cursor checks', DM)], ['DmapRead(bytes, True).read_records', 'DmapRead.test_initial_data_integrity', 'SDarnRead.read_*'])

p('C04', 'DMAP writers are repeatable and never alter the data they are given',
  'Every write produces exactly the encoding of the records handed to the writer, whatever that writer object did before: writing again to the same or another place, after a stream write, or after a failed write, gives the same bytes. '
  'The records supplied by the caller, including their arrays and shapes, and bytes returned by earlier writes are never changed.',
  ['histories'], 'every sequence of write operations up to a depth on one writer, over dictionary and DMAP-structured input',
  'Tests perform a single write per writer object, so state left behind in the object or in the caller\'s records is invisible to them.',
  [DM, SD], [('output buffer', DM), ('array shape encoding', DM)], ['bytes on disk and returned streams after each operation', 'deep snapshot of the caller\'s records'],
  [('output buffer', 'bytes accumulated by a writer', DM), ('record list', 'records held by a writer', DM)])

p('C05', 'SuperDARN field rules are enforced identically when reading and writing',
  'For each SuperDARN file type (iqdat, rawacf, fitacf, grid, map, snd) a record is accepted exactly when it contains no field foreign to that type, every field has the element type the format prescribes, and each group of fields is either wholly present or wholly absent (optional fields may be partly present). '
  'Reader and writer give the same verdict, and a rejection names the failing record and exactly the offending fields with the error for missing, foreign or wrongly typed fields. ',
  ['inputs'], 'every single-field deletion, addition and retyping in every field group of every file type, pairs of such changes, whole-group removals in every combination, at every record position, on both the reading and the writing side',
  'Tests delete, add or retype one hand-picked field of the first record of each type and only on the writing side.',
  [SD, SF], [('missing/extra/type checks', SD), ('field tables', SF)], ['SDarnWrite.write_*', 'SDarnRead.read_*'])

p('C06', 'SuperDARN reading is complete, repeatable and leaves its input alone',
  'Reading a valid SuperDARN file or the same bytes as a stream returns every record in file order with every field value, and repeating a read, interleaving it with reads as other types, integrity checks or record queries, or retrying after a failed read never drops, duplicates or mislabels records: each call returns the full validated contents or raises. '
  'Records already handed out, the input file and the caller\'s byte buffer are never modified, and records handed out share no memory with the caller\'s buffer.',
  ['histories', 'inputs'], 'every sequence of reader operations up to a depth, over valid files, files with one bad record at each position, and streams',
  'Tests make one read call per reader on external files that are not available, and never mix or repeat calls.',
  [SD, DM], [('cursor and record list of a reader', DM), ('typed read loop', SD)], ['return values of read_* / get_records / get_dmap_records'],
  [('cursor', 'position in the data', DM), ('records', 'records read so far', DM)])

p('C07', 'A DMAP write that fails leaves the destination as it was',
  'If writing records to a file raises - because a record breaks the file type\'s rules, a value cannot be encoded, or no records or file name were given - then an existing destination keeps its previous contents and a new destination is not created, no matter which record is at fault. '
  'If the operating system reports an error while the data is being stored, the call raises instead of reporting success.',
  ['inputs', 'fault_sequences'], 'every kind of invalid record at every position for every writing method, destination present or absent; every I/O step (open, each write, close) failing or falling short',
  'Tests only assert that an exception is raised; none inspects the destination afterwards or injects an I/O failure.',
  [DM, SD], [('conversion before opening the file', SD), ('write of the buffer', DM)], ['destination path before and after the call'])

p('C08', 'Borealis site files round-trip',
  'For every supported Borealis version and file type, records written as a site-structured file read back as the same record names and, for each record, the same fields with the same types, shapes and values, whether the structure is stated or detected, and with any supported compression. '
  'Neither the records given to the writer nor the file being read is modified.',
  ['inputs', 'configurations'], 'every version x file type x number of records x per-record dimensions x text values x compression setting, bounded',
  'All Borealis file tests need data files that are not available and are skipped; the runnable ones only check that bad input is refused.',
  [BF, BS, BO, FM, BU], [('HDF5 record codec', BF), ('field tables', FM), ('checks', BU)], ['BorealisWrite(.., "site")', 'BorealisRead(..).records'])

p('C09', 'Borealis array files round-trip',
  'For every supported Borealis version and restructureable file type, data written as an array-structured file reads back with the same fields, types, shapes and values, whether the structure is stated or detected, with the default or any supported compression. '
  'Neither the data given to the writer nor the file being read is modified.',
  ['inputs', 'configurations'], 'every version x file type x record count x padded dimensions x text values x compression setting, bounded',
  'No test that the build can run writes and reads back an array file.',
  [BF, BA, BO, FM, BU], [('HDF5 array codec', BF), ('field tables', FM), ('checks', BU)], ['BorealisWrite(.., "array")', 'BorealisRead(..).arrays'])

p('C10', 'Site/array restructuring in memory is lossless and correctly padded',
  'Asking a reader or writer of site data for arrays gives, for every record, exactly that record\'s values at that record\'s index, the true per-record counts of beams and blanked samples, file-wide fields once, and padding (NaN, -1 or 0) everywhere else; asking array data for records gives back exactly the original records. '
  'This holds for any number of records whose numbers of sequences, beams and blanked samples differ from record to record, and going back and forth any number of times changes nothing.',
  ['inputs', 'configurations'], 'every version x file type x sequence of up to three records over a grid of (sequences, beams, blanked samples), including zero blanked samples and every order of larger and smaller records; repeated restructuring',
  'The restructuring tests need data files that are not available; a sample file has the same dimensions in nearly every record, so padding and slicing errors stay hidden.',
  [BF, FM, BS, BA], [('site to array', BF), ('array to site', BF), ('dimension tables', FM)], ['.arrays of site data', '.records of array data'])

p('C11', 'Restructuring a Borealis file gives the same data as restructuring in memory',
  'Restructuring a file to the other structure produces an output file that reads as valid data of that structure and equals the in-memory restructuring of the same input, field for field, for every version, file type, compression setting and mix of per-record dimensions; restructuring the result back reproduces the original data. '
  'The input file is never modified, and a request that cannot be met (unknown type or structure, type that cannot be restructured, output path equal to the input) is refused without touching either file.',
  ['inputs', 'configurations', 'histories'], 'every version x file type x direction x per-record dimension grid x compression, chains of up to three restructurings, and every refused request',
  'The file-level algorithm is separate code from the in-memory one and is only exercised by skipped integration tests on absent files.',
  [BR, BF, FM, BU], [('iterative site to array', BR), ('iterative array to site', BR), ('maximum dimensions from file', BF)], ['output file of BorealisRestructure', 'bytes of the input file'])

p('C12', 'Borealis data is accepted exactly when it satisfies its format',
  'Reading or writing Borealis data of a given version, file type and structure succeeds exactly when every required field is present, no other field is present, every field has the prescribed type, and (array structure) all per-record data fields agree on the number of records. '
  'Otherwise the documented error is raised - for site data it lists every bad record with exactly the missing, extra or wrongly typed fields - and a refused write does not create or change the destination.',
  ['inputs'], 'for every version x type x structure: every single field removed, each added, each retyped, each per-record field with a wrong record count, and combinations over several records; on the reading and writing side',
  'The runnable tests try one missing and one extra field for two file types of one version.',
  [BU, FM, BS, BA], [('field, type and record-count checks', BU), ('field tables', FM)], ['BorealisWrite', 'BorealisRead'])

p('C13', 'Borealis structure and version are detected correctly',
  'The structure and format version used for a file or data set depend only on its contents: the version is the major.minor part of the software tag stored in it whatever patch level or commit suffix follows, unsupported versions and unknown file types or structures are refused with the documented error, and leaving the structure unspecified gives the same result as naming the right one. '
  'Naming the wrong structure is refused, and no detection attempt modifies or creates a file.',
  ['inputs', 'configurations'], 'every supported version x patch/suffix spelling, unsupported versions, every file type and structure argument, site and array files and data sets',
  'Tests cover one wrong structure name on one data set; version selection is not tested.',
  [BO, BS, BA, BR, BU, FM], [('structure fallback', BO), ('version lookup', BS + ' / ' + BA), ('version table', FM)], ['borealis_file_structure, software_version, format errors of BorealisRead/Write/Restructure'])

p('C14', 'Borealis rawacf converts to a faithful SuperDARN rawacf file',
  'Converting a Borealis rawacf file writes one SuperDARN rawacf record per record and beam, in order, in which times, identifiers, pulse and lag tables, range and frequency parameters, transmit information, lag-zero power and correlation data equal the documented function of that Borealis record and beam; the file passes the SuperDARN rawacf reader and equals the records the converter exposes. '
  'The result does not depend on whether the Borealis file was site or array structured.',
  ['inputs', 'configurations'], 'every version x structure x number of records, beams, ranges and lags x scaling factor, with distinct values in every cell, and all timestamps in a boundary set',
  'Conversion tests need absent files and only check that conversion does not raise.',
  [BC, SD], [('rawacf record conversion', BC)], ['SDarnRead(output).read_rawacf', 'converter record attributes'])

p('C15', 'Borealis bfiq converts to a faithful SuperDARN iqdat file',
  'Converting a Borealis bfiq file writes one SuperDARN iqdat record per record and beam, in order, whose samples are interleaved real/imaginary by sequence, antenna array and sample, scaled and saturated to 16 bits, and whose per-sequence times, offsets and sizes, and all scalar parameters equal the documented function of that Borealis record and beam. '
  'The file passes the SuperDARN iqdat reader, and the result does not depend on whether the Borealis file was site or array structured.',
  ['inputs', 'configurations'], 'every version x structure x number of records, sequences, beams, antenna arrays and samples x scaling factor, values on both sides of saturation',
  'Conversion tests need absent files and only check that conversion does not raise.',
  [BC, SD], [('bfiq record conversion', BC)], ['SDarnRead(output).read_iqdat', 'converter record attributes'])

p('C16', 'Conversions that cannot be faithful are refused without side effects',
  'A conversion is refused with the documented error when the file type has no SuperDARN equivalent, the slice id is neither in the file nor supplied, any record\'s blanked samples do not match its pulses, any pulse phase offset of a bfiq record is non-zero, the station is unknown, or the output path is the input file. '
  'A refused conversion creates no output and leaves any existing output and the source unchanged; a successful one leaves the source unchanged.',
  ['inputs', 'configurations'], 'every refusal cause at every record position, for every version and structure, with the output absent or present',
  'No runnable test converts anything; side effects on files are never inspected.',
  [BC], [('convertibility checks', BC), ('conversion before writing', BC)], ['BorealisConvert', 'source and destination bytes'])

p('C17', 'Results never depend on what was processed earlier in the process',
  'The outcome of any read, write, restructure or conversion depends only on its inputs: performing it after any other operations on other versions, file types, structures or objects in the same process gives the same result or the same error as performing it first.',
  ['histories'], 'every sequence of up to three operations drawn from an alphabet covering all Borealis versions and file types and all SuperDARN file types and operations, each compared with its result in a fresh process',
  'Each test performs one operation on fresh objects; format tables and default arguments shared by the whole process are never exercised across versions.',
  [FM, BF, SD, DM], [('format tables built by inheritance', FM), ('default arguments', DM)], ['results and errors of public operations'])

p('C18', 'Independent readers and writers can run in concurrent threads',
  'Readers and writers that share no object and no file that is written (they may read one and the same file) give, when run from several threads, the results they give when run one after another, under every interleaving of the threads.',
  ['schedules'], 'all interleavings of two threads at source-line granularity up to a preemption bound, for every pair of DMAP/SuperDARN/Borealis operations in an alphabet',
  'Tests are single-threaded.',
  [DM, SD, CV, BF, FM], [('per-object state', DM), ('per-object state', SD), ('class-level tables', FM)], ['results of each thread'])

p('C19', 'Dictionary and DMAP structure forms convert into each other losslessly',
  'Converting record dictionaries to DMAP structures and back returns equal dictionaries (names, order, shapes, values and DMAP types, a plain int or float being the 32-bit type), and converting structures read from DMAP data to dictionaries and back returns structures that encode to the same bytes. '
  'Each structure carries the type, rank and shape of the value it holds, values of unsupported types are refused, and neither conversion alters its argument.',
  ['inputs'], 'every scalar type and boundary value, every array type, rank up to 4, layout, plain lists, and every record of up to three such fields; unsupported types',
  'Two tests convert one fixed record each way.',
  [CV], [('type tables', CV)], ['dict2dmap', 'dmap2dict'])

p('C20', 'Failed storage or cut-short Borealis files are never passed off as success',
  'If storage ends while a Borealis file is written or restructured, or while a Borealis file is converted, after whatever number of bytes, the call does not return normally unless the output is complete; '
  'a destination in a missing folder, or that is a folder, is an error. '
  'A Borealis file cut short at any byte is refused with an error by the reader (with or without the structure named), by the restructurer and by the converter. The input file is never altered.',
  ['crash_points', 'inputs'], 'every operation x version x file type x structure x number of bytes after which storage ends, and every cut of the input file (stepped in the quick run)',
  'No test makes storage fail or cuts a Borealis file.',
  [BF, BO, BR, BC, DM], [('HDF5 writing', BF), ('file restructuring', BR), ('DMAP output of the converter', BC)],
  ['BorealisWrite, BorealisRestructure, BorealisConvert, BorealisRead: return or raise; content of the output file'])

p('C21', 'An interrupted or failed operation harms nothing and can be repeated',
  'If an exception (an interrupt of the user, or lack of memory) arrives at any point inside a read, write, restructure or conversion, it reaches the caller (an interrupt under its own type), input files and data of the caller are as before, '
  'the files of the operation are closed, and the operation can be repeated with the result it would have had - '
  'on the same reader or writer object for reading and writing DMAP data and for the records and arrays of a Borealis reader, and on a new object for everything. '
  'An operation that fails by itself has closed its files as well.',
  ['crash_points', 'histories'], 'every operation x every source line it executes (first and last execution; more in the thorough run) x KeyboardInterrupt and MemoryError x follow-up',
  'Tests never interrupt an operation; the points at which an exception can arrive are thousands.',
  [DM, SD, BF, BO, BR, BC, CV], [('reader cursor and record list', DM), ('writer buffer', DM), ('lazy record/array conversion', BS), ('conversion intermediate state', BC)],
  ['exception at the caller, digests of inputs, /proc/self/fd, result of the repeated call'])

p('C22', 'Results do not depend on the environment of the process',
  'Every operation gives the same result, or the same error, whatever the local time zone, the working directory and the spelling of the path (absolute, relative, through links, with dots, spaces, non-ASCII letters), '
  'whether the user may change the input files or only read them, the level of logging, the hash seed, the optimisation flag of the interpreter, the locale, and file locking; only the name of the source file in the text of a conversion and in messages follows the path.',
  ['configurations', 'inputs'], 'every operation x every time zone x path spelling x logging level, and every listed process environment',
  'Tests run in one environment.',
  [BC, BR, BF, BU, DM, CV], [('record names and times from timestamps', BR), ('times of converted records', BC), ('validation', BU)],
  ['results, files and errors of all public operations'])

p('C23', 'Borealis files of early software are read as the data they stand for',
  'A Borealis file with the markers of PyTables/deepdish on the file, its records and its fields, with empty texts stored as empty attributes, and with the phase offset field of any of its records emptied (an integer field that holds its shape) '
  'gives when read, turned in memory, restructured, restructured back and converted the same as the plain file of the same data in which those offsets are zero. The file is not altered.',
  ['inputs'], 'every version x file type x structure x number of records x subset of emptied records x markers x compression x operation',
  'One test file per version, written by one program.',
  [BF, BU, BR, BS, BA], [('attribute filtering', BF), ('pulse_phase_offset repair', BU), ('restructuring from the file', BR)],
  ['BorealisRead(...).records/arrays, BorealisRestructure, BorealisConvert'])

p('C24', 'What a killed process leaves behind is never taken for other data',
  'If the process is killed at any moment while DMAP or SuperDARN records are written, or while Borealis data are written, restructured or converted to a new file, then the input file is as it was, and the output path holds nothing, '
  'or something every reader refuses, or the complete result. Two kinds of output grow record by record, and may be left with leading whole records of the result, each exactly right: DMAP files, and site files made from array files. '
  'A DMAP file that existed before may be left as it was. The operation, done again in a new process after the remains are removed (for DMAP outputs: over the remains), gives the complete result.',
  ['crash_points'], 'every operation x version x file type x structure x call of the operating system that creates, truncates or writes a file x torn variants of that write',
  'No test kills a process.',
  [BF, BO, BR, BC, DM], [('HDF5 writing', BF), ('file restructuring', BR), ('DMAP writing', DM), ('DMAP output of the converter', BC)],
  ['content of the output file after the process died, as seen by BorealisRead / SDarnRead / DmapRead'])

p('C25', 'Writing Borealis data onto an existing file harms nothing the file holds',
  'Writing or restructuring (to the other structure) valid Borealis data to a path where a file exists either raises an error, or adds whole new records to a file that holds no array data and no record of these names, or puts arrays into an HDF5 file that holds nothing; '
  'everything the file held before is still there, unchanged, in every case. When the writer raises, the file is exactly as before; when the restructurer raises, at most whole leading records of its result have been added. '
  'A call that returns normally has stored the whole of the new data, exactly.',
  ['histories', 'inputs'], 'every destination (empty, marked, foreign, site or array data of the same, later, earlier and overlapping records, other versions and types) x every sequence of writes up to a depth',
  'Tests write to new files only.',
  [BF, BO, BR], [('HDF5 writing', BF), ('record-wise file restructuring', BR)],
  ['BorealisWrite, BorealisRestructure: return or raise; every item of the destination'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        f.write(json.dumps(x) + '\n')
print(len(P))
