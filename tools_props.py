"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p('C01', 'Integer reads return exactly the addressed bits',
  "Reading an integer of any width at any bit address of a stream yields exactly the value of those bits in the requested byte order (big, little or middle endian, the last one exchanging the bytes of each 16-bit word), two's complement when signed. A read that reaches past the end of the data raises a stream error instead of returning a value, and reading never modifies the stream. The value of an integer, bit or character field is the one of its own bits in the byte order of its set, signed if its type says so.",
  ['inputs'], 'every byte content, bit address >= 0, bit width >= 1, byte order, signedness',
  'Tests read a few dozen (address, width, endian) triples; the guarantee is about the arithmetic relating address, width and content for all of them.',
  ['hachoir/stream/input.py', 'hachoir/core/bits.py', 'hachoir/core/tools.py', 'hachoir/field/integer.py', 'hachoir/field/bit_field.py', 'hachoir/field/character.py'],
  [('bit window extraction', 'InputStream.readBits / readInteger'), ('fields', 'GenericInteger, RawBits, Bit, Character'), ('byte string to integer', 'str2long, strswapmid, arrswapmid'), ('alignment', 'alignValue')])

p('C02', 'Byte reads return exactly the addressed window, on every kind of stream',
  "A byte read of n bytes at a byte address returns exactly the bytes of that window of the stream's content, or raises a stream error when the window is not entirely available; it never returns other, fewer or more bytes. This holds alike for in-memory, seekable-file, sub-, concatenated and fragmented streams, where the content is respectively the data, the file, the parent's window, the concatenation and the fragments in order; the file-like view of a stream obeys the usual seek/tell/read semantics over that content. Opening a file gives its bytes, or the part of it asked for; the stream of a field gives the content of the field, decompressed if the field is; a view of a stream whose size is found late tells the right size from then on.",
  ['inputs', 'histories'], 'every content, address and length, every nesting offset, every list of fragments, every sequence of seek/read calls',
  'Tests read real files front to back through one or two stream kinds; off-by-one windows at fragment or concatenation borders are never exercised.',
  ['hachoir/stream/input.py', 'hachoir/stream/input_helper.py', 'hachoir/field/sub_file.py', 'hachoir/parser/common/deflate.py', 'hachoir/parser/archive/bzip2_parser.py', 'hachoir/parser/image/png.py'],
  [('in-memory read', 'StringInputStream.read'), ('file read', 'InputIOStream.read'), ('window', 'InputSubStream.read'), ('concatenation', 'ConcatStream.read'), ('fragments', 'FragmentedStream._feed/read'), ('file view', 'FileFromInputStream'), ('opening', 'FileInputStream'), ('decompression', 'CompressedStream.read, DeflateStream, Gunzip, Bunzip2'), ('late size', 'InputStream._setSize, askSize')])

p('C03', 'Pipe inputs behave like seekable files within the cache',
  "A non-seekable input wrapped as a stream returns, for any sequence of seeks and reads, the same bytes a seekable file with the same content would return, reading the underlying input strictly forward and never twice. The only permitted difference is an explicit stream error when seeking back to a block that was discarded, and no block is discarded while fewer than the configured minimum number of blocks is held.",
  ['histories', 'inputs'], 'every content, every sequence of seek/read requests',
  'Tests do not use a pipe at all; cache bookkeeping depends on the whole access history.',
  ['hachoir/stream/input.py'],
  [('block cache, LRU ring and discarding', 'InputPipe._append/_get/_flush/read')],
  [('buffers', 'block cache; a prefix may be discarded'), ('last', 'most recently used block (head of the ring)'), ('first', 'first non-discarded block')])

p('C04', 'Byte-string search finds the first occurrence in the range',
  "Searching a byte string in a stream between two byte addresses returns the address of its first occurrence lying entirely inside the range, and None exactly when there is none, however the occurrence falls relative to internal read boundaries. The length variant returns the number of bytes from the start address to that occurrence, plus the needle length when asked to include it.",
  ['inputs'], 'every content, needle, start and end address',
  'Occurrences straddling the 4096-byte reads, or ending exactly at the limit, need crafted inputs; tests search small strings only.',
  ['hachoir/stream/input.py'],
  [('chunked search', 'InputStream.searchBytes'), ('length variant', 'InputStream.searchBytesLength')])

p('C05', 'Bit-level output writes exactly the requested bits and reads back',
  "After any sequence of bit, bits, integer and byte writes in one byte order, the bytes emitted are exactly the concatenation of the written values at their widths in that order, with at most seven pending bits. A value written as a signed or unsigned integer of some byte size, or copied from an input stream at any bit address, reads back as the same value through the input stream functions.",
  ['inputs', 'histories'], 'every sequence of writes, every width and value, both byte orders',
  'Tests cover one editor scenario with byte-aligned writes; bit alignment states and carries over byte boundaries are unexercised.',
  ['hachoir/stream/output.py', 'hachoir/core/bits.py'],
  [('bit writers', 'OutputStream.writeBit/writeBits/writeInteger'), ('copy', 'OutputStream.copyBitsFrom/copyBytesFrom'), ('integer to bytes', 'long2raw')],
  [('_bit_pos', 'number of pending bits'), ('_byte', 'pending partial byte')])

p('C06', 'Fields tile their field set: contiguous, in order, exact total size',
  "At every moment the fields of an ordinary field set start at address 0 and each field starts exactly where the previous one ends; when parsing of a set finishes without error its fields cover exactly its size, whatever the parser code yielded, including truncated data with automatic repair. Replacing a field or writing fields inside one keeps the covered range, the addresses and the total size unchanged, and field names stay unique. The filler made to reach an address ends exactly there, and the size of a static field set or of a vector is the one of the fields it creates.",
  ['inputs', 'histories', 'programs'], 'every sequence of fields a parser may yield (any sizes, duplicate names, too-large or failing fields) and every truncation point',
  'Tests parse a few dozen well-formed files; repair paths depend on where the data ends relative to nested sets.',
  ['hachoir/field/generic_field_set.py', 'hachoir/field/basic_field_set.py', 'hachoir/field/helper.py', 'hachoir/field/static_field_set.py', 'hachoir/field/vector.py'],
  [('adding fields', 'GenericFieldSet._addField'), ('repair', '_fixFieldSize, _fixLastField, _truncate, _stopFeeding, _fixFeedError'), ('replacement', 'replaceField, writeFieldsIn'), ('unique names', 'BasicFieldSet.setUniqueFieldName'), ('filler', 'seekBit, seekByte, createPaddingField, createNullField, createRawField'), ('fixed shapes', 'StaticFieldSet, GenericVector')],
  [('_current_size', 'end address of the last field'), ('_fields', 'ordered dictionary of fields')])

p('C07', 'The ordered field dictionary stays consistent',
  "After any sequence of append, insert, replace, assignment and delete operations, the ordered dictionary's lookup by key, lookup of a key's position, iteration order and length agree with a plain ordered list of key/value pairs subjected to the same operations. An operation that is refused (duplicate key, bad index, unknown key) leaves the dictionary unchanged.",
  ['histories', 'inputs'], 'every sequence of operations with any keys and indices',
  'Doctests make one call each; index bookkeeping errors only show after combined inserts and deletes.',
  ['hachoir/core/dict.py'],
  [('index maintenance', 'Dict.append/insert/replace/__delitem__/__setitem__')],
  [('_index', 'key -> position'), ('_key_list/_value_list', 'position -> key / value')])

p('C08', 'Field addresses and paths identify fields consistently',
  "A field's absolute address is the sum of the relative addresses on its path to the root, and looking up the path a field reports (from the root, or relative names and dot-dots from any field) returns that same field; looking up something that does not exist raises the missing-field error. Looking a field up by bit address returns the field that covers that address, and array access enumerates exactly the consecutively numbered fields, with a correct length whatever was accessed before.",
  ['inputs', 'histories'], 'every tree of fields, every path, address and access order',
  'Tests look up fixed paths in fixed files.',
  ['hachoir/field/field.py', 'hachoir/field/generic_field_set.py', 'hachoir/field/fake_array.py'],
  [('absolute address and path', 'Field.absolute_address/path'), ('path lookup', 'Field.getField/_getField'), ('lookup by address', 'GenericFieldSet.getFieldByAddress'), ('arrays', 'FakeArray')])

p('C09', 'Reading a field never raises for content errors and is computed once',
  "Reading the value, display, raw display or description of a field whose computation fails with an ordinary error yields None (or the empty string for texts) and logs an error instead of raising. Each of them is computed at most once and every later read returns the same object. (A parser without a description of its own has the general description of its format.)",
  ['inputs', 'histories'], 'every failing or succeeding computation and every order of reads',
  'Tests read well-formed fields once.',
  ['hachoir/field/field.py'],
  [('lazy cached accessors', 'Field.value/display/raw_display/description')])

p('C10', 'Editing writes back unchanged data verbatim and edits exactly',
  "Writing an edited field set to an output produces the original bytes for every field that was not edited, in order, with each edited, inserted or deleted field changing only its own bytes; with no edits the output equals the original data of the set. The sizes and addresses reported by the edited set match what is written.",
  ['inputs', 'histories'], 'every field layout and every sequence of edits',
  'Two editor tests on one gzip file and one tar file.',
  ['hachoir/editor/fieldset.py', 'hachoir/editor/field.py', 'hachoir/editor/typed_field.py'],
  [('overlay of original and edited fields', 'EditableFieldSet'), ('verbatim copy', 'FakeField.writeInto, OutputStream.copyBitsFrom')])

p('C11', 'Integer, byte and bit conversions are exact inverses',
  "Converting an integer to raw bytes and back gives the same integer for either byte order and any sufficient size; byte swaps exchange exactly the bytes of their word and undo themselves; the number of bits counted for an integer is its minimal binary length. Binary-text conversions give the binary digits of the number in the stated order and parse back to the same number.",
  ['inputs'], 'every integer, size and byte order',
  'Doctests try one to four values per function.',
  ['hachoir/core/bits.py'],
  [('conversions', 'swap16, swap32, arrswapmid, long2raw, str2long, countBits, long2bin, bin2long, byte2bin, str2bin, str2hex')])

p('C12', 'Sorted search and alignment return the exact boundary',
  "Searching an ordered sequence returns the boundary position: the smallest index at which the ordering test fails (the length of the sequence if it never fails), respectively an index of an element equal to the key (None exactly when there is none). Aligning a value returns the smallest multiple of the alignment not below it, and the padding is the difference.",
  ['inputs'], 'every ordered sequence, key and value',
  'Doctests try a handful of lists; binary-search boundaries need all lengths and positions.',
  ['hachoir/core/tools.py'],
  [('binary search', 'lowerBound, binarySearch'), ('alignment', 'alignValue, paddingSize')])

p('C13', 'Gap computation and seekable field sets cover every bit exactly once',
  "For any list of blocks, the reported gaps of a range are exactly its positions covered by no block: increasing, non-empty, disjoint and maximal. A seekable field set therefore ends up, after parsing, with every bit of its size covered, and filler fields overlap no parsed field.",
  ['inputs'], 'every start, length and list of blocks (overlapping, unordered, outside the range)',
  'One doctest example.',
  ['hachoir/field/seekable_field_set.py'],
  [('gap computation', 'getgaps'), ('filler fields', 'RootSeekableFieldSet._fixLastField')])

p('C14', 'String fields consume exactly their encoded extent',
  "A terminated string field ends at the first terminator of its character width at or after its start and its size covers the text plus the terminator; a length-prefixed string covers its prefix plus the announced number of bytes; a fixed string covers exactly its size. The decoded value is the decoding of exactly those content bytes minus terminator, prefix, requested truncation and stripping.",
  ['inputs'], 'every content and charset, every length',
  'Tests meet only the strings in the sample files.',
  ['hachoir/field/string_field.py'],
  [('extent and decoding', 'GenericString.__init__/_createValue')])

p('C15', 'Text made for display is printable, and text clean-up is exact',
  "Making any text or byte string printable yields only characters the requested output charset can represent, with no raw control character below 32, and never raises; printable characters the charset can represent are kept, the others become escapes. (The charset is one which can represent ASCII.) Converting line ends yields text without carriage returns in which every run of line ends (CRLF, CR or LF) became exactly one LF and nothing else changed, and making unicode never fails on any byte string.",
  ['inputs'], 'every text and byte string',
  'Doctests try a few strings.',
  ['hachoir/core/tools.py'],
  [('sanitising', 'makePrintable, makeUnicode, normalizeNewline')])

p('C16', 'Timestamp conversions denote the exact instant',
  "Each numeric timestamp conversion (Unix, Macintosh, Windows 64-bit, UUID/Gregorian) returns epoch + value in the unit of the format, truncated to the microsecond (UUID: rounded to a microsecond next to it), for every value in range, and refuses values out of range (a value error; for Macintosh timestamps the text 'invalid Mac timestamp'). Packed DOS date and time fields of a little endian file decode to exactly the packed year, month, day, hour, minute and second (month or day 0 reads as 1).",
  ['inputs'], 'every in-range and out-of-range integer',
  'Doctests try one or two values each; precision loss shows only at large magnitudes.',
  ['hachoir/core/tools.py', 'hachoir/field/timestamp.py'],
  [('timestamps', 'timestampUNIX, timestampMac32, timestampWin64, durationWin64, timestampUUID60')])

p('C17', 'Character-class and sequence algebra of the regex library is language-exact',
  "Combining two regular expressions by sequence or alternative yields an expression matching exactly the concatenation or union of the two languages, without modifying its operands, and a character class built from ranges or unions matches exactly the characters it denotes; the text of an expression means the same to the re module. (The simplifications made by the constructor of a repetition are not part of it; a repetition means what its attributes say.) The reported minimum and maximum match lengths bound the length of every string the expression matches.",
  ['inputs'], 'every pair of expressions of the library and every string',
  'Doctests print a few combinations without checking the language.',
  ['hachoir/regex/regex.py'],
  [('optimising combinators', 'RegexString/RegexRange/RegexAnd/RegexOr/RegexRepeat ._and/_or_'), ('range merging', 'RegexRange.rangeAdd/optimize'), ('length bounds', 'minLength/maxLength')])

p('C18', 'Signature search reports every match at its right place',
  "Searching registered string patterns in a buffer reports each occurrence with its own pattern's tag and exact start position, in increasing order without overlaps. Scanning a file for embedded files examines every position: a signature is found wherever it lies relative to the internal read slices. Every file which is found and whose size is known is stored, when this is asked for and unless it is the whole input, is too big or is filtered out: its bytes, under a name of its own.",
  ['inputs', 'configurations'], 'every set of patterns, every content, every position relative to slice borders',
  'No test scans content larger than one slice.',
  ['hachoir/regex/pattern.py', 'hachoir/subfile/search.py', 'hachoir/subfile/output.py'],
  [('pattern matching', 'PatternMatching.search'), ('slices', 'SearchSubfile.findMagic')])

p('C19', 'Metadata items are filtered, deduplicated and ordered deterministically',
  "Adding a value to a metadata entry never stores None, an empty text, a value of a wrong type or a value its filter refuses (the range filters refuse every number and date out of their range, and NaN), never stores two equal values nor a text which is the beginning of another one (the longer text is kept), and drops nothing else; texts longer than MAX_STR_LENGTH are cut and marked. The plain text export lists the entries by priority up to the wanted one, each value once with its text, in the order they are stored; the parts of multiple metadata follow the common values in their order.",
  ['inputs', 'histories'], 'every sequence of added values',
  'Tests look at final metadata of sample files.',
  ['hachoir/metadata/metadata_item.py', 'hachoir/metadata/metadata.py', 'hachoir/metadata/filter.py'],
  [('adding', 'Data.add'), ('filters', 'NumberFilter, DatetimeFilter'), ('export', 'Metadata.exportPlaintext/__iter__')])

p('C20', 'Parser selection returns only validated parsers',
  "Guessing the parser of a stream returns the first candidate in order that validates the content, or nothing, never a parser whose validation fails unless a fallback was requested, or the parser was named by its identifier or its class; candidates are tried in the order of the tags, then of the registry, and the parser already validated for that stream may be returned again if it is a candidate. An error inside a candidate only disqualifies that candidate. Adding the same parser twice to the registry or giving it malformed tags is refused or ignored, never corrupting lookups by identifier or tag.",
  ['inputs', 'configurations'], 'every list of candidates with any validation outcome',
  'Tests guess parsers for valid files only.',
  ['hachoir/parser/guess.py', 'hachoir/parser/parser.py', 'hachoir/parser/parser_list.py'],
  [('selection', 'QueryParser.parse/doparse'), ('validation', 'Parser.__init__'), ('registry', 'ParserList.add')])

p('C21', 'Time and memory limits are always restored',
  "Running a function under a time or memory limit returns its result or raises its own exception unchanged, raises the documented error when the limit is hit, and in every case leaves the process's alarm handler, pending alarm and memory limit as they were before.",
  ['inputs', 'fault_sequences'], 'every function behaviour: return, any exception, limit hit',
  'No test covers these helpers.',
  ['hachoir/core/timeout.py', 'hachoir/core/memory.py'],
  [('time limit', 'limitedTime'), ('memory limit', 'limitedMemory')])

p('C22', 'Editable fields accept exactly the values their encoding can hold',
  "Setting the value of an editable field succeeds exactly for values its encoding can represent, and writing it then produces bytes that parse back to the same value; any other value is rejected with a value error (a type error for what is not a value of that kind of field) and leaves the field unchanged. Strings are set as bytes; dates are kept to the second, floats are rounded to the precision of their format.",
  ['inputs'], 'every field type, size, signedness and value',
  'The editor tests set two values.',
  ['hachoir/editor/typed_field.py'],
  [('range check', 'EditableInteger._setValue'), ('writing', 'Editable*._write')])

with open('/verif/properties.jsonl', 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
