"""Writes MANIFEST.json from the list of claimed properties."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the real functions (pyvc: contracts and loop invariants, obligations discharged by z3/cvc5)'
CLAIMED = {   # property -> (level, note)
    'C01': ('proof', 'readBits, readInteger, str2long, strswapmid, arrswapmid, alignValue: every content, address, width and byte order; the values of integer, bit and character fields.'),
    'C02': ('proof', 'read of every kind of stream (memory, file, pipe behind the contract of its buffer, sub-stream, concatenation, fragments), readBytes, sizeGe, InputFieldStream and the file view (seek, tell, read): every content, address, size, chain of fragments. Fragments are whole aligned bytes; the underlying file object is an assumed contract (C03 for pipes). Opening a file or a part of it; the stream of a field; CompressedStream.read and the decompressors over an assumed contract of zlib and bz2; telling the size to the views.'),
    'C05': ('proof', 'OutputStream.writeBit, writeBits, writeBytes, writeInteger, copyBitsFrom, copyBytesFrom: every pending state, width, value, address and byte order; read-back through the contracts of C01. readBytes and the constructors.'),
    'C07': ('proof', 'Dict.append, insert, replace, __setitem__, __delitem__ and every reading method, the constructor: arbitrary dictionary satisfying the representation invariant, arbitrary keys, values and indexes.'),
    'C11': ('proof', 'swap16, swap32, arrswapmid, strswapmid, countBits, long2raw, str2long, byte2bin, long2bin, bin2long, str2bin, str2hex: all integers, sizes, texts and byte orders (proved).'),
    'C12': ('proof', 'lowerBound, binarySearch, alignValue, paddingSize: every sequence, test, key, value and alignment.'),
    'C03': ('proof', 'InputPipe.seek, read, _append, _get, _flush: every content, block position, cache state and minimum; the ring of blocks is proved to stay a single ring in access order, only the least recently used block is discarded. Assumed: the underlying read(n) is short only at the end. Block size: the default (2**16) in the proof, small sizes in the executable contract.'),
    'C04': ('proof', 'searchBytes, searchBytesLength: every content, needle, range, and streams whose size is known or discovered while reading. Assumed: bytes.find returns the first index. Streams obey the contract of read (C02).'),
    'C13': ('proof', 'getgaps: every list of blocks and range; end of parsing of seekable field sets (_stopFeeding, _fixLastField, seekBit) over the contracts of getgaps, of the ordered dictionary (C07) and of createRawField. A root set of unknown size (pipe) is outside.'),
    'C08': ('proof', 'absolute_address and path for ancestor chains of any depth; getField for any number of parts; dots; GenericFieldSet._getField, getField(int), _feedUntil for any parser; getFieldByAddress over the contract of lowerBound and the tiling (C06); arrays (length, iteration, membership). Assumes the contracts of the ordered dictionary (C07), of _addField and of the repair; names hold no slash and are not only dots.'),
    'C06': ('proof', 'fields of a GenericFieldSet: adding, truncating, repair, replacing, writing, iteration, room left; names, fillers, orphans, a new set and its reset; size of static sets and vectors'),
    'C09': ('proof', 'every getter of value, display, raw_display and description found by importing the whole package (each class which replaces one is scanned mechanically) against its contract: any sequence of reads, create*() returning any object or raising any ordinary error; computed once, None or the empty text on error, an error logged; BaseException passes through'),
    'C14': ('proof', 'GenericString (__init__, suffix and BOM choice, createValue, _convertText) against a stream of arbitrary bytes: extents, terminator, prefix and content for every format, charset and byte order; decoding itself is an assumed pure function of the bytes and the charset'),
    'C16': ('proof', 'each conversion and timestamp field against integer arithmetic over an assumed exact contract of timedelta/datetime for whole arguments; packed DOS dates part by part; floats and the rounding of UUID timestamps by executable contract'),
    'C22': ('proof', 'EditableInteger (every size and sign), EditableBits, EditableBytes, EditableString of every format (every charset family, BOM, terminator), EditableCharacter, EditableTimestampMac32: set, refuse, size, write against the output contract of C05; parse-back through the field contracts of C01 and C14. createEditableField and whole-file parse-back: executable contract.'),
    'C10': ('proof', 'EditableFieldSet: writeInto, iteration, length, size, addresses, lookup, deletion, insertion (every state: any number of original, deleted and inserted fields), is_altered, reset; NewFieldSet; EditableFloat; unedited fields. Edited fields: C22; the bits of a copy: C05; the original set: C06, C07. Whole edited files, nested: executable contract.'),
    'C21': ('proof', 'limitedTime, fixTimeout and limitedMemory under contract: alarm, handler, clock and resource limit are ghost state; setitimer/signal/resource are assumed contracts'),
    'C18': ('proof', 'findMagic, searchSubfiles, guess, mainHeader, HachoirPatternMatching and PatternMatching under contract; the | of regular expressions and re.finditer are assumed (bounded check over alphabets of special characters)'),
    'C20': ('proof', 'QueryParser (translation of tags, candidates, validation, errors, fallback, cache) and ParserList (tags of a parser, registry, lookups) under contract over an arbitrary list of parsers with arbitrary answers; the fallback constructor is assumed not to fail'),
    'C19': ('proof', 'Data.add, __contains__, _createItem, the filters, the plain text exports under contract over arbitrary values and stored values; sorted and the functions on texts (strip, newlines) are assumed contracts'),
    'C15': ('proof', 'makePrintable, makeUnicode, normalizeNewline through an arbitrary character or run of line ends of an arbitrary text; patterns and tables are read from the compiled module for every code point; the backslashreplace of the encoders is an assumed contract (checked over every code point of common charsets by the executable contract)'),
    'C17': ('proof', 'classes of expressions by a semiring argument; printing over the grammar of re; RegexRepeat.__init__ simplifications by the executable contract'),
}
NA = {}
checks = [dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p,
               thorough_cmd='python3-vt check.py %s --tier thorough' % p,
               technique=TECH, level=lv, level_note=note) for p, (lv, note) in sorted(CLAIMED.items())]
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [dict(property=p, reason=NA.get(p, 'no check registered yet')) for p in ids if p not in CLAIMED]
json.dump(dict(version=1,
               setup_cmd='python3-vt -c "import z3, sys; print(z3.get_version_string())" && cvc5 --version | head -1',
               checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not claimed')
