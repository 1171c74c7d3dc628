PRE = '''
from hachoir.stream import StringInputStream, InputSubStream, InputIOStream
'''
SEEDS = [
dict(id='c04-tail-short', property='C04', file='hachoir/stream/input.py',
 old="            buffer = buffer[len(buffer) - length + 1:] + data\n",
 new="            buffer = buffer[len(buffer) - length + 2:] + data\n",
 needs='an occurrence straddling two internal reads with a single byte in the second one',
 breaks='the occurrence is missed', demo=PRE + '''
for ln in (2, 3, 10):
    needle = b'a' * (ln - 1) + b'b'
    for p in range(4096 - ln, 4099):
        d = bytes(p) + needle + bytes(50)
        assert StringInputStream(d).searchBytes(needle) == 8 * p, (ln, p)
'''),
dict(id='c04-small-read', property='C04', file='hachoir/stream/input.py',
 old="        size = max(3 * length, 4096)\n",
 new="        size = max(length // 3, 4096)\n",
 needs='a needle longer than 4097 bytes which starts in the first read and does not end there',
 breaks='bytes at the start of the buffer are lost, the occurrence is missed', demo=PRE + '''
for ln in (4000, 4097, 5000, 9000, 20000):
    needle = bytes((i * i + i // 256) & 255 for i in range(ln))
    for p in (0, 1, 700, 4000):
        d = b'-' * p + needle + b'-' * 30
        assert StringInputStream(d).searchBytes(needle) == 8 * p, (ln, p)
        assert StringInputStream(d).searchBytesLength(needle, True, 0) == p + ln
'''),
dict(id='c04-found-first', property='C04', file='hachoir/stream/input.py',
 old="            found = buffer.find(needle)\n",
 new="            found = data.find(needle)\n            if found >= 0:\n                found += len(buffer) - len(data)\n            else:\n                found = buffer.find(needle)\n",
 needs='an occurrence straddling two reads and another occurrence inside the second read',
 breaks='the later occurrence is reported', demo=PRE + '''
for needle in (b'aab', b'aa', b'abab', b'abac'):
    for p in range(4090, 4100):
        d = bytes(p) + needle + bytes(20) + needle + bytes(5000)
        assert StringInputStream(d).searchBytes(needle) == 8 * p, (needle, p)
'''),
]
