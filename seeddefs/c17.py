R = 'hachoir/regex/regex.py'
HEAD = '''
import itertools
import re
from hachoir.regex import createString, createRange, RegexDot, RegexStart, RegexAnd, RegexOr, RegexRepeat, RegexEmpty


def texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def check(regex, expected, alphabet, n=4):
    a, b = re.compile(str(regex), re.DOTALL), re.compile(expected, re.DOTALL)
    for t in texts(alphabet, n):
        assert bool(a.fullmatch(t)) == bool(b.fullmatch(t)), (str(regex), expected, t)


S = createString
'''
SEEDS = [
    dict(id='c17-absorb', property='C17', file=R,
         old="                content = content[:index] + [new_item] + content[index + 1:]\n",
         new="                content = content[:index] + [new_item] + [\n                    item for item in content[index + 1:] if not item._match(new_item)]\n                if len(content) == 1:\n                    return new_item\n",
         needs='three alternatives, one of them merged with a fourth one, and a later one which includes the result',
         breaks='the later alternative is dropped although it matches more: it is the merged one which should go',
         demo=HEAD + '''
r = RegexOr((S("a"), S("xyz"), RegexDot()), optimize=False) | S("b")
check(r, "a|xyz|.|b", "abxyz", 3)
'''),
    dict(id='c17-maxzero', property='C17', file=R,
         old="            if length is None:\n                return None\n            if value is None:\n",
         new="            if not length:\n                return length\n            if value is None:\n",
         needs='an alternative of the empty text and of longer texts',
         breaks='the maximum length is 0',
         demo=HEAD + '''
r = S("color") | S("colors") | S("colorful")
assert (r.minLength(), r.maxLength()) == (5, 8), str(r)
r = RegexOr((S("ab"), RegexEmpty()))
assert (r.minLength(), r.maxLength()) == (0, 2), str(r)
'''),
    dict(id='c17-any', property='C17', file=R,
         old="        return all(matchSingleValue(item) for item in regex)\n",
         new="        return any(matchSingleValue(item) for item in regex)\n",
         needs='two sequences which start by different characters and whose ends share a part and differ later',
         breaks='a.xy|b.xz becomes [ab].x[yz], which also matches a.xz',
         demo=HEAD + '''
D = RegexDot()
check((S("a") + D + S("y")) | (S("b") + D + S("z")), "a.y|b.z", "abyz", 3)
check((S("a") + D + S("xy")) | (S("b") + D + S("xz")), "a.xy|b.xz", "abxyz", 4)
'''),
    dict(id='c17-shared', property='C17', file=R,
         old="        ranges = list(self.ranges)\n        for itemb in branges:\n",
         new="        ranges = self.ranges\n        if not isinstance(ranges, list):\n            ranges = list(ranges)\n        for itemb in branges:\n",
         needs='a class used again after it was part of an alternative',
         breaks='the class also matches the characters of the other side',
         demo=HEAD + '''
digits = createRange("0", "1", "5")
first = digits | createRange("a")
check(first, "[015a]", "015ab")
check(digits, "[015]", "015ab")
check(digits + S("z"), "[015]z", "015az", 2)
'''),
    dict(id='c17-prefix', property='C17',
         edits=[(R, '''    def _eq(self, other):
        if len(self.content) != len(other.content):
            return False
        return all(item[0] == item[1] for item in zip(self.content, other.content))


class RegexOr(Regex):
''', '''    def _eq(self, other):
        return all(item[0] == item[1] for item in zip(self.content, other.content))


class RegexOr(Regex):
''')],
         needs='two sequences one of which is the beginning of the other',
         breaks='they are taken for equal: a.|a.b gives a.',
         demo=HEAD + '''
D = RegexDot()
check((S("a") + D) | (S("a") + D + S("b")), "a.|a.b", "abc", 3)
check((S("a") + D + createRange("p", "q")) | (S("a") + D), "a.[pq]?", "apq", 3)
'''),
]
