M = 'hachoir/metadata/metadata_item.py'
F = 'hachoir/metadata/filter.py'
X = 'hachoir/metadata/metadata.py'
HEAD = '''
from hachoir.core import config
config.quiet = True
import hachoir.core.log as log
log.log.use_print = False
from hachoir.metadata.metadata_item import Data
from hachoir.metadata.metadata import Metadata, RootMetadata
from hachoir.metadata.filter import DATETIME_FILTER, NumberFilter


class Meta:
    def warning(self, *args):
        pass


def data(**k):
    d = Data("key", 100, "Key", **k)
    d.metadata = Meta()
    return d


def values(d):
    return [x.value for x in d.values]
'''
SEEDS = [
    dict(id='c19-substring', property='C19', file=M,
         old="                if item.startswith(value):\n",
         new="                if value in item:\n",
         needs='a text which is stored after a longer one which contains it, not at its beginning',
         breaks='the text is dropped although no stored text starts with it',
         demo=HEAD + '''
d = data()
d.add("the long title")
d.add("title")
assert values(d) == ["the long title", "title"], values(d)
d.add("the long")
assert values(d) == ["the long title", "title"], values(d)
'''),
    dict(id='c19-late-filter', property='C19',
         edits=[(M, '''        # Use filter
        if self.filter and not self.filter(value):
            self.metadata.warning("Skip value %s=%r (filter)"
                                  % (self.key, value))
            return

        # For string,''', '''        # For string,'''),
               (M, '''        # Add new value
''', '''        # Use filter
        if self.filter and not self.filter(value):
            self.metadata.warning("Skip value %s=%r (filter)"
                                  % (self.key, value))
            return

        # Add new value
''')],
         needs='an entry with a filter which refuses a text that starts with an accepted one',
         breaks='the refused text replaces the accepted one',
         demo=HEAD + '''
d = data(filter=lambda v: len(v) < 5)
d.add("abcdefgh")
assert values(d) == []
d.add("abc")
d.add("abcdefgh")
assert values(d) == ["abc"], values(d)
'''),
    dict(id='c19-aware', property='C19', file=F,
         old='            return (self.min_tz <= value <= self.max_tz)\n',
         new='            return (self.min <= value.replace(tzinfo=None) <= self.max)\n',
         needs='a date with a time zone, at the border of the range',
         breaks='the offset is ignored: a date out of the range is accepted',
         demo=HEAD + '''
from datetime import datetime, timedelta
from hachoir.metadata.timezone import createTimezone
east = createTimezone(2)
assert DATETIME_FILTER(datetime(1850, 1, 1, 2, 0, 0, tzinfo=east))
assert not DATETIME_FILTER(datetime(1850, 1, 1, 1, 59, 59, tzinfo=east))
assert DATETIME_FILTER(datetime(2000, 1, 1, 1, 59, 59, tzinfo=east))
'''),
    dict(id='c19-groups', property='C19', file=X,
         old="        for data in sorted(self, key=lambda data: data.priority):\n",
         new="        for data in sorted(self, key=lambda data: data.priority // 100):\n",
         needs='entries of the same hundred which were registered in another order than their priorities',
         breaks='the entries are not sorted, and the ones after an entry of a higher number are left out',
         demo=HEAD + '''
m = RootMetadata()
keys = sorted(m, key=lambda d: d.priority)
want = []
for d in keys:
    d.type = d.conversion = d.filter = None
    d.add("text of %s" % d.key)
for limit in range(100, 1000):
    got = m.exportPlaintext(priority=limit, human=False)
    want = ["- %s: text of %s" % (d.key, d.key) for d in keys if d.priority <= limit]
    assert (got or ["x"])[1:] == want, (limit, got, want)
'''),
    dict(id='c19-recent', property='C19', file=M,
         old="        for item in self.values:\n",
         new="        for item in self.values[-32:]:\n",
         needs='more than 32 values in an entry, and the first one once more',
         breaks='a value which is already stored is stored twice',
         demo=HEAD + '''
d = data()
for i in range(100):
    d.add(i)
for i in range(100):
    d.add(i)
assert values(d) == list(range(100)), values(d)
'''),
]
