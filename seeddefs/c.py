SEEDS = [
dict(id='c07-insert-shift', property='C07', file='hachoir/core/dict.py',
 old="            if item_index >= index:\n                self._index[item_key] += 1\n",
 new="            if item_index >= index + (_index < -1):\n                self._index[item_key] += 1\n",
 needs='an insertion at a negative index below -1',
 breaks='the element at the insertion point keeps its old position in the index', demo='''
from hachoir.core.dict import Dict
for i in range(-4, 5):
    d = Dict([(k, k) for k in "abcd"])
    d.insert(i, "x", "x")
    for n, k in enumerate(d.iterkeys()):
        assert d.index(k) == n and d[k] == k, (i, k)
'''),
dict(id='c07-del-last', property='C07', file='hachoir/core/dict.py',
 old="            if item_index == index:\n                del self._index[key]\n                break\n",
 new="            if item_index >= index:\n                del self._index[key]\n                break\n",
 needs='a deletion in a dictionary filled by insertions out of order, so that a later key comes first in the index',
 breaks='deletes another key from the index', demo='''
from hachoir.core.dict import Dict
d = Dict([("a", 1), ("c", 3)])
d.insert(1, "b", 2)
d.insert(0, "z", 0)
del d[2]
assert list(d.items()) == [("z", 0), ("a", 1), ("c", 3)]
for n, (k, v) in enumerate(d.items()):
    assert d[k] == v and d.index(k) == n, k
assert "b" not in d
'''),
dict(id='c07-replace-key', property='C07', file='hachoir/core/dict.py',
 old="        if oldkey != newkey:\n            del self._index[oldkey]\n            self._index[newkey] = index\n            self._key_list[index] = newkey\n",
 new="        if oldkey != newkey:\n            self._index[newkey] = self._index.pop(oldkey)\n            if index:\n                self._key_list[index] = newkey\n            else:\n                self._key_list[:1] = [newkey] if len(self._index) < 9 else self._key_list[:1]\n",
 needs='the first of at least nine pairs is replaced under another key',
 breaks='iteration still reports the old key', demo='''
from hachoir.core.dict import Dict
for n in (1, 2, 8, 9, 20):
    for i in range(n):
        d = Dict([(k, k) for k in range(n)])
        d.replace(i, "new", "v")
        exp = [(k, k) for k in range(n)]; exp[i] = ("new", "v")
        assert list(d.items()) == exp, (n, i)
'''),
]
