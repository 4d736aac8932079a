import collections
from . import Persistent


class PersistentMapping(Persistent, collections.UserDict):
    def __init__(self, *a, **kw):
        self.data = {}
        collections.UserDict.__init__(self, *a, **kw)

    def __setitem__(self, k, v):
        self.data[k] = v
        self._p_changed = True

    def __delitem__(self, k):
        del self.data[k]
        self._p_changed = True
