"""Stand-in for the package persistent (which is not installed here): what the
broker needs of it, with the rule that matters: a change inside of an ordinary
object held by a persistent one is not noticed, unless _p_changed is set."""
import itertools

_oids = itertools.count(1)


class Persistent:
    _p_oid = None
    _p_jar = None

    def __new__(cls, *a, **kw):
        self = object.__new__(cls)
        object.__setattr__(self, "_p_changed", True)
        return self

    def __setattr__(self, name, value):
        object.__setattr__(self, name, value)
        if not name.startswith("_p_"):
            object.__setattr__(self, "_p_changed", True)

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith("_p_")}

    def __setstate__(self, state):
        self.__dict__.update(state)


from . import mapping
