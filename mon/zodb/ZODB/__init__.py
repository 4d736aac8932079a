"""Stand-in for ZODB (which is not installed here): the objects of one
connection, stored with pickle in one file, replaced as a whole at a commit."""
import io, os, pickle
import transaction
from persistent import Persistent
from persistent.mapping import PersistentMapping
from . import FileStorage


class ConnectionStateError(Exception):
    pass


class RootConvenience:
    def __init__(self, mapping):
        self.__dict__["_root"] = mapping

    def __getattr__(self, name):
        try:
            return self._root[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self._root[name] = value


class Connection:
    def __init__(self, storage):
        self.storage = storage
        self.records = storage.load()      # oid: (class, pickle of the state)
        self.objects = {}
        self.loading = []
        if 0 not in self.records:
            r = PersistentMapping()
            self.adopt(r, 0)
            self.commit()
        self.root = RootConvenience(self.get(0))
        transaction._jars.append(self)

    def adopt(self, o, oid=None):
        if oid is None:
            oid = max(list(self.records) + list(self.objects)) + 1
        o._p_oid, o._p_jar = oid, self
        self.objects[oid] = o

    def get(self, oid):
        if oid not in self.objects:
            cls, state = self.records[oid]
            o = cls.__new__(cls)
            self.adopt(o, oid)
            u = pickle.Unpickler(io.BytesIO(state))
            u.persistent_load = self.get
            o.__setstate__(u.load())
            o._p_changed = False
        return self.objects[oid]

    def commit(self):
        records = dict(self.records)
        todo = [o for o in self.objects.values() if o._p_changed]
        done = []
        while todo:
            o = todo.pop()
            b = io.BytesIO()
            p = pickle.Pickler(b)

            def ref(x):
                if isinstance(x, Persistent):
                    if x._p_oid is None:
                        self.adopt(x)
                        todo.append(x)
                    return x._p_oid
            p.persistent_id = ref
            p.dump(o.__getstate__())
            records[o._p_oid] = (type(o), b.getvalue())
            done.append(o)
        if done:
            self.storage.store(records)
            self.records = records
            for o in done:
                o._p_changed = False

    def abort(self):
        for o in self.objects.values():
            if o._p_oid in self.records:
                u = pickle.Unpickler(io.BytesIO(self.records[o._p_oid][1]))
                u.persistent_load = self.get
                o.__setstate__(u.load())
                o._p_changed = False

    def close(self):
        if any(o._p_changed for o in self.objects.values()):
            raise ConnectionStateError("Cannot close a connection joined to a transaction")
        transaction._jars.remove(self)


class DB:
    def __init__(self, storage, **kw):
        self.storage = storage

    def open(self):
        return Connection(self.storage)

    def close(self):
        pass
