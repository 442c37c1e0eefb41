"""Stand-in for LMDB: ordered in-memory key space with MVCC transactions, dupsort,
and cursors, following py-lmdb's documented contract.  Keys and values may be
symbolic byte strings; comparisons then split the path.

CRASH hook: `FAULT`, when set, is called at each write-commit and may raise, which
models a crash before the commit took effect."""


class Error(Exception): pass
class BadValsizeError(Error): pass
class KeyExistsError(Error): pass
class NotFoundError(Error): pass
class ReadonlyError(Error): pass
class MapFullError(Error): pass
class BadDbiError(Error): pass

MAXKEY = 511
STORES = {}
FAULT = None
COMMITS = 0


def reset():
    global COMMITS
    STORES.clear()
    COMMITS = 0


def _isc(x):
    return isinstance(x, bytes)


def _b(x, what):
    if isinstance(x, bytes):
        return x
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    from vt.sym import SymBytes
    if isinstance(x, SymBytes):
        n = SymBytes(list(x.es)).native()
        return n
    raise TypeError("a bytes-like object is required for %s, not %s" % (what, type(x).__name__))


def _key(k):
    k = _b(k, "key")
    if len(k) == 0 or len(k) > MAXKEY:
        raise BadValsizeError("mdb: MDB_BAD_VALSIZE: Unsupported size of key/DB name/data")
    return k


def _lt(a, b):
    return bool(a < b)


def _eq(a, b):
    return bool(a == b)


def _lower(items, key):
    """index of first item with item.key >= key"""
    lo, hi = 0, len(items)
    while lo < hi:
        m = (lo + hi) // 2
        if _lt(items[m][0], key):
            lo = m + 1
        else:
            hi = m
    return lo


def _lower2(items, key, val):
    lo, hi = 0, len(items)
    while lo < hi:
        m = (lo + hi) // 2
        k, v = items[m]
        if _lt(k, key) or (_eq(k, key) and _lt(v, val)):
            lo = m + 1
        else:
            hi = m
    return lo


class _Database:
    def __init__(self, name, dupsort):
        self.name = name
        self.dupsort = dupsort

    def flags(self, *a):
        return {"dupsort": self.dupsort}


class _Store:
    def __init__(self):
        self.data = {None: []}
        self.dbs = {None: _Database(None, False)}
        self.writer = None


class Environment:
    def __init__(self, path, max_dbs=0, map_size=0, mode=0, readonly=False, **k):
        self._path = path
        self.store = STORES.setdefault(path, _Store())
        self.readonly = readonly
        self.closed = False

    def path(self): return self._path
    def flags(self): return {}
    def info(self): return {"map_size": 0, "last_txnid": 0}
    def sync(self, force=False): pass
    def max_key_size(self): return MAXKEY

    def open_db(self, key=None, txn=None, reverse_key=False, dupsort=False, create=True, **k):
        if key is not None:
            key = bytes(key)
        if key not in self.store.dbs:
            if not create:
                raise NotFoundError("mdb_dbi_open")
            self.store.dbs[key] = _Database(key, bool(dupsort))
            self.store.data[key] = []
        return self.store.dbs[key]

    def begin(self, db=None, parent=None, write=False, buffers=False):
        if self.closed:
            raise Error("Attempt to operate on closed/deleted/dropped object.")
        return Transaction(self, db, parent, write, buffers)

    def stat(self):
        return {"entries": len(self.store.data[None])}

    def close(self):
        self.closed = True

    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def open(path, **k):
    return Environment(path, **k)


class Transaction:
    def __init__(self, env, db, parent, write, buffers):
        self.env, self.write, self.buffers = env, write, buffers
        self.db = db or env.store.dbs[None]
        if write and env.readonly:
            raise ReadonlyError("mdb_txn_begin: permission denied")
        if write:
            if env.store.writer is not None and env.store.writer is not parent:
                raise RuntimeError("second write transaction would deadlock")
            env.store.writer = self
        self.view = dict(env.store.data)
        self.dirty = set()
        self.done = False

    def __enter__(self): return self

    def __exit__(self, t, v, tb):
        if self.done:
            return
        if t is None:
            self.commit()
        else:
            self.abort()

    def commit(self):
        global COMMITS
        if self.done:
            return
        self.done = True
        if self.write:
            self.env.store.writer = None
            if self.dirty:
                COMMITS += 1
                if FAULT is not None:
                    FAULT(COMMITS)
            for n in self.dirty:
                self.env.store.data[n] = self.view[n]

    def abort(self):
        if self.done:
            return
        self.done = True
        if self.write:
            self.env.store.writer = None

    def __del__(self):
        if not self.done and self.write:
            self.env.store.writer = None

    def items(self, db):
        return self.view[db.name]

    def wr(self, db):
        if not self.write:
            raise ReadonlyError("mdb_put: Permission denied")
        if db.name not in self.dirty:
            self.dirty.add(db.name)
            self.view[db.name] = list(self.view[db.name])
        return self.view[db.name]

    def out(self, x):
        if self.buffers and isinstance(x, bytes):
            return memoryview(x)
        return x

    def get(self, key, default=None, db=None):
        db = db or self.db
        key = _key(key)
        it = self.items(db)
        i = _lower(it, key)
        if i < len(it) and _eq(it[i][0], key):
            return self.out(it[i][1])
        return default

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        db = db or self.db
        if not self.write:
            raise ReadonlyError("mdb_put: Permission denied")
        key = _key(key)
        value = _b(value, "value")
        if db.dupsort and (len(value) > MAXKEY):
            raise BadValsizeError("mdb_put: MDB_BAD_VALSIZE")
        it = self.items(db)
        i = _lower(it, key)
        exists = i < len(it) and _eq(it[i][0], key)
        if exists and not overwrite:
            return False
        if not db.dupsort:
            it = self.wr(db)
            if exists:
                it[i] = (it[i][0], value)
            else:
                it.insert(i, (key, value))
            return True
        j = _lower2(it, key, value)
        if j < len(it) and _eq(it[j][0], key) and _eq(it[j][1], value):
            return bool(dupdata)
        self.wr(db).insert(j, (key, value))
        return True

    def delete(self, key, value=b"", db=None):
        db = db or self.db
        key = _key(key)
        value = _b(value, "value")
        it = self.items(db)
        i = _lower(it, key)
        if i >= len(it) or not _eq(it[i][0], key):
            return False
        if not db.dupsort:
            del self.wr(db)[i]
            return True
        if len(value):
            j = _lower2(it, key, value)
            if j < len(it) and _eq(it[j][0], key) and _eq(it[j][1], value):
                del self.wr(db)[j]
                return True
            return False
        it = self.wr(db)
        while i < len(it) and _eq(it[i][0], key):
            del it[i]
        return True

    def pop(self, key, db=None):
        v = self.get(key, db=db)
        if v is not None:
            self.delete(key, db=db)
        return v

    def replace(self, key, value, db=None):
        old = self.get(key, db=db)
        self.put(key, value, db=db)
        return old

    def cursor(self, db=None):
        return Cursor(db or self.db, self)

    def stat(self, db):
        return {"entries": len(self.items(db))}

    def drop(self, db, delete=True):
        self.wr(db).clear()


class Cursor:
    def __init__(self, db, txn):
        self.db, self.txn = db, txn
        self.i = None

    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass

    @property
    def it(self): return self.txn.items(self.db)

    def _ok(self): return self.i is not None and 0 <= self.i < len(self.it)

    def _at(self, i):
        if 0 <= i < len(self.it):
            self.i = i
            return True
        self.i = None
        return False

    def key(self): return self.txn.out(self.it[self.i][0]) if self._ok() else self.txn.out(b"")
    def value(self): return self.txn.out(self.it[self.i][1]) if self._ok() else self.txn.out(b"")
    def item(self): return (self.key(), self.value())

    def first(self): return self._at(0)
    def last(self): return self._at(len(self.it) - 1)
    def next(self): return self._at(0 if self.i is None else self.i + 1)
    def prev(self): return self._at(len(self.it) - 1 if self.i is None else self.i - 1)

    def _k(self): return self.it[self.i][0]

    def next_dup(self):
        if not self._ok(): return False
        k = self._k()
        if self.i + 1 < len(self.it) and _eq(self.it[self.i + 1][0], k):
            self.i += 1
            return True
        self.i = None
        return False

    def prev_dup(self):
        if not self._ok(): return False
        k = self._k()
        if self.i > 0 and _eq(self.it[self.i - 1][0], k):
            self.i -= 1
            return True
        self.i = None
        return False

    def next_nodup(self):
        if self.i is None: return self._at(0)
        k, i = self._k(), self.i
        while i < len(self.it) and _eq(self.it[i][0], k):
            i += 1
        return self._at(i)

    def prev_nodup(self):
        # previous key, positioned at its last duplicate
        if self.i is None: return self.last()
        k, i = self._k(), self.i
        while i >= 0 and _eq(self.it[i][0], k):
            i -= 1
        return self._at(i)

    def first_dup(self):
        if not self._ok(): return False
        k = self._k()
        while self.i > 0 and _eq(self.it[self.i - 1][0], k):
            self.i -= 1
        return True

    def last_dup(self):
        if not self._ok(): return False
        k = self._k()
        while self.i + 1 < len(self.it) and _eq(self.it[self.i + 1][0], k):
            self.i += 1
        return True

    def set_key(self, key):
        key = _key(key)
        i = _lower(self.it, key)
        if i < len(self.it) and _eq(self.it[i][0], key):
            self.i = i
            return True
        self.i = None
        return False

    def set_key_dup(self, key, value):
        key, value = _key(key), _b(value, "value")
        j = _lower2(self.it, key, value)
        if j < len(self.it) and _eq(self.it[j][0], key) and _eq(self.it[j][1], value):
            self.i = j
            return True
        self.i = None
        return False

    def set_range(self, key):
        key = _b(key, "key")
        if len(key) == 0:
            return self.first()
        if len(key) > MAXKEY:
            raise BadValsizeError("mdb_cursor_get: MDB_BAD_VALSIZE")
        return self._at(_lower(self.it, key))

    def set_range_dup(self, key, value):
        key, value = _key(key), _b(value, "value")
        j = _lower2(self.it, key, value)
        if j < len(self.it) and _eq(self.it[j][0], key):
            self.i = j
            return True
        self.i = None
        return False

    def get(self, key, default=None):
        return self.value() if self.set_key(key) else default

    def count(self):
        k = self._k()
        return sum(1 for x in self.it if _eq(x[0], k))

    def delete(self, dupdata=False):
        if not self._ok():
            return False
        it = self.txn.wr(self.db)
        if dupdata and self.db.dupsort:
            k = it[self.i][0]
            self.first_dup()
            while self.i < len(it) and _eq(it[self.i][0], k):
                del it[self.i]
        else:
            del it[self.i]
        if self.i >= len(it):
            self.i = None
        return True

    def put(self, key, val, dupdata=True, overwrite=True, append=False):
        r = self.txn.put(key, val, dupdata=dupdata, overwrite=overwrite, db=self.db)
        if self.db.dupsort:
            self.set_key_dup(key, val)
        else:
            self.set_key(key)
        return r

    def putmulti(self, items, dupdata=True, overwrite=True, append=False):
        n = a = 0
        for k, v in items:
            n += 1
            a += bool(self.put(k, v, dupdata, overwrite))
        return n, a

    def replace(self, key, val):
        old = self.txn.get(key, db=self.db)
        self.put(key, val)
        return old

    def pop(self, key):
        v = self.txn.get(key, db=self.db)
        if v is not None:
            self.txn.delete(key, db=self.db)
        return v

    def _iter(self, step, start, keys, values):
        if not self._ok():
            ok = start()
        else:
            ok = True
        while ok and self._ok():
            if keys and values:
                yield self.item()
            elif keys:
                yield self.key()
            else:
                yield self.value()
            ok = step()

    def iternext(self, keys=True, values=True): return self._iter(self.next, self.first, keys, values)
    __iter__ = iternext
    def iternext_dup(self, keys=False, values=True): return self._iter(self.next_dup, lambda: False, keys, values)
    def iternext_nodup(self, keys=True, values=False): return self._iter(self.next_nodup, self.first, keys, values)
    def iterprev(self, keys=True, values=True): return self._iter(self.prev, self.last, keys, values)
    def iterprev_dup(self, keys=False, values=True): return self._iter(self.prev_dup, lambda: False, keys, values)
    def iterprev_nodup(self, keys=True, values=False): return self._iter(self.prev_nodup, self.last, keys, values)
