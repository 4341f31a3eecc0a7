"""A reader with its sink as a state machine, for the checks of the language bindings."""
import struct, datetime

HUGE = 10 ** 9


# ---- canonical text of a value, as the file generator writes it
def canon(v, t):
    if t == "string":
        return "s:" + v.hex() if type(v) is bytes else "?%r" % (v,)
    if t == "number":
        if type(v) is not float:
            return "?%r" % (v,)
        return "n:nan" if v != v else "n:%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]
    if t == "integer":
        return "i:%d" % v if type(v) is int else "?%r" % (v,)
    if t == "datetime":
        if v is None:
            return "dt:nad"
        if type(v) is not datetime.datetime:
            return "?%r" % (v,)
        return "dt:%d-%d-%dT%dus" % (v.year, v.month, v.day, ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond)
    if t == "date":
        if v is None:
            return "d:nad"
        return "d:%d-%d-%d" % (v.year, v.month, v.day) if type(v) is datetime.date else "?%r" % (v,)
    if t == "time":
        if v is None:
            return "t:nad"
        return "t:%dus" % (((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond) if type(v) is datetime.time else "?%r" % (v,)
    return "?"


class View(object):
    """A file seen through a selection of its columns."""

    def __init__(self, f, cols=None):
        self.f = f
        self.cols = list(range(len(f["columns"]))) if cols is None else cols
        self.names = [f["columns"][k]["name"] for k in self.cols]
        self.types = [f["columns"][k]["type"] for k in self.cols]
        key = tuple(self.cols)
        cache = f.setdefault("cache", {})
        if key not in cache:
            cache[key] = [tuple(r.split("|")[k] for k in self.cols) for r in f["expect"]]
        self.rows = cache[key]

    def canon_row(self, r):
        if type(r) not in (list, tuple) or len(r) != len(self.names):
            return ("?%r" % (r,),)
        return tuple(canon(v, t) for v, t in zip(r, self.types))

    def canon_cols(self, d):
        if not isinstance(d, dict) or sorted(d) != sorted(self.names):
            return "columns %r" % (sorted(d) if isinstance(d, dict) else d)
        cols = [d[n] for n in self.names]
        n = set(len(c) for c in cols)
        if len(n) > 1:
            return "lengths %r" % n
        return [tuple(canon(c[i], t) for c, t in zip(cols, self.types)) for i in range(n.pop() if n else 0)]

    def frame(self, df):
        if df is None:
            return None
        if list(df.names) != self.names:
            return "names %r" % df.names
        return [self.canon_row(r) for r in df.rows]


class Boom(Exception):
    pass


# ---- the model: a position, what waits for the next chunk, and what the sink must have been told
class Model(object):
    def __init__(self, view, kind, faults=()):
        self.v, self.n, self.pos, self.buf, self.ev, self.told, self.calls = view, len(view.rows), 0, [], [], False, 0
        self.kind, self.size = ("chunk", int(kind[5:])) if kind.startswith("chunk") else (kind, 0)
        self.faults, self.raised = faults, None
        self.event(("P",))

    def event(self, e):
        self.ev.append(e)
        k, self.calls = self.calls, self.calls + 1
        if k in self.faults:
            self.raised = k
            raise Boom

    def flush(self):
        if self.kind == "chunk" and self.buf:
            b, self.buf = self.buf, []
            self.event(("C", b[0], b[-1], b))
        elif self.kind == "data" and (self.fresh or not self.told):
            self.fresh, self.told = False, True
            self.event(("D", list(self.buf)))

    fresh = False

    def push(self, i):
        if self.kind == "row":
            self.event(("R", i))
            return
        self.buf.append(i)
        self.fresh = True
        if self.kind == "chunk" and len(self.buf) == self.size:
            self.flush()

    def row(self):
        if self.pos == self.n:
            self.flush()
            return False
        self.pos += 1
        self.push(self.pos - 1)
        return True

    def rows(self, k):
        while k and self.row():
            k -= 1
        return k == 0

    def skip(self, k):
        if k <= self.n - self.pos:
            self.pos += k
            return True
        self.pos = self.n
        self.flush()
        return False

    def read_all(self):
        while self.row():
            pass

    def op(self, o):
        if o == "r": return self.row()
        if o == "0": return self.rows(0)
        if o == "1": return self.rows(1)
        if o == "2": return self.rows(2)
        if o == "3": return self.rows(3)
        if o == "M": return self.rows(HUGE)
        if o == "k": return self.rows(9999)
        if o == "z": return self.skip(0)
        if o == "s": return self.skip(1)
        if o == "t": return self.skip(2)
        if o == "S": return self.skip(HUGE)
        if o == "a": return self.read_all()
        if o in "ef": return self.flush()
        raise KeyError(o)

    def state(self):
        return (self.pos, tuple(self.buf) if self.kind == "chunk" else len(self.buf), self.told, self.fresh)

    def cells(self, rows):
        # without columns there is no list whose length tells the number of rows
        return [self.v.rows[i] for i in rows] if self.v.names else []

    def want(self, e):
        if e[0] == "C":
            return ("C", e[1], e[2], self.cells(e[3]))
        if e[0] == "D":
            return ("D", self.cells(e[1]))
        if e[0] == "R":
            return ("R", e[1], self.v.rows[e[1]])
        return e
