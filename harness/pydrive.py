"""Runs under the Python that loads the extension: every case of a section on the real module, step by step
against a model of it. Called by c21.py."""
import sys, os, json, mmap, itertools, struct, datetime, weakref, gc, types, threading

opts = json.loads(sys.argv[1])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [opts["pkg"], os.path.join(HERE, "standin")]
gc.disable()
FILES, LONG, VAST = {}, {}, {}
for _l in open(opts["manifest"]):
    _d = json.loads(_l)
    {"long": LONG, "vast": VAST}.get(_d["group"], FILES)[_d["name"]] = _d
    for _c in _d["columns"]:
        for _k in ("name", "label", "format"):
            _c[_k] = bytes.fromhex(_c[_k]).decode("utf-8", "surrogateescape")
THOROUGH = opts.get("thorough", False)


class Violation(Exception):
    pass


def fail(*a):
    raise Violation(" ".join(str(x) for x in a))


from pymodel import canon, View, Boom, Model, HUGE


class BoomBase(BaseException):
    pass


def boom(k):
    return (Boom, BoomBase, StopIteration, KeyError, MemoryError)[k % 5]("callback %d" % k)


def act(r, sink, o):
    if o == "r": return r.read_row()
    if o == "0": return r.read_rows(0)
    if o == "1": return r.read_rows(1)
    if o == "2": return r.read_rows(2)
    if o == "3": return r.read_rows(3)
    if o == "M": return r.read_rows(HUGE)
    if o == "k": return r.read_rows(9999)
    if o == "z": return r.skip(0)
    if o == "s": return r.skip(1)
    if o == "t": return r.skip(2)
    if o == "S": return r.skip(HUGE)
    if o == "a": return r.read_all()
    if o == "e": return r.end_of_data()
    if o == "f": return sink._cpp.flush_sink()


# ---- sinks that record what they are told, and keep it as it was handed over
HOOK = []  # called inside every notification


class Rec(object):
    def __init__(self, view, faults=(), inner=False):
        self.view, self.got, self.faults, self.inner, self.calls, self.raised = view, [], faults, inner, 0, None

    def told(self, e):
        self.got.append(e)
        k, self.calls = self.calls, self.calls + 1
        if HOOK:
            HOOK[0]()
        if k in self.faults:
            self.raised = boom(k)
            raise self.raised
        if self.inner and e[0] != "P":
            self._cpp.flush_sink()

    def set_properties(self, p):
        self.properties = p
        self.told(("P",))

    def event(self, k):
        e = self.got[k]
        if e[0] == "R":
            return ("R", e[1], self.view.canon_row(e[2]))
        if e[0] == "C":
            return ("C", e[1], e[2], self.view.canon_cols(e[3]))
        if e[0] == "D":
            return ("D", self.view.canon_cols(e[1]))
        return e


class RecRow(Rec):
    def push_row(self, i, row):
        self.told(("R", i, row))


class RecChunk(Rec):
    chunk_size = 0

    def push_rows(self, a, b, rows):
        self.told(("C", a, b, rows))


class RecData(Rec):
    def set_data(self, rows):
        self.told(("D", rows))


def make(kind, view, faults=(), inner=False):
    if kind == "row":
        return RecRow(view, faults, inner)
    if kind == "data":
        return RecData(view, faults, inner)
    s = RecChunk(view, faults, inner)
    s.chunk_size = int(kind[5:])
    return s


stats = dict(cases=0, transitions=0, comparisons=0, outcomes=set(), states=set(), samples=[])
trace = []


class Pair(object):
    """A reader with its recording sink, and the model of both."""

    def __init__(self, f, kind, faults=(), cols=None, include=None, exclude=None, inner=False):
        self.f, self.kind = f, kind
        self.view = View(f, cols)
        self.m = None
        self.sink = make(kind, self.view, faults, inner)
        self.seen = 0
        self.r = None
        model_raised = False
        self.m = Model.__new__(Model)
        try:
            self.m.__init__(self.view, kind, faults)
        except Boom:
            model_raised = True
        self.call("open", lambda: self.open(include, exclude), model_raised, None)

    def open(self, include, exclude):
        from pycppsas7bdat import Reader
        kw = {}
        if include is not None:
            kw["include"] = include
        if exclude is not None:
            kw["exclude"] = exclude
        self.r = Reader(self.f["path"], self.sink, **kw)

    def where(self):
        return "%s, sink %s: %s" % (self.f["name"], self.kind, " ".join(trace))

    def call(self, what, real, model_raised, want):
        stats["transitions"] += 1
        got, exc = None, None
        self.sink.raised = None
        try:
            got = real()
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            exc = e
        if model_raised:
            if exc is None:
                fail(self.where(), "[%s]" % what, ": the sink's exception did not come back")
            if exc is not self.sink.raised:
                fail(self.where(), "[%s]" % what, ": %r instead of the sink's exception %r" % (exc, self.sink.raised))
        elif exc is not None:
            fail(self.where(), "[%s]" % what, ": unexpected %s: %s" % (type(exc).__name__, exc))
        elif what != "open" and got != want:
            fail(self.where(), "[%s]" % what, ": returned %r, expected %r (position %d of %d)" % (got, want, self.m.pos, self.m.n))
        self.verify(what)

    def verify(self, what):
        m, s = self.m, self.sink
        if self.r is not None and self.r.current_row_index != m.pos:
            fail(self.where(), "[%s]" % what, ": current_row_index is %r, %d rows were consumed" % (self.r.current_row_index, m.pos))
        for k in range(self.seen, max(len(s.got), len(m.ev))):
            g = s.event(k) if k < len(s.got) else "nothing"
            w = m.want(m.ev[k]) if k < len(m.ev) else "nothing"
            stats["comparisons"] += 1
            if g != w:
                fail(self.where(), "[%s]" % what, ": notification #%d is %s, expected %s" % (k, str(g)[:600], str(w)[:600]))
        self.seen = len(s.got)
        stats["states"].add(hash((self.f["name"], self.kind, m.state())))

    def recheck(self):
        """what was handed over earlier has not changed"""
        for k in range(len(self.sink.got)):
            g, w = self.sink.event(k), self.m.want(self.m.ev[k])
            stats["comparisons"] += 1
            if g != w:
                fail(self.where(), ": notification #%d changed afterwards to %s, expected %s" % (k, str(g)[:600], str(w)[:600]))

    def step(self, o):
        trace.append(o)
        raised, want = False, None
        try:
            want = self.m.op(o)
        except Boom:
            raised = True
        self.call(o, lambda: act(self.r, self.sink, o), raised, want)

    def drain(self):
        for _ in range(len(self.m.faults) + 1):
            self.step("a")
        self.recheck()

    def close(self):
        w = weakref.ref(self.sink)
        h = getattr(self.sink, "_cpp", None)
        self.r = None
        if h is not None:
            h.flush_sink()  # the reader is gone: nothing to flush, nothing to crash
            self.verify("flush after the reader")
        h = None
        self.sink = None
        if w() is not None:
            gc.collect()
            if w() is not None:
                fail(self.where(), ": the sink is still there after its reader and its last reference are gone")


def zoo(i=None, every=1):
    z = [f for f in FILES.values() if f["group"] == "zoo"]
    return [f["name"] for f in z][::every] if i is None else [f["name"] for k, f in enumerate(z) if k % 11 in i]


SINKS = ["row", "chunk1", "chunk2", "chunk3", "chunk100", "data"]


# ---- sections: a generator of cases and a function running one
def gen_sequences():
    d1, d2 = (4, 6) if THOROUGH else (3, 4)
    for f in zoo():
        for k in SINKS:
            for ops in itertools.product("r0123zstSaef" if not THOROUGH else "r02stSaef", repeat=d1):
                yield [f, k, "".join(ops)]
            if THOROUGH or "LE32" in f:
                for ops in itertools.product("r2sef", repeat=d2):
                    yield [f, k, "".join(ops)]


def run_sequences(f, kind, ops):
    p = Pair(FILES[f], kind)
    for o in ops:
        p.step(o)
    p.drain()
    p.close()


def gen_faults():
    depth = 3 if THOROUGH else 2
    for f in zoo(None if THOROUGH else {0, 1, 2, 4, 6, 9}):
        for k in ("row", "chunk1", "chunk2", "chunk100", "data"):
            n = len(FILES[f]["expect"]) + 2
            for ops in itertools.product("r2saef", repeat=depth):
                for a in range(n):
                    yield [f, k, "".join(ops), [a]]
                    for b in range(a + 1, n):
                        yield [f, k, "".join(ops), [a, b]]


def run_faults(f, kind, ops, faults):
    p = Pair(FILES[f], kind, tuple(faults))
    if 0 not in faults:
        for o in ops:
            p.step(o)
        p.drain()
    p.close()


def gen_inner():
    for f in zoo(None if THOROUGH else {0, 1, 4, 6, 9}):
        for k in SINKS:
            for ops in itertools.product("r2saef", repeat=4 if THOROUGH else 3):
                yield [f, k, "".join(ops)]


def run_inner(f, kind, ops):
    p = Pair(FILES[f], kind, (), inner=True)
    for o in ops:
        p.step(o)
    p.drain()
    p.close()


def gen_frames():
    for f in zoo(None if THOROUGH else {0, 1, 4, 6, 9, 10}):
        for k in ("row", "chunk1", "chunk2", "chunk100", "data"):
            for ops in itertools.product("r2saed", repeat=5 if THOROUGH else 4):
                yield [f, k, "".join(ops)]


def provided(kind):
    from pycppsas7bdat.sink import SinkByRow, SinkByChunk, SinkWholeData
    return SinkByRow() if kind == "row" else SinkWholeData() if kind == "data" else SinkByChunk() if kind == "chunk" else SinkByChunk(int(kind[5:]))


def check_frame(p, view, sink, done, where):
    df = sink.df
    got, want = view.frame(df), [view.rows[i] for i in done]
    stats["comparisons"] += 1
    if got != want:
        fail(where(), ": df is %s, expected %s" % (str(got)[:800], str(want)[:800]))


def run_frames(f, kind, ops):
    from pycppsas7bdat import Reader
    F = FILES.get(f) or LONG.get(f) or VAST[f]
    view = View(F)
    sink = provided(kind)
    if kind == "chunk" and sink.chunk_size != 10000:
        fail(f, ": the chunk size is", sink.chunk_size, "unless told otherwise")
    where = lambda: "%s, %s: %s" % (f, type(sink).__name__, " ".join(trace))
    r = Reader(F["path"], sink)
    m = Model(view, "row")
    for o in ops + "dad":
        trace.append(o)
        stats["transitions"] += 1
        if o == "d":
            check_frame(r, view, sink, [e[1] for e in m.ev[1:]], where)
            continue
        g, w = act(r, sink, o), m.op(o)
        if g != w or r.current_row_index != m.pos:
            fail(where(), ": returned %r at %r, expected %r at %r" % (g, r.current_row_index, w, m.pos))
        stats["states"].add(hash((f, kind, m.pos, len(m.ev))))
    del r
    check_frame(None, view, sink, [e[1] for e in m.ev[1:]], where)


def subsets(names):
    for m in range(1 << len(names)):
        yield [n for k, n in enumerate(names) if m >> k & 1]


def gen_filters():
    for f in zoo({0, 3, 4, 8} if not THOROUGH else None):
        n = [c["name"] for c in FILES[f]["columns"]][:5 if THOROUGH else 4]
        for k in ("row", "chunk2", "data"):
            for i in subsets(n):
                for e in subsets(n):
                    yield [f, k, i, e, "read"]
    for f in zoo({0, 3}):
        n = [c["name"] for c in FILES[f]["columns"]]
        for k in ("row", "chunk2", "data"):
            for x in n:
                for y in (x + "x", x[:-1], x.upper(), x + " ", "", " " + x, x + "\0", "caf\udce9"):
                    yield [f, k, [y], [], "read"]
                    yield [f, k, [], [y], "read"]
                    yield [f, k, [y, x], [y], "read"]
    for f in FILES.values():
        if f["group"] == "names":
            n = [c["name"] for c in f["columns"]]
            for k in ("row", "chunk2", "data"):
                for x in n:
                    for st in ("read", "read_sas"):
                        yield [f["name"], k, [x], [], st]
                        yield [f["name"], k, [], [x], st]
                    yield [f["name"], k, [x, n[0]], [], "bytes"]


def run_filters(f, kind, inc, exc, style):
    F = FILES[f]
    names = [c["name"] for c in F["columns"]]
    cols = [k for k, n in enumerate(names) if (n in inc if inc else n not in exc)]
    enc = (lambda l: [x.encode("utf-8", "surrogateescape") for x in l]) if style == "bytes" else list
    i, e = enc(inc) or None, enc(exc) or None
    if i is None and len(exc) % 2:
        i = []
    trace.append("include=%r exclude=%r %s" % (i, e, style))
    if style == "read_sas":
        from pycppsas7bdat.read_sas import read_sas
        view = View(F, cols)
        s = read_sas(F["path"], provided(kind), include=i, exclude=e)
        check_frame(None, view, s, range(len(view.rows)), lambda: "%s %s" % (f, trace))
        return
    p = Pair(F, kind, (), cols, i, e)
    check_columns(p.where, p.r.properties(), F, cols)
    p.step("r")
    p.drain()
    p.close()


def gen_arguments():
    bad = ["()", "('num',)", "{'num'}", "'num'", "1", "{}", "[1]", "[None]", "['num', 1]", "[['num']]", "[b'num', 2.5]", "object()", "iter([])", "['\\ud800']"]
    for k in ("row", "chunk2", "data"):
        for b in bad:
            yield ["filter", k, b, ""]
            yield ["filter", k, "", b]
            yield ["filter", k, "['num']", b]
    for a in itertools.product((0, 1), repeat=5):
        yield ["dispatch", list(a)]
    for s in ("None", "1", "object()", "[]"):
        yield ["sink", s]
    for k in ("row", "chunk", "data"):
        for o in ("a", "raa", "1e", "sra"):
            yield ["slots", k, o]
    for c in ("None", "'3'", "2.5", "-1", "[]", "object()"):
        yield ["chunk_size", c]
    for p in ("None", "1", "b'x'", "[]", "'/nonexistent/x'", "'/'", "'/dev/null'", "''", "'x' * 5000", "'a\\0b'"):
        yield ["path", p]
    for a in ("None", "'1'", "-1", "1.5", "2**64", "[]"):
        for o in ("read_rows", "skip"):
            yield ["argument", o, a]


def run_arguments(what, *a):
    from pycppsas7bdat import Reader
    F = FILES[zoo()[0]]
    trace.append("%s %r" % (what, a))
    where = lambda: " ".join(trace)

    def raises(fn, kinds):
        try:
            fn()
        except kinds as e:
            return e
        except BaseException as e:
            fail(where(), ": %s: %s" % (type(e).__name__, e))
        fail(where(), ": accepted")
    if what == "filter":
        kind, i, e = a
        s = make(kind, View(F))
        e = raises(lambda: Reader(F["path"], s, include=eval(i) if i else None, exclude=eval(e) if e else None), (RuntimeError,))
        if "is not a" not in str(e):
            fail(where(), ": message %s" % e)
    elif what == "dispatch":
        v = View(F)
        got = []
        ns = dict(set_properties=lambda s, p: got.append("P"), chunk_size=2, push_rows=lambda s, x, y, d: got.append("C"), set_data=lambda s, d: got.append("D"), push_row=lambda s, x, d: got.append("R"))
        names = list(ns)
        S = type("S", (object,), {n: ns[n] for n, on in zip(names, a[0]) if on})
        props, size, rows, data, row = a[0]
        kinds = [k for k, on in (("C", size and rows), ("D", data), ("R", row)) if on and props]
        if not kinds:
            raises(lambda: Reader(F["path"], S()), (RuntimeError,))
            if got:
                fail(where(), ": told", got)
            return
        r = Reader(F["path"], S())
        r.read_all()
        if got[0] != "P" or len(set(got[1:])) != 1 or got[1] not in kinds:
            fail(where(), ": told", got)
        n = len(F["expect"])
        if got.count("P") != 1 or len(got) - 1 != {"C": (n + 1) // 2, "D": 1, "R": n}[got[1]]:
            fail(where(), ": told", got)
    elif what == "slots":
        # a sink that cannot take attributes is a sink all the same
        v, got, m = View(F), [], Model.__new__(Model)
        ns = dict(row=dict(push_row=lambda s, x, d: got.append(("R", x, v.canon_row(d)))), chunk=dict(chunk_size=2, push_rows=lambda s, x, y, d: got.append(("C", x, y, v.canon_cols(d)))),
                  data=dict(set_data=lambda s, d: got.append(("D", v.canon_cols(d)))))[a[0]]
        S = type("S", (object,), dict(ns, __slots__=(), set_properties=lambda s, p: got.append(("P",))))
        m.__init__(v, {"chunk": "chunk2"}.get(a[0], a[0]), ())
        r = Reader(F["path"], S())
        for o in a[1]:
            w = m.op(o)
            g = act(r, None, o)
            if g != w or r.current_row_index != m.pos:
                fail(where(), ": %s returned %r at %r, expected %r at %r" % (o, g, r.current_row_index, w, m.pos))
        w = [m.want(e) for e in m.ev]
        if got != w:
            fail(where(), ": told %s, expected %s" % (str(got)[:500], str(w)[:500]))
    elif what == "sink":
        raises(lambda: Reader(F["path"], eval(a[0])), (RuntimeError,))
    elif what == "chunk_size":
        s = make("chunk2", View(F))
        s.chunk_size = eval(a[0])
        raises(lambda: Reader(F["path"], s), (Exception,))
    elif what == "path":
        s = make("row", View(F))
        raises(lambda: Reader(eval(a[0]), s), (Exception,))
        if s.got:
            fail(where(), ": the sink was told something of no file")
    elif what == "argument":
        p = Pair(F, "row")
        raises(lambda: getattr(p.r, a[0])(eval(a[1])), (Exception,))
        p.verify("after")
        p.drain()
        p.close()


PROPS_TEXT = ("dataset_name", "encoding", "file_type", "sas_release", "sas_server_type", "os_type", "os_name", "creator", "creator_proc")
PROPS_INT = ("header_length", "page_length", "page_count", "row_length", "row_count", "column_count", "col_count_p1", "col_count_p2", "mix_page_row_count", "lcs", "lcp")
ENUMS = {"format": {"32bits": "bit32", "64bits": "bit64"}}


def check_props(where, p, F):
    w = F["props"]
    for k in PROPS_TEXT:
        g = getattr(p, k)
        if g != bytes.fromhex(w[k]).decode("utf-8", "surrogateescape"):
            fail(where(), ": property %s is %r, the file has %r" % (k, g, bytes.fromhex(w[k])))
    for k in PROPS_INT:
        if getattr(p, k) != w[k]:
            fail(where(), ": property %s is %r, the file has %r" % (k, getattr(p, k), w[k]))
    for k in ("format", "endianness", "platform", "compression"):
        g = getattr(p, k)
        if getattr(g, "name", None) != ENUMS.get(k, {}).get(w[k], w[k]):
            fail(where(), ": property %s is %r, the file has %r" % (k, g, w[k]))
    for k in ("date_created", "date_modified"):
        g = getattr(p, k)
        if canon(g, "datetime") != w[k]:
            fail(where(), ": property %s is %r, the file has %r" % (k, g, w[k]))
    stats["comparisons"] += 26


def check_column(where, c, w):
    if (c.name, c.label, c.format, c.type.name) != (w["name"], w["label"], w["format"], w["type"]):
        fail(where(), ": column is %r, the file has %r" % ((c.name, c.label, c.format, c.type), w))
    stats["comparisons"] += 1


def check_columns(where, p, F, cols):
    l = list(p.columns)
    if len(l) != len(cols):
        fail(where(), ": %d columns, expected %d" % (len(l), len(cols)))
    for c, k in zip(l, cols):
        check_column(where, c, F["columns"][k])


def gen_properties():
    for f in FILES:
        for k in ("row", "chunk2", "data"):
            yield [f, k]


def run_properties(f, kind):
    F = FILES[f]
    p = Pair(F, kind)
    cols = range(len(F["columns"]))
    for _ in range(2):
        for q in (p.r.properties(), p.sink.properties):
            check_props(p.where, q, F)
            check_columns(p.where, q, F, cols)
        p.step("r")
    p.drain()
    del q
    p.close()


def gen_lifetimes():
    for f in zoo({0, 3, 5}) + [n for n in FILES if FILES[n]["group"] == "names"][:1]:
        for k in ("row", "chunk2", "data"):
            for held in ("rpscCihk",) if THOROUGH else ("rpscih", "rsCihk"):
                for order in itertools.permutations(held):
                    yield [f, k, "".join(order)]


def run_lifetimes(f, kind, order):
    """everything a user may hold, dropped in every order; what is left still works"""
    from pycppsas7bdat import Reader
    F = FILES[f]
    view = View(F)
    where = lambda: "%s %s dropped in order %s" % (f, kind, order)
    trace.append(order)
    sink = make(kind, view)
    weak = weakref.ref(sink)
    r = Reader(F["path"], sink)
    r.read_row()
    p = r.properties()
    sp = sink.properties
    it = iter(p.columns)
    held = dict(r=r, p=p, s=sink, c=list(p.columns)[-1], C=list(sp.columns)[-1], i=it, h=sink._cpp, k=sp)
    last = F["columns"][-1]
    held = {n: held[n] for n in order}
    del r, p, sink, sp, it
    pos = 1 if view.rows else 0
    for o in order:
        del held[o]
        stats["transitions"] += 1
        stats["states"].add(hash((kind, frozenset(held))))
        for n in held:
            if n == "r":
                if held["r"].current_row_index != pos:
                    fail(where(), ": current_row_index %r, expected %d" % (held["r"].current_row_index, pos))
                more = held["r"].read_row()
                if more != (pos < len(view.rows)):
                    fail(where(), ": read_row returned %r at %d" % (more, pos))
                pos += more
            elif n in "pk":
                check_props(where, held[n], F)
                check_columns(where, held[n], F, range(len(F["columns"])))
            elif n in "cC":
                check_column(where, held[n], last)
            elif n == "h":
                held["h"].flush_sink()
            elif n == "s":
                e = held["s"].got
                for k in range(len(e)):
                    held["s"].event(k)
    if weak() is not None:
        gc.collect()
        if weak() is not None:
            fail(where(), ": the sink is still there when nothing refers to it any more")


def gen_files():
    for f in FILES:
        for k in SINKS + ["chunk7", "chunk64", "chunk0"]:
            for o in (["a"], ["M"], ["r"] * 3 + ["a"], ["2", "s"] * 3 + ["a"], ["*2"], ["*r"], ["*3", "e"]):
                yield [f, k, o]


def run_files(f, kind, ops):
    p = Pair(FILES[f], kind)
    for o in ops:
        if o[0] == "*":
            for _ in range(len(p.view.rows) + 2):
                p.step(o[1])
            del trace[:]
        else:
            p.step(o)
    p.drain()
    p.close()


# more rows than a chunk of the package's own size holds
LONG_OPS = ("a", "M", "2sa", "krr", "kdrda", "kskre")


def gen_long():
    for f in LONG:
        for k in ("row", "chunk999", "chunk9999", "chunk10000", "chunk20500", "chunk65536", "data"):
            for o in LONG_OPS:
                yield [f, k, o, False]
        for k in ("row", "chunk", "chunk4096", "data"):
            for o in LONG_OPS:
                yield [f, k, o, True]
    for f in VAST:
        for k, o, own in (("row", "M", False), ("chunk65536", "a", False), ("chunk65537", "rM", False), ("chunk70000", "a", False), ("data", "r", False), ("data", "a", False), ("data", "dad", True), ("chunk", "M", True), ("chunk65537", "a", True)):
            yield [f, k, o, own]


def run_long(f, kind, ops, own):
    if own:
        run_frames(f, kind, ops)
        return
    p = Pair(LONG.get(f) or VAST[f], kind)
    for o in ops.replace("d", ""):
        p.step(o)
    p.drain()
    p.close()


# ---- what reading holds on to: bytes alive (the sanitizer's count) and open files
def held():
    import ctypes
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    gc.collect()
    sys._clear_type_cache()  # it keeps names alive
    return f(), len(os.listdir("/proc/self/fd"))


class Drop(object):
    def __init__(self, kind, faults=()):
        self.n, self.faults = 0, faults
        if kind == "row":
            self.push_row = lambda i, row: self.told()
        elif kind == "data":
            self.set_data = lambda rows: self.told()
        else:
            self.chunk_size = int(kind[5:])
            self.push_rows = lambda a, b, rows: self.told()

    def told(self):
        self.n += 1
        if self.n - 1 in self.faults:
            raise Boom("dropped")

    def set_properties(self, p):
        self.told()


HELD_OPS = ("a", "r2ssr", "rrp3ea", "rxa")


def gen_held():
    for f in zoo() if THOROUGH else zoo({0, 3, 5, 9}) + [n for n in FILES if FILES[n]["group"] in ("names", "values")]:
        for k in ("row", "chunk2", "chunk3", "data"):
            for o in HELD_OPS:
                for b in ((), (0,), (1,), (2,), (1, 2)):
                    for n in ((None, None), (["no such"], None), (None, ["no such"])):
                        yield [f, k, o, b, n]
    for f in LONG:
        for k in ("row", "chunk50", "chunk999"):
            for o in "rsx":
                yield [f, k, o, None, (None, None)]


def run_held(f, kind, ops, faults, names):
    from pycppsas7bdat import Reader
    path = (FILES.get(f) or LONG.get(f) or VAST[f])["path"]
    where = lambda: "%s, sink %s that keeps nothing, calls %s, exceptions %s, names %s" % (f, kind, ops, faults, names)

    def do(r, o):
        try:
            if o == "p":
                for c in r.properties().columns:
                    c.name, c.label, c.type
            elif o == "x":
                r.read_rows(1)
            else:
                act(r, None, o)
        except Boom:
            pass
    if faults is None:  # many rows of one file
        drop = Drop(kind)
        r = Reader(path, drop)
        grown, last = [], None
        for n in range(20):
            for _ in range(999):
                do(r, ops)
            now = held()
            if last is not None:
                grown.append(now[0] - last[0])
                if now[1] != last[1]:
                    fail(where(), ": %d open files after %d rows, %d before" % (now[1], 999 * (n + 1), last[1]))
            last = now
            stats["transitions"] += 999
            stats["comparisons"] += 1
        if min(grown) > 64:
            fail(where(), ": the bytes held grow with every 999 rows, by %r" % (grown,))
        return

    def cycle():
        drop = Drop(kind, faults)
        try:
            r = Reader(path, drop, include=names[0], exclude=names[1])
        except Boom:
            return
        for o in ops:
            do(r, o)
            stats["transitions"] += 1
    cycle()
    last, grown = held(), []
    for _ in range(15):
        for _ in range(4):
            cycle()
        now = held()
        stats["comparisons"] += 1
        if now[1] != last[1]:
            fail(where(), ": %d files stay open after 4 readers" % (now[1] - last[1]))
        grown.append(now[0] - last[0])
        if grown[-1] <= 64:
            return
        last = now
    fail(where(), ": the bytes held grow with every 4 readers, by %r" % (grown,))


def gen_read_sas():
    for f in FILES:
        for k in (None, "row", "chunk", "chunk1", "chunk3", "chunk64", "data"):
            yield [f, k]


def run_read_sas(f, kind):
    from pycppsas7bdat.read_sas import read_sas
    F = FILES[f]
    trace.append("read_sas %s" % kind)
    view = View(F)
    where = lambda: "%s %s" % (f, trace)
    if kind is None:
        s = read_sas(F["path"])
    else:
        q = provided(kind)
        s = read_sas(F["path"], q)
        if s is not q:
            fail(where(), ": another sink came back")
    if s.columns != view.names:
        fail(where(), ": columns %r" % (s.columns,))
    check_props(where, s.properties, F)
    check_columns(where, s.properties, F, range(len(F["columns"])))
    check_frame(None, view, s, range(len(view.rows)), where)
    check_frame(None, view, s, range(len(view.rows)), where)


def gen_interleaved():
    fs = zoo({0, 4, 6})
    for a in fs:
        for b in fs:
            for ka in ("row", "chunk2", "data"):
                for kb in ("row", "chunk3", "data"):
                    for m in itertools.combinations(range(8 if THOROUGH else 6), 4 if THOROUGH else 3):
                        yield [a, ka, b, kb, list(m)]


def run_interleaved(a, ka, b, kb, m):
    n = 2 * len(m)
    p, q = Pair(FILES[a], ka), Pair(FILES[b], kb)
    ops = [iter("r2er"), iter("2rse")]
    for i in range(n):
        k = i in m
        (p if k else q).step(next(ops[k]))
        p.verify("other"), q.verify("other")
    p.close()
    q.drain()
    q.close()


# ---- two threads, each with its own reader, handed over to each other inside notifications and between calls
class Turns(object):
    def __init__(self, switches):
        self.switches, self.points, self.turn, self.live = set(switches), 0, 0, [True, True]
        self.gate = [threading.Semaphore(0), threading.Semaphore(0)]
        self.me = threading.local()

    def hand(self, to):
        self.turn = to
        self.gate[to].release()

    def point(self):
        k = self.me.k
        n, self.points = self.points, self.points + 1
        if n in self.switches and self.live[1 - k]:
            self.hand(1 - k)
            self.gate[k].acquire()

    def run(self, bodies):
        errors = []

        def thread(k):
            self.me.k = k
            self.gate[k].acquire()
            try:
                bodies[k]()
            except BaseException as e:
                errors.append(e)
            self.live[k] = False
            if self.live[1 - k]:
                self.hand(1 - k)
        ts = [threading.Thread(target=thread, args=(k,)) for k in (0, 1)]
        for t in ts:
            t.start()
        self.hand(0)
        for t in ts:
            t.join()
        if errors:
            raise errors[0]


def gen_threads():
    fs = [f for f in zoo({0, 4, 6}) if "LE32" in f or "BE64" in f]
    for a, b in itertools.product(fs, repeat=2) if THOROUGH else zip(fs, fs[1:] + fs[:1]):
        for ka, kb in (("row", "row"), ("row", "chunk2"), ("chunk1", "row"), ("chunk2", "chunk3"), ("data", "row"), ("data", "data")):
            for oa, ob in (("a", "a"), ("r2a", "sra")):
                for n in range(4 if THOROUGH else 3):
                    for sw in itertools.combinations(range(24), n):
                        yield [a, ka, oa, b, kb, ob, list(sw), []]
    a, b = fs[0], fs[-1]
    for k in range(6):
        for n in range(3):
            for sw in itertools.combinations(range(16), n):
                yield [a, "row", "aa", b, "chunk2", "aa", list(sw), [k]]


def run_threads(a, ka, oa, b, kb, ob, switches, faults):
    t = Turns(switches)
    trace.append("%s %s/%s %s, handed over at %s, faults %s" % (oa, b, kb, ob, switches, faults))

    def body(f, kind, ops):
        def go():
            p = Pair(FILES[f], kind, faults)
            for o in ops if p.r is not None else "":
                t.point()
                p.step(o)
            t.point()
            p.recheck()
            p.close()
        return go
    HOOK[:] = [t.point]
    try:
        t.run([body(a, ka, oa), body(b, kb, ob)])
    finally:
        del HOOK[:]
    stats["outcomes"].add(hash((a, ka, b, kb, t.points)))


# ---- Python has no memory for an object: each allocation in each call
def gen_memory():
    for f in [f for k, f in enumerate(zoo()) if k % 11 in ((0, 2, 5) if THOROUGH else (0, 5)) and ("LE32" in f or "BE64" in f)]:
        for k in ("row", "chunk1", "chunk2", "chunk3", "data"):
            for ops in ("r2a", "a", "sra", "re1ea") if THOROUGH else ("r2a", "a", "sre"):
                for j in range(-1, len(ops)):
                    yield [f, k, ops, j]


def run_memory(f, kind, ops, j):
    import ctypes
    lib = ctypes.PyDLL(opts["oom"])
    for n in ("install", "arm", "pause", "resume"):
        getattr(lib, "oom_" + n).restype = None
    lib.oom_arm.argtypes, lib.oom_stop.restype = [ctypes.c_long], ctypes.c_long
    if not getattr(run_memory, "on", False):
        lib.oom_install()
        run_memory.on = True
    from pycppsas7bdat import Reader
    F = FILES[f]
    view = View(F)
    arm, stop, pause, resume = lib.oom_arm, lib.oom_stop, lib.oom_pause, lib.oom_resume
    for n in range(1, 100000):
        trace[:] = ["%s, allocation %d of call %d (-1: opening)" % (ops, n, j)]
        where = lambda: "%s %s %s" % (f, kind, trace[0])
        sink = make(kind, view)
        told = sink.told

        def quiet(e, told=told):
            pause()
            told(e)
            resume()
        sink.told = quiet
        seen, r, raised, lost = 0, None, 0, 0
        for i in range(-1, len(ops)):
            if i >= 0 and r is None:
                break
            try:
                if i == j:
                    try:
                        arm(n)
                        if i < 0:
                            r = Reader(F["path"], sink)
                        else:
                            act(r, sink, ops[i])
                    finally:
                        seen = stop()
                elif i < 0:
                    r = Reader(F["path"], sink)
                else:
                    act(r, sink, ops[i])
            except Exception as e:
                if i != j or i >= 0 and not isinstance(e, MemoryError):
                    fail(where(), ": call %d raised %s: %s" % (i, type(e).__name__, e))
                raised += 1
        r = None
        stats["transitions"] += 1
        del sink.told
        got = [sink.event(k) for k in range(len(sink.got))]
        rows, skipped = [], ops[0] == "s"
        for e in got:
            if e[0] == "R":
                rows.append((e[1], e[1], [e[2]]))
            elif e[0] == "C":
                rows.append((e[1], e[2], e[3]))
                if len(e[3]) > sink.chunk_size:
                    fail(where(), ": a chunk of %d rows: %s" % (len(e[3]), e))
            elif e[0] == "D":
                rows = [(0, len(view.rows) - 1, e[1])]
        at = 0
        for a, b, l in rows:
            if a < at and kind != "data":
                fail(where(), ": rows %d to %d after %d rows" % (a, b, at))
            at = a
            for q in l:
                while at <= b and view.rows[at] != q:
                    at += 1
                if at > b:
                    fail(where(), ": %s is no row from %d to %d" % (q, a, b))
                at += 1
            lost += b + 1 - a - len(l) if kind != "data" else 0
            at = b + 1
        if lost > raised:
            fail(where(), ": %d rows missing" % lost)
        stats["comparisons"] += 1
        if seen < n:
            break
    else:
        fail(where(), ": no end")
    stats["outcomes"].add(hash((f, kind, ops, j, n)))


def gen_cuts():
    for f in zoo({0, 1, 2, 4, 6, 7}):
        n = os.path.getsize(FILES[f]["path"])
        for k in ("row", "chunk2", "data"):
            for c in range(0, n, 37 if THOROUGH else 331):
                yield [f, k, c]


def run_cuts(f, kind, cut):
    from pycppsas7bdat import Reader
    F = FILES[f]
    path = os.path.join(opts["scratch"], "cut-%d.sas7bdat" % os.getpid())
    with open(F["path"], "rb") as i, open(path, "wb") as o:
        o.write(i.read(cut))
    trace.append("cut at %d" % cut)
    where = lambda: "%s %s %s" % (f, kind, trace)
    view = View(F)
    s = make(kind, view)
    r, err = None, None
    try:
        r = Reader(path, s)
        r.read_all()
    except Exception as e:
        err = e
    if r is not None:
        for _ in range(3):
            try:
                r.read_row()
            except Exception:
                pass
        try:
            r.end_of_data()
        except Exception:
            pass
    rows = []
    for k in range(len(s.got)):
        e = s.event(k)
        if e[0] == "R":
            if e[1] != len(rows):
                fail(where(), ": row", e[1], "after", len(rows))
            rows.append(e[2])
        elif e[0] == "C":
            if e[1] != len(rows) or e[2] != len(rows) + len(e[3]) - 1:
                fail(where(), ": chunk", e[1], e[2], "after", len(rows))
            rows += e[3]
        elif e[0] == "D":
            rows = e[1]
    stats["comparisons"] += 1
    if rows != view.rows[:len(rows)]:
        fail(where(), ": rows %s are not the file's first" % str(rows)[:500])
    if err is None and r is None:
        fail(where(), ": neither a reader nor an exception")
    stats["outcomes"].add(hash((f, len(rows), err is None)))
    del r
    os.unlink(path)


SECTIONS = {k[4:]: (v, globals()["run_" + k[4:]]) for k, v in list(globals().items()) if k.startswith("gen_")}


def main():
    gen, run = SECTIONS[opts["section"]]
    cur = open(opts["cur"], "r+b")
    mm = mmap.mmap(cur.fileno(), 4096)

    def one(i, case):
        t = json.dumps(case).encode()[:4000]
        mm[0:8] = struct.pack("<q", i + 1)
        mm[8:12] = struct.pack("<i", len(t))
        mm[12:12 + len(t)] = t
        del trace[:]
        stats["cases"] += 1
        run(*case)
        stats["outcomes"].add(hash((i,)))
    result = dict(section=opts["section"])
    case = None
    try:
        if opts.get("case") is not None:
            case = opts["case"]
            one(0, case)
        else:
            sh, of = opts["shard"]
            for i, case in enumerate(gen()):
                if i % of == sh:
                    one(i, case)
                    if len(stats["samples"]) < 2 and i % 7 == 0:
                        stats["samples"].append("%s %s" % (opts["section"], json.dumps(case)))
    except Violation as e:
        result["violation"] = str(e)
        result["case"] = case
    except BaseException as e:
        import traceback
        result["violation"] = "unexpected %s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
        result["case"] = case
    result.update(cases=stats["cases"], transitions=stats["transitions"], comparisons=stats["comparisons"], distinct=len(stats["outcomes"]), states=[s & 0xFFFFFFFFFFFF for s in stats["states"]], samples=stats["samples"])
    with open(opts["out"] + ".tmp", "w") as f:
        json.dump(result, f)
    os.rename(opts["out"] + ".tmp", opts["out"])
    sys.stdout.flush()
    os._exit(0)


main()
