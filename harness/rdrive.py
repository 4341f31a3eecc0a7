"""Every case of a section run on the R package by rdrive.R, what it wrote compared step by step with a model.
Called by c22.py."""
import sys, os, json, mmap, itertools, struct, subprocess, functools

opts = json.loads(sys.argv[1])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pymodel import View, Model, Boom

FILES, LONG, VAST = {}, {}, {}
for _l in open(opts["manifest"]):
    _d = json.loads(_l)
    {"long": LONG, "vast": VAST}.get(_d["group"], FILES)[_d["name"]] = _d
    for _c in _d["columns"]:
        for _k in ("name", "label", "format"):
            _c[_k] = bytes.fromhex(_c[_k])
THOROUGH = opts.get("thorough", False)
stats = dict(cases=0, transitions=0, comparisons=0, states=set(), samples=[])


class Violation(Exception):
    pass


def fail(*a):
    raise Violation(" ".join(str(x) for x in a))


def unesc(b):
    if b"\\" not in b:
        return b
    r, i = bytearray(), 0
    while i < len(b):
        if b[i] == 92:
            i += 1
            r.append({110: 10, 116: 9}.get(b[i], b[i]))
        else:
            r.append(b[i])
        i += 1
    return bytes(r)


@functools.lru_cache(maxsize=1 << 18)
def cell_ok(got, t, want, text):
    """what R holds for a cell of type t whose canonical text is want; text: its text as the library gives it"""
    k = got[:1]
    if t == "string":
        return k == b"s" and unesc(got[1:]) == bytes.fromhex(want[2:]).split(b"\0")[0]  # R's strings end at a NUL
    if t == "number":
        if want == "n:nan":
            return got == b"N"
        try:
            return k == b"f" and struct.unpack("<Q", struct.pack("<d", float.fromhex(got[1:].decode())))[0] == int(want[2:], 16)
        except ValueError:
            return False
    if t == "integer":
        try:
            return float.fromhex(got[1:].decode()) == int(want[2:]) if k == b"f" else k == b"i" and int(got[1:]) == int(want[2:])
        except ValueError:
            return False
    if want.endswith(":nad"):
        return got in (b"N", b"Z")  # an element of a row may be NULL
    return k == b"s" and unesc(got[1:]) == bytes.fromhex(text)


def parse_columns(x, i):
    """[(name, cells)] from the fields of a line starting at i"""
    n, i, r = int(x[i]), i + 1, []
    for _ in range(n):
        m = int(x[i + 1])
        r.append((unesc(x[i][1:]) if x[i][:1] == b"n" else None, x[i + 2:i + 2 + m]))
        if len(r[-1][1]) != m:
            return None
        i += 2 + m
    return r if i == len(x) else None


class Checker(object):
    def __init__(self, f, cols=None):
        self.f = f
        self.view = View(f, cols)
        self.texts = f["texts"]

    def rows_ok(self, got, rows, ordered=False):
        v = self.view
        if got is None or len(got) != len(v.names):
            return "%s columns, expected %d" % (None if got is None else len(got), len(v.names))
        d = dict(got)
        if ordered and [n for n, _ in got] != v.names:
            return "columns %r, expected %r" % ([n for n, _ in got], v.names)
        for k, n in enumerate(v.names):
            if n not in d:
                return "no column %r in %r" % (n, list(d))
            c = d[n]
            if len(c) != len(rows):
                return "%d values of %r, expected %d" % (len(c), n, len(rows))
            for g, i in zip(c, rows):
                if i is None:
                    if g != b"N":
                        return "%r of a row that was not read is %r" % (n, g)
                elif not cell_ok(g, v.types[k], v.rows[i][k], self.texts[i][v.cols[k]]):
                    return "%r of row %d is %r, expected %s %s" % (n, i, g, v.rows[i][k], bytes.fromhex(self.texts[i][v.cols[k]]))
        stats["comparisons"] += 1
        return None


PROPS_TEXT = ("dataset_name", "encoding", "file_type", "sas_release", "sas_server_type", "os_type", "os_name", "creator", "creator_proc")
PROPS_INT = ("header_length", "page_length", "page_count", "row_length", "row_count", "column_count", "col_count_p1", "col_count_p2", "mix_page_row_count", "lcs", "lcp")


class Reading(object):
    """The lines of one case, taken one by one."""

    def __init__(self, lines, where):
        self.l, self.i, self.where = lines, 0, where

    def next(self, what):
        if self.i == len(self.l):
            fail(self.where(), ": nothing more was reported, expected", what)
        self.i += 1
        return self.l[self.i - 1]

    def expect(self, key, what=None):
        x = self.next(what or key)
        if x[0] != key:
            fail(self.where(), ": %s, expected %s" % (show(x), what or key))
        return x

    def end(self):
        if self.i != len(self.l):
            fail(self.where(), ": %s, expected nothing more" % show(self.l[self.i]))

    # -- what the sink was told
    def event(self, c, e):
        x = self.expect({"P": b"P", "R": b"R", "C": b"C", "D": b"D"}[e[0]], "event %s" % (e,))
        if e[0] == "P":
            return
        rows = [e[1]] if e[0] == "R" else e[3] if e[0] == "C" else e[1]
        if e[0] == "R":
            if x[1] != str(e[1]).encode():
                fail(self.where(), ": row index %s, expected %d" % (x[1], e[1]))
            i = 2
        else:
            n = int(x[2])
            if x[1] not in (b"integer", b"double") or [int(float(q)) for q in x[3:3 + n]] != list(rows):
                fail(self.where(), ": row indexes %s, expected %s" % (x[3:3 + n], rows))
            i = 3 + n
        bad = c.rows_ok(parse_columns(x, i), rows, ordered=e[0] == "R")
        if bad:
            fail(self.where(), ":", bad)

    def events(self, c, m, n):
        for e in m.ev[n:]:
            self.event(c, e)
        return len(m.ev)

    def step(self, c, m, o, n):
        boom, want = None, None
        try:
            want = m.op(o)
        except Boom:
            boom = b"boom%d!" % m.raised
        n = self.events(c, m, n)
        x = self.expect(b"o", "the end of %s" % o)
        if x[1] != o.encode():
            fail(self.where(), ": %s, expected the end of %s" % (show(x), o))
        if boom is not None:
            if x[2][:1] != b"E" or boom not in x[2]:
                fail(self.where(), ": %s gave %s, expected the sink's error %s" % (o, x[2], boom))
        else:
            w = b"N" if want is None else b"TRUE" if want else b"FALSE"
            if x[2] != w:
                fail(self.where(), ": %s gave %s, expected %s" % (o, x[2], w))
        if x[3] != str(m.pos).encode():
            fail(self.where(), ": after %s current_row_index is %s, expected %d" % (o, x[3], m.pos))
        stats["transitions"] += 1
        stats["comparisons"] += 1
        stats["states"].add(hash((c.f["name"], m.kind, m.size, m.state())))
        return n

    def props(self, f, cols):
        q, c = {}, []
        while self.i < len(self.l) and self.l[self.i][0] in (b"q", b"c"):
            x = self.next("")
            if x[0] == b"q":
                q[x[1].decode()] = x[2:]
            else:
                c.append(x)
        w = f["props"]

        def value(k):
            if k not in q or len(q[k]) != 1:
                fail(self.where(), ": property %s is %s" % (k, q.get(k)))
            return q[k][0]

        def text(k, t):
            if value(k) != b"N" and unesc(value(k)[1:]) != t or value(k)[:1] != b"s":
                fail(self.where(), ": property %s is %s, the file has %r" % (k, value(k), t))
        for k in PROPS_TEXT:
            text(k, bytes.fromhex(w[k]))
        for k in ("endianness", "platform", "compression"):
            text(k, w[k].encode())
        for k in PROPS_INT:
            g = value(k)
            try:
                n = float.fromhex(g[1:].decode()) if g[:1] == b"f" else int(g[1:])
            except ValueError:
                n = None
            if n != w[k]:
                fail(self.where(), ": property %s is %s, the file has %r" % (k, g, w[k]))
        for k in ("date_created", "date_modified"):
            if k + "_text" in w:
                text(k, w[k + "_text"].encode())
            elif value(k) != b"N":
                fail(self.where(), ": property %s is %s, the file has none" % (k, value(k)))
        if len(c) != len(cols):
            fail(self.where(), ": %d columns in the properties, expected %d" % (len(c), len(cols)))
        for x, k in zip(c, cols):
            col = f["columns"][k]
            d = dict(zip(x[2].decode().split(","), x[3:]))
            want = dict(name=col["name"], label=col["label"], format=col["format"], type=col["type"].encode())
            if unesc(x[1]) != col["name"] or {n: unesc(d.get(n, b"?")[1:]) for n in want} != want:
                fail(self.where(), ": column %s, the file has %s" % (show(x), want))
        stats["comparisons"] += 1 + len(c)

    def frame(self, c, rows, ordered):
        x = self.expect(b"F", "the data frame")
        if rows is None:
            if x[1:] != [b"NULL"]:
                fail(self.where(), ": df is %s, expected none" % show(x))
            return
        if x[1:] == [b"NULL"]:
            fail(self.where(), ": there is no df, expected rows %s" % rows)
        bad = c.rows_ok(parse_columns(x, 1), rows, ordered)
        if bad:
            fail(self.where(), ": df:", bad)


def show(x):
    return b" ".join(x).decode("utf-8", "backslashreplace")[:700]


def zoo(i=None):
    z = [f for f in FILES.values() if f["group"] == "zoo"]
    return [f["name"] for k, f in enumerate(z) if i is None or k % 11 in i]


def group(g):
    return [n for n in FILES if FILES[n]["group"] == g]


SINKS = ["row", "chunk1", "chunk2", "chunk3", "chunk100", "chunk0", "data"]


def names_of(f, cols=None):
    return [f["columns"][k]["name"] for k in (range(len(f["columns"])) if cols is None else cols)]


def selected(f, inc, exc):
    return [k for k, c in enumerate(f["columns"]) if (c["name"] in inc if inc else c["name"] not in exc)]


def pack(l):
    return b"-" if l is None else b"=" if not l else b"\1".join(b"+" + x for x in l)


def line(what, path, kind, ops, faults="-", inc=None, exc=None):
    return b"\t".join([what.encode(), path if type(path) is bytes else path.encode(), kind.encode(), ops.encode() or b"-", faults.encode(), pack(inc), pack(exc)])


# ---- sections: cases; what R runs of one; what it has to report
def record(what, r, f, kind, ops, faults=(), cols=None):
    c = Checker(f, cols)
    m = Model.__new__(Model)
    try:
        m.__init__(c.view, kind, faults)
    except Boom:
        r.events(c, m, 0)
        x = r.expect(b"E", "the sink's error")
        if b"boom0!" not in x[1]:
            fail(r.where(), ": %s, expected the sink's error" % show(x))
        return
    n = r.events(c, m, 0)
    for o in ops + "a" * (len(faults) + 1):
        n = r.step(c, m, o, n)
    r.props(f, c.view.cols)


def gen_sequences():
    for f in zoo():
        for k in SINKS:
            for ops in itertools.product("r023zstSMae" if THOROUGH else "r2sSae", repeat=3):
                yield [f, k, "".join(ops)]
            if THOROUGH or f.startswith(("zoo0-", "zoo4-")):
                for ops in itertools.product("r2sae", repeat=5 if THOROUGH else 4):
                    yield [f, k, "".join(ops)]


def line_sequences(f, kind, ops):
    return line("record", FILES[f]["path"], kind, ops)


def check_sequences(r, f, kind, ops):
    record("record", r, FILES[f], kind, ops)


def gen_faults():
    for f in zoo(None if THOROUGH else {0, 2, 4, 9}):
        n = len(FILES[f]["expect"]) + 1
        for k in ("row", "chunk2", "chunk100", "data"):
            for ops in itertools.product("r2sae", repeat=2):
                for a in range(n):
                    yield [f, k, "".join(ops), [a]]
                    for b in range(a + 1, n if THOROUGH else min(n, a + 3)):
                        yield [f, k, "".join(ops), [a, b]]


def line_faults(f, kind, ops, faults):
    return line("record", FILES[f]["path"], kind, ops, ",".join(map(str, faults)))


def check_faults(r, f, kind, ops, faults):
    record("record", r, FILES[f], kind, ops, tuple(faults))


def subsets(l):
    return [[x for k, x in enumerate(l) if m >> k & 1] for m in range(1 << len(l))]


def gen_filters():
    for f in zoo({0, 3, 4, 8} if not THOROUGH else None):
        n = names_of(FILES[f])[:5 if THOROUGH else 4]
        for k in ("row", "chunk2", "data"):
            for i in subsets(range(len(n))):
                for e in subsets(range(len(n))):
                    yield [f, k, [n[x].hex() for x in i], [n[x].hex() for x in e]]
    for f in zoo({0, 3}) + group("names"):
        n = names_of(FILES[f])
        for k in ("row", "chunk2", "data"):
            for x in n:
                for y in (x + b"x", x[:-1], x.upper(), x + b" ", b" " + x, b"caf\xe9", b"caf\xc3\xa9", x):
                    yield [f, k, [y.hex()], []]
                    yield [f, k, [], [y.hex()]]
                    yield [f, k, [y.hex(), x.hex()], [y.hex()]]


def filter_args(inc, exc):
    inc, exc = [bytes.fromhex(x) for x in inc], [bytes.fromhex(x) for x in exc]
    # no names: left out or an empty vector
    return (inc or (None if len(exc) % 2 else [])), (exc or (None if len(inc) % 2 else []))


def line_filters(f, kind, inc, exc):
    i, e = filter_args(inc, exc)
    return line("record", FILES[f]["path"], kind, "r2", "-", i, e)


def check_filters(r, f, kind, inc, exc):
    record("record", r, FILES[f], kind, "r2", (), selected(FILES[f], [bytes.fromhex(x) for x in inc], [bytes.fromhex(x) for x in exc]))


def gen_frames():
    for f in zoo(None if THOROUGH else {0, 1, 4, 6, 9}):
        for k in ("row", "chunk1", "chunk2", "chunk100", "data"):
            for ops in itertools.product("r2saed", repeat=4 if THOROUGH else 3):
                yield [f, k, "".join(ops)]
    for f in group("values") + group("names"):
        for k in ("row", "chunk", "chunk3", "chunk64", "data"):
            yield [f, k, "2dad"]


def frame_rows(m, c, kind):
    if kind == "row":
        done = set(e[1] for e in m.ev[1:])
        return [i if i in done else None for i in range(m.n)]
    if kind == "data":
        return m.ev[-1][1] if len(m.ev) > 1 else None
    rows = [i for e in m.ev[1:] for i in e[3]]
    return rows if len(m.ev) > 1 else None


def line_frames(f, kind, ops):
    return line("frame", FILES[f]["path"], kind, ops + "dad")


def check_frames(r, f, kind, ops):
    F = FILES.get(f) or LONG.get(f) or VAST[f]
    c = Checker(F)
    m = Model(c.view, "chunk10000" if kind == "chunk" else kind)
    for o in ops + "dad":
        if o == "d":
            r.frame(c, frame_rows(m, c, kind), kind == "row")
        else:
            step_silent(r, c, m, o)
    x = r.expect(b"n", "the names")
    if [unesc(n) for n in x[1:]] != c.view.names:
        fail(r.where(), ": columns %s, expected %s" % (x[1:], c.view.names))
    r.frame(c, frame_rows(m, c, kind), kind == "row")
    r.props(F, c.view.cols)


def step_silent(r, c, m, o):
    """a step whose notifications went to a sink of the package"""
    ev = m.ev
    m.ev = []
    want = m.op(o)
    told, m.ev = m.ev, []
    m.ev = ev + told
    x = r.expect(b"o", "the end of %s" % o)
    w = b"N" if want is None else b"TRUE" if want else b"FALSE"
    if x[1:] != [o.encode(), w, str(m.pos).encode()]:
        fail(r.where(), ": %s, expected %s at %d" % (show(x), w, m.pos))
    stats["transitions"] += 1
    stats["states"].add(hash((c.f["name"], m.kind, m.size, m.state())))


def gen_files():
    for f in FILES:
        n = len(FILES[f]["expect"]) + 2
        for k in SINKS + ["chunk7", "chunk64"]:
            for o in ("a", "M", "rrra", "2s2s2sa", "2" * (n // 2 + 1), "r" * n, "3" * (n // 3 + 1) + "e"):
                if n < 100 or k in ("row", "chunk64", "data") and len(o) < 9:
                    yield [f, k, o]


line_files, check_files = line_sequences, check_sequences


# more rows than a chunk of the package's own size holds
def gen_long():
    for f in LONG:
        for k in ("chunk999", "chunk9999", "chunk10000", "chunk20500", "data"):
            for o in ("a", "2sa", "krr", "kskre") if THOROUGH else ("2sa", "kskre"):
                yield [f, k, o, False]
        for k in ("chunk", "chunk4096", "data"):
            for o in ("M", "kdrda", "kskre") if THOROUGH else ("kdrda",):
                yield [f, k, o, True]
    for f in VAST:
        for k, o, own in (("chunk65537", "rM", False), ("chunk70000", "a", False), ("data", "a", False), ("data", "r", True), ("chunk65537", "a", True)):
            yield [f, k, o, own]


def line_long(f, kind, ops, own):
    return line("frame" if own else "record", (LONG.get(f) or VAST[f])["path"], kind, ops + ("dad" if own else ""))


def check_long(r, f, kind, ops, own):
    if own:
        check_frames(r, f, kind, ops)
    else:
        record("record", r, LONG.get(f) or VAST[f], kind, ops)


def gen_interleaved():
    fs = zoo({0, 4, 6})
    for a in fs:
        for b in fs:
            for ka in ("row", "chunk2", "data"):
                for kb in ("row", "chunk3", "data"):
                    for m in itertools.combinations(range(8 if THOROUGH else 6), 4 if THOROUGH else 3):
                        ops, it = "", [iter("r2er"), iter("RRSE")]
                        for i in range(2 * len(m)):
                            ops += next(it[0]) if i in m else next(it[1])
                        yield [a, ka, b, kb, ops]


def line_interleaved(a, ka, b, kb, ops):
    return line("two", FILES[a]["path"].encode() + b"\1" + FILES[b]["path"].encode(), ka + "," + kb, ops)


def check_interleaved(r, a, ka, b, kb, ops):
    """two independent histories: each reader's lines follow its mark"""
    per, cur = {b"1": [], b"2": []}, None
    for x in r.l:
        if x[0] in per:
            cur = x[0]
        else:
            per[cur].append(x)
    for which, f, k in ((b"1", a, ka), (b"2", b, kb)):
        mine = [o for o in ops if (o in "ABCDEFGHIJKLMNOPQRSTUVWXYZ") == (which == b"2")] + ["a"]
        q = Reading(per[which], r.where)
        c = Checker(FILES[f])
        m = Model(c.view, k)
        n = q.events(c, m, 0)
        for o in mine:
            n = q.step(c, m, o.lower(), n)
        q.end()
    r.i = len(r.l)


# ---- the second reader is opened and read inside the notifications of the first
def gen_nested():
    fs = [f for f in zoo({0, 4, 6}) if "LE32" in f or "BE64" in f]
    for a, b in itertools.product(fs, repeat=2) if THOROUGH else zip(fs, fs[1:] + fs[:1]):
        for ka, kb in (("row", "row"), ("row", "chunk2"), ("chunk1", "row"), ("chunk2", "chunk3"), ("data", "row"), ("row", "data")):
            for oa in ("", "r2"):
                for at in itertools.combinations_with_replacement(range(6), 4):
                    yield [a, ka, oa, b, kb, "r2s" if at[0] % 2 else "s2e", list(at), []]
    a, b = fs[0], fs[-1]
    for kb in ("row", "chunk2"):
        for k in range(4):
            for at in itertools.combinations_with_replacement(range(4), 3):
                yield [a, "row", "", b, kb, "ra", list(at), [k]]


def line_nested(a, ka, oa, b, kb, ob, at, faults):
    return line("nested", FILES[a]["path"].encode() + b"\1" + FILES[b]["path"].encode(), ka + "," + kb, ",".join([oa, ob, "".join(map(str, at))]), ",".join(map(str, faults)) or "-")


def check_nested(r, a, ka, oa, b, kb, ob, at, faults):
    per, cur = {b"1": [], b"2": []}, None
    for x in r.l:
        if x[0] in per:
            cur = x[0]
        else:
            per[cur].append(x)
    for which, f, k, ops, flt in ((b"1", a, ka, oa, ()), (b"2", b, kb, ob, faults)):
        q = Reading(per[which], r.where)
        record("nested", q, FILES[f], k, ops, flt)
        q.end()
    r.i = len(r.l)


def gen_lifetimes():
    for f in zoo({0, 3, 5} if THOROUGH else {5}) + group("names")[:1]:
        for k in ("row", "chunk2", "chunk0", "data"):
            for order in itertools.permutations("rpsk"):
                yield [f, k, "".join(order)]


def line_lifetimes(f, kind, order):
    return line("life", FILES[f]["path"], kind, order)


def check_lifetimes(r, f, kind, order):
    F = FILES[f]
    c = Checker(F)
    m = Model(c.view, kind)
    n = r.events(c, m, 0)
    m.op("r")
    n = r.events(c, m, n)
    held = set(order)
    for o in order:
        held.discard(o)
        for h in sorted(held):
            x = r.expect(b"+")
            if h == "r":
                n = r.step(c, m, "r", n)
            elif h in "pk":
                r.props(F, c.view.cols)


def gen_gc():
    for f in zoo(None if THOROUGH else {0, 4}) + group("names")[:2]:
        for k in ("row", "chunk2", "chunk100", "data"):
            for ops, faults in (("r2es2", []), ("2s", [2])):
                for wait in range(0, 101, 17 if THOROUGH else 50):
                    yield [f, k, ops, faults, wait]


def line_gc(f, kind, ops, faults, wait):
    return line("gc%d" % wait, FILES[f]["path"], kind, ops, ",".join(map(str, faults)) or "-")


def check_gc(r, f, kind, ops, faults, wait):
    record("gc", r, FILES[f], kind, ops, tuple(faults))


def gen_properties():
    for f in FILES:
        for k in ("row", "chunk2", "data"):
            yield [f, k]


def line_properties(f, kind):
    return line("props", FILES[f]["path"], kind, "-")


def check_properties(r, f, kind):
    F = FILES[f]
    c = Checker(F)
    m = Model(c.view, kind)
    n = r.events(c, m, 0)
    props_block(r, F, c, 1)
    r.step(c, m, "a", n)
    props_block(r, F, c, 3)


def props_block(r, F, c, n):
    """n listings following each other: one begins with the property listed first"""
    first = r.l[r.i][1] if r.i < len(r.l) else None
    for _ in range(n):
        k = r.i + 1
        while k < len(r.l) and r.l[k][0] in (b"q", b"c") and r.l[k][:2] != [b"q", first]:
            k += 1
        q = Reading(r.l[r.i:k], r.where)
        q.props(F, c.view.cols)
        q.end()
        r.i = k


def gen_read_sas():
    for f in FILES:
        yield [f, [], []]
        n = names_of(FILES[f])
        for x in n[:3]:
            yield [f, [x.hex()], []]
            yield [f, [], [x.hex()]]


def line_read_sas(f, inc, exc):
    i, e = filter_args(inc, exc)
    return line("read_sas", FILES[f]["path"], "-", "-", "-", i, e)


def check_read_sas(r, f, inc, exc):
    F = FILES[f]
    cols = selected(F, [bytes.fromhex(x) for x in inc], [bytes.fromhex(x) for x in exc])
    c = Checker(F, cols)
    r.frame(c, range(len(F["expect"])), False)
    x = r.expect(b"n", "the names")
    if [unesc(n) for n in x[1:]] != c.view.names and c.view.names:
        fail(r.where(), ": columns %s, expected %s" % (x[1:], c.view.names))
    r.props(F, cols)


ARGS = [("sas_reader(path, s, include=1)", "include"), ("sas_reader(path, s, exclude=1:2)", "exclude"), ("sas_reader(path, s, include=list('a'))", "include"), ("sas_reader(path, s, include=TRUE)", "include"),
        ("sas_reader(path, s, include=factor('a'))", "include"), ("sas_reader(path, s, exclude=s)", "exclude"), ("sas_reader(path, s, 'a', function() 1)", "exclude"), ("sas_reader('/nonexistent/f', s)", ""), ("sas_reader('/', s)", ""),
        ("sas_reader('/dev/null', s)", ""), ("sas_reader('', s)", ""), ("sas_reader(strrep('x', 5000), s)", ""), ("sas_reader(path, new.env())", "sink"), ("sas_reader(path, NULL)", ""), ("sas_reader(path, 1)", ""), ("sas_reader(path, list())", ""),
        ("{ e <- new.env(); e$set_properties <- function(p) NULL; sas_reader(path, e) }", "sink"), ("{ e <- new.env(); e$push_row <- function(i, r) NULL; sas_reader(path, e) }", "sink"),
        ("{ e <- new.env(); e$set_properties <- function(p) NULL; e$push_rows <- function(i, r) NULL; sas_reader(path, e) }", "sink"), ("{ e <- new.env(); e$set_properties <- 1; e$push_row <- 2; sas_reader(path, e) }", ""),
        ("{ e <- new.env(); e$set_properties <- function(p) NULL; e$push_rows <- function(i, r) NULL; e$chunk_size <- 'many'; sas_reader(path, e) }", ""), ("{ e <- new.env(); e$set_properties <- function(p) NULL; e$push_rows <- function(i, r) NULL; e$chunk_size <- NULL; sas_reader(path, e) }", ""),
        ("sas_reader(path, s)$read_rows('x')", ""), ("sas_reader(path, s)$skip(NULL)", ""), ("sas_reader(path, s)$read_rows(list())", ""), ("sas_reader(path, s)$skip(c())", ""), ("read_sas('/nonexistent/f')", ""), ("read_sas(path, include=3)", "include"),
        ("{ e <- new.env(); e$set_properties <- function() NULL; e$push_row <- function(i, r) NULL; sas_reader(path, e) }", "")]


# what reading holds on to: R's cells, bytes and open files
def gen_held():
    for f in zoo() if THOROUGH else zoo({0, 5}) + group("names")[:1]:
        for k in ("row", "chunk2", "data"):
            for o in ("a", "r2ssr", "rp3ea"):
                for b in ((), (0,), (1,), (2,)) if THOROUGH or o == "a" else ((),):
                    for n in ((None, None), (["no such"], None), (None, ["no such"])) if THOROUGH or o == "a" and b in ((), (0,)) else ((None, None),):
                        yield [f, k, o, b, n]
    for f in LONG:
        for k in ("row", "chunk50", "chunk999", "data"):
            for o in "rsp" + "12" * THOROUGH:
                yield [f, k, o, None, (None, None)]


def line_held(f, kind, ops, faults, names):
    if faults is None:
        return line("many", LONG[f]["path"], kind, ops)
    return line("held", FILES[f]["path"], kind, ops, ",".join(map(str, faults)) or "-", *(n and [t.encode() for t in n] for n in names))


def check_held(r, f, kind, ops, faults, names):
    x = [[float(v) for v in r.expect(b"h", "what is alive")[1:]]]
    while r.i < len(r.l):
        x.append([float(v) for v in r.expect(b"h", "what is alive")[1:]])
    stats["comparisons"] += len(x)
    stats["transitions"] += 4 * len(ops) * len(x) if faults is not None else 400 * 6 if ops == "p" else 1999 * 30
    if faults is None and len(x) != (6 if ops == "p" else 30):
        fail(r.where(), ": %d of the rounds ran" % len(x))
    of = "400 calls" if ops == "p" else "1999 rows" if faults is None else "4 readers"
    # Rcpp itself keeps a cell of every error that passes through a method
    for what, i, slack in (("cells", 0, 3 + 8 * len(faults or ())), ("vector cells", 1, 7), ("bytes", 2, 64), ("open files", 3, 0)):
        if kind == "data" and faults is None and ops != "p" and i < 3:
            continue  # holds the whole data
        grown = [b[i] - a[i] for a, b in zip(x, x[1:])]
        if min(grown) > slack:
            fail(r.where(), ": the number of %s alive grows with every %s, by %r" % (what, of, grown))


def gen_arguments():
    for f in zoo({0}):
        for k in range(len(ARGS)):
            yield [f, k]


def line_arguments(f, k):
    return line("args", FILES[f]["path"], "row", ARGS[k][0])


def check_arguments(r, f, k):
    while r.i < len(r.l) and r.l[r.i][0] in (b"P", b"w"):
        r.i += 1
    x = r.expect(b"r", "the outcome")
    if x[1][:1] != b"E" or len(x[1]) < 2:
        fail(r.where(), ": %s: %s, expected an error" % (ARGS[k][0], show(x)))
    if ARGS[k][1].encode() not in x[1]:
        fail(r.where(), ": %s: %s, expected an error about %s" % (ARGS[k][0], show(x), ARGS[k][1]))


def gen_cuts():
    for f in zoo({0, 1, 2, 4, 6, 7}):
        n = os.path.getsize(FILES[f]["path"])
        for k in ("row", "chunk2", "data"):
            for c in range(0, n, 37 if THOROUGH else 331):
                yield [f, k, c]


def cut_path(f, cut):
    return os.path.join(opts["scratch"], "cut-%s-%d.sas7bdat" % (f, cut))


def line_cuts(f, kind, cut):
    p = cut_path(f, cut)
    if not os.path.exists(p):
        with open(FILES[f]["path"], "rb") as i, open(p + ".%d" % os.getpid(), "wb") as o:
            o.write(i.read(cut))
        os.rename(p + ".%d" % os.getpid(), p)
    return line("record", p, kind, "arre")


def check_cuts(r, f, kind, cut):
    """an error or an end; the rows told are the file's first"""
    c = Checker(FILES[f])
    nxt, data, err = 0, None, False
    while r.i < len(r.l):
        x = r.next("")
        if x[0] == b"E" or x[0] == b"o" and x[2][:1] == b"E":
            err = True
        elif x[0] == b"R":
            bad = c.rows_ok(parse_columns(x, 2), [nxt], True) if x[1] == str(nxt).encode() and nxt < len(c.view.rows) else "row %s after %d" % (x[1], nxt)
            if bad:
                fail(r.where(), ":", bad)
            nxt += 1
        elif x[0] in (b"C", b"D"):
            n = int(x[2])
            idx = [int(q) for q in x[3:3 + n]]
            start = nxt if x[0] == b"C" else 0
            bad = c.rows_ok(parse_columns(x, 3 + n), idx) if idx == list(range(start, start + n)) and start + n <= len(c.view.rows) else "rows %s after %d" % (idx, nxt)
            if bad:
                fail(r.where(), ":", bad)
            nxt = start + n
        elif x[0] in (b"!", b"X", b"?"):
            fail(r.where(), ":", show(x))


SECTIONS = {k[4:]: (v, globals()["line_" + k[4:]], globals()["check_" + k[4:]]) for k, v in list(globals().items()) if k.startswith("gen_")}


def main():
    name = opts["section"]
    gen, ln, chk = SECTIONS[name]
    cur = open(opts["cur"], "r+b")
    mm = mmap.mmap(cur.fileno(), 4096)
    if opts.get("case") is not None:
        cases = [opts["case"]]
    else:
        sh, of = opts["shard"]
        cases = [c for i, c in enumerate(gen()) if i % of == sh]
    base = opts["out"]
    with open(base + ".cases", "wb") as f:
        for c in cases:
            f.write(ln(*c) + b"\n")
    os.mkfifo(base + ".fifo")
    env = dict(os.environ)
    env.update(opts["renv"])
    if name in ("files", "properties", "read_sas"):  # neither does the locale matter
        env["LC_ALL"] = "C"
    if name == "held":  # what was freed is not alive
        env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
    err = open(base + ".err", "w+b")
    p = subprocess.Popen(["Rscript", "--vanilla", os.path.join(HERE, "rdrive.R"), opts["rlib"], base + ".cases", base + ".fifo", opts["alive"]], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
    # opened for reading without waiting for R, which may end before it opens its side
    fd = os.open(base + ".fifo", os.O_RDONLY | os.O_NONBLOCK)
    result = dict(section=name)
    current = [None]
    where = lambda: "%s %s" % (name, json.dumps(current[0]))

    def lines():
        import select
        buf = b""
        po = select.poll()
        po.register(fd, select.POLLIN)
        while True:
            ended = p.poll() is not None
            po.poll(100)
            try:
                d = os.read(fd, 1 << 16)
            except BlockingIOError:
                d = b""
            if d:
                buf += d
                *full, buf = buf.split(b"\n")
                for l in full:
                    yield l
            elif ended:
                return
    try:
        got, n, done = [], -1, False

        def begin(i):
            current[0] = cases[i]
            t = json.dumps(cases[i]).encode()[:4000]
            mm[0:8] = struct.pack("<q", i + 1)
            mm[8:12] = struct.pack("<i", len(t))
            mm[12:12 + len(t)] = t

        def finish():
            r = Reading(got, where)
            for x in got:
                if x[0] in (b"!", b"X", b"?"):
                    fail(where(), ": what was handed over changed afterwards:" if x[0] == b"X" else ":", show(x))
            chk(r, *current[0])
            r.end()
            stats["cases"] += 1
            if len(stats["samples"]) < 2:
                stats["samples"].append(where())
        for l in lines():
            x = l.split(b"\t")
            if x[0] == b"@":
                if n >= 0:
                    finish()
                if x[1] == b"end":
                    done = True
                    break
                n += 1
                begin(n)
                got = []
            else:
                got.append(x)
        if not done:
            err.seek(0)
            t = err.read().decode(errors="replace")
            keep = [q for q in t.splitlines() if "ERROR" in q or "SUMMARY" in q or "rror" in q or "#0" in q or "#1 " in q]
            if n < 0 and "Sanitizer" not in t:
                sys.stderr.write(t[-3000:])
                os._exit(3)
            fail(where(), ": R ended with %s: %s" % (p.wait(), " / ".join(keep)[:1500] or t[-800:]))
        if n + 1 != len(cases):
            fail(where(), ": %d of %d cases ran" % (n + 1, len(cases)))
    except Violation as e:
        result["violation"] = str(e)
        result["case"] = current[0]
    except BaseException:
        import traceback
        result["violation"] = "unexpected: %s %s" % (where(), traceback.format_exc()[-1500:])
        result["case"] = current[0]
    p.kill()
    p.wait()
    result.update(cases=stats["cases"], transitions=stats["transitions"], comparisons=stats["comparisons"], distinct=stats["cases"], states=[s & 0xFFFFFFFFFFFF for s in stats["states"]], samples=stats["samples"])
    with open(opts["out"] + ".tmp", "w") as f:
        json.dump(result, f)
    os.rename(opts["out"] + ".tmp", opts["out"])
    os._exit(0)


main()
