"""Stand-in for the parts of pandas that pycppsas7bdat.sink uses (pandas is not installed): a frame is its
column names and its rows, copied when it is made."""


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            data = {n: [r[k] for r in data.rows] for k, n in enumerate(data.names)}
        if isinstance(data, dict):
            self.names = list(data) if columns is None else list(columns)
            cols = [list(data[n]) if n in data else None for n in self.names]
            sizes = set(len(c) for c in cols if c is not None)
            if len(sizes) > 1:
                raise ValueError("All arrays must be of the same length")
            n = sizes.pop() if sizes else 0
            self.rows = [tuple(float("nan") if c is None else c[i] for c in cols) for i in range(n)]
        else:
            self.rows = [tuple(r) for r in data]
            self.names = list(columns) if columns is not None else list(range(len(self.rows[0]) if self.rows else 0))
            for r in self.rows:
                if len(r) != len(self.names):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(self.names), len(r)))

    @classmethod
    def from_records(cls, data, index=None, exclude=None, columns=None, coerce_float=False, nrows=None):
        return cls(list(data), columns=columns)

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        return cls(data, columns=columns)

    @property
    def columns(self):
        return list(self.names)

    def __len__(self):
        return len(self.rows)

    @property
    def empty(self):
        return not self.rows or not self.names


def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, levels=None, names=None, verify_integrity=False, sort=False, copy=None):
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    d = DataFrame(columns=objs[0].names)
    for o in objs:
        if o.names != d.names:
            raise ValueError("other columns: %r and %r" % (d.names, o.names))
        d.rows.extend(o.rows)
    return d
