"""Very small stand-in for the parts of pandas that IMPROVER's dz_rescaling,
extract_from_table and rainforest helpers touch.  Not a general DataFrame."""
import datetime as _dt

import numpy as np


class Timedelta(_dt.timedelta):
    pass


class _Index(list):
    def astype(self, typ):
        return _Index(typ(v) for v in self)

    def __array__(self, dtype=None):
        return np.array(list(self), dtype=dtype)

    @property
    def values(self):
        return np.array(list(self))


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, dtype=None):
        if isinstance(data, dict):
            self._cols = {k: list(np.atleast_1d(v)) for k, v in data.items()}
            self._colnames = _Index(self._cols)
        else:
            arr = np.asarray(data, dtype=dtype)
            self._colnames = _Index(columns if columns is not None else range(arr.shape[1]))
            self._cols = {k: list(arr[:, i]) for i, k in enumerate(self._colnames)}
        n = len(next(iter(self._cols.values()))) if self._cols else 0
        self._index = _Index(index if index is not None else range(n))

    @classmethod
    def from_dict(cls, table):
        keys = []
        for col in table.values():
            if not isinstance(col, dict):
                return cls(table)
            for k in col:
                if k not in keys:
                    keys.append(k)
        out = cls({c: [v.get(k, np.nan) for k in keys] for c, v in table.items()}, index=keys)
        return out

    @property
    def columns(self):
        return self._colnames

    @columns.setter
    def columns(self, names):
        names = list(names)
        self._cols = {n: self._cols[o] for n, o in zip(names, self._colnames)}
        self._colnames = _Index(names)

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, names):
        self._index = _Index(names)

    def reindex(self, labels, axis=0):
        labels = list(labels)
        if axis == 1:
            out = DataFrame({n: self._cols[n] for n in labels}, index=list(self._index))
        else:
            pos = [list(self._index).index(v) for v in labels]
            out = DataFrame({n: [self._cols[n][p] for p in pos] for n in self._colnames},
                            index=labels)
        return out

    def sort_index(self, axis=0):
        return self.reindex(sorted(self._colnames if axis == 1 else self._index), axis=axis)

    def to_numpy(self):
        return np.array([self._cols[n] for n in self._colnames]).T

    values = property(to_numpy)

    @property
    def shape(self):
        return (len(self._index), len(self._colnames))


def Timestamp(text):
    for fmt in ("%Y%m%dT%H%MZ", "%Y%m%d%H%M", "%Y-%m-%dT%H:%M:%S"):
        try:
            return _dt.datetime.strptime(text, fmt)
        except ValueError:
            pass
    raise ValueError(text)
