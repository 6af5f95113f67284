"""What numpy does with one-dimensional arrays of times and with solutions (one row per component, one column per time),
as Python code: interpreted by the verifier in place of numpy, and compared with numpy itself at run time (native/c16.py)."""


def select(items, mask): return [x for x, m in zip(items, mask) if m]


class Times:
    """A one-dimensional array of numbers."""
    __pyvc__ = __elementwise__ = True

    def __init__(self, items): self.items = list(items)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)
    def __contains__(self, x): return x in self.items
    def __ge__(self, x): return Mask([t >= x for t in self.items])
    def __gt__(self, x): return Mask([t > x for t in self.items])
    def __le__(self, x): return Mask([t <= x for t in self.items])
    def __lt__(self, x): return Mask([t < x for t in self.items])
    def __eq__(self, x): return Mask([t == x for t in self.items])
    def __ne__(self, x): return Mask([t != x for t in self.items])

    def __getitem__(self, k):
        if isinstance(k, Mask): return Times(select(self.items, k.items))
        if isinstance(k, slice): return Times(self.items[k])
        return self.items[k]


class Mask:
    __pyvc__ = __elementwise__ = True

    def __init__(self, items): self.items = list(items)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)
    def __invert__(self): return Mask([not m for m in self.items])
    def any(self): return any(self.items)
    def all(self): return all(self.items)


class Matrix:
    """A two-dimensional array, by its columns."""
    __pyvc__ = __elementwise__ = True

    def __init__(self, columns): self.columns = list(columns)

    def __getitem__(self, k):
        rows, cols = k
        if rows != slice(None, None, None): raise NotImplementedError('rows of a solution')
        if isinstance(cols, Mask): return Matrix(select(self.columns, cols.items))
        if isinstance(cols, slice): return Matrix(self.columns[cols])
        raise NotImplementedError('one column of a solution')


class Row:
    """A two-dimensional array of one row."""
    __pyvc__ = __elementwise__ = True

    def __init__(self, items): self.items = list(items)

    @property
    def T(self): return Matrix([self.items])


def concatenate(arrays, axis=0):
    if isinstance(arrays[0], Matrix):
        if axis not in (1, -1): raise NotImplementedError('one solution below another')
        return Matrix([c for a in arrays for c in a.columns])
    if axis != 0: raise NotImplementedError('axis')
    return Times([t for a in arrays for t in a.items])


def flip(a, axis=None):
    if isinstance(a, Matrix):
        if axis not in (1, -1): raise NotImplementedError('rows of a solution')
        return Matrix(a.columns[::-1])
    return Times(a.items[::-1])


def hstack(arrays): return concatenate(arrays, 1 if isinstance(arrays[0], Matrix) else 0)
