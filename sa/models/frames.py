"""Stand-ins for the parts of pandas and numpy.polynomial the regression models use. The analysis interprets them; they are never imported."""
import numpy as np


class DataFrame:
    def __init__(self, data=None):
        self.names = []
        self.cols = {}
        if data is None:
            pass
        elif isinstance(data, DataFrame):
            self.names = list(data.names)
            for c in data.names:
                self.cols[c] = np.array(data.cols[c])
        elif isinstance(data, dict):
            for c in data:
                self.names.append(c)
                self.cols[c] = np.array(np.asarray(data[c]))
        else:
            arr = np.asarray(data)
            for j in range(arr.shape[1]):
                self.names.append(j)
                self.cols[j] = np.array(arr[:, j])

    @property
    def shape(self):
        if len(self.names) == 0:
            return (0, 0)
        return (len(self.cols[self.names[0]]), len(self.names))

    @property
    def columns(self):
        return list(self.names)

    def copy(self):
        return DataFrame(self)

    def insert(self, loc, column, value):
        if column in self.names:
            raise ValueError('cannot insert, already exists')
        new = np.array(np.asarray(value))
        if len(self.names) > 0 and len(new) != self.shape[0]:
            raise ValueError('Length of values does not match length of index')
        names = list(self.names)
        names.insert(loc, column)
        self.names = names
        self.cols[column] = new

    def __getitem__(self, name):
        if name not in self.cols:
            raise KeyError(name)
        return self.cols[name]

    def __setitem__(self, name, value):
        new = np.array(np.asarray(value))
        if name not in self.cols:
            names = list(self.names)
            names.append(name)
            self.names = names
        self.cols[name] = new

    def __iter__(self):
        return iter(list(self.names))

    def __len__(self):
        return self.shape[0]

    def to_numpy(self):
        return self.__array__()

    @property
    def values(self):
        return self.__array__()

    def __array__(self, dtype=None, copy=None):
        return np.array([self.cols[c] for c in self.names]).T

    def __matmul__(self, v):
        return self.__array__() @ np.asarray(v)


class Polynomial:
    """power series; the other families are converted to it"""

    def __init__(self, coef):
        self.coef = list(coef)

    def __mul__(self, k):
        return Polynomial([c * k for c in self.coef])

    def __rmul__(self, k):
        return Polynomial([k * c for c in self.coef])

    def __add__(self, other):
        if not isinstance(other, Polynomial):
            other = Polynomial([other])
        n = max(len(self.coef), len(other.coef))
        a = self.coef + [0.0] * (n - len(self.coef))
        b = other.coef + [0.0] * (n - len(other.coef))
        return Polynomial([a[k] + b[k] for k in range(n)])

    def __radd__(self, other):
        return self + other

    def degree(self):
        return len(self.coef) - 1

    def deriv(self, m=1):
        c = self.coef
        for _ in range(m):
            c = [k * c[k] for k in range(1, len(c))]
            if len(c) == 0:
                c = [0.0]
        return Polynomial(c)

    def roots(self):
        c = list(self.coef)
        while len(c) > 1 and c[-1] == 0:
            c = c[:-1]
        if len(c) == 1:
            return np.zeros(0)
        if len(c) == 2:
            return np.array([-c[0] / c[1]])
        raise NotImplementedError('roots of a quadratic')

    def __call__(self, x):
        r = 0.0 * x + self.coef[-1]
        for c in self.coef[-2::-1]:
            r = r * x + c
        return r
