# what the readers use of numpy, by meaning: one- and two-dimensional arrays of known shape
from oracle import inverse, logarithm, zero
newaxis = None
inf = float("inf")
pi = 3.141592653589793

def full_list(a):
    return a.rows if isinstance(a, ndarray) else [full_list(x) if isinstance(x, (list, tuple, ndarray)) else x for x in a]

def flat_copy(x):
    return [flat_copy(y) for y in x] if isinstance(x, list) else x

def fill(shape, v):
    if isinstance(shape, int):
        return [v for k in range(shape)]
    if len(shape) == 1:
        return [v for k in range(shape[0])]
    return [[v for k in range(shape[1])] for j in range(shape[0])]

def pick(i, n):
    """positions a slice, list, mask or number selects"""
    if isinstance(i, slice):
        return list(range(n))[i]
    if isinstance(i, Open):
        i = i.at
    if isinstance(i, ndarray):
        i = i.rows
    if isinstance(i, (list, tuple)):
        if len(i) and isinstance(i[0], bool):
            return [k for k in range(n) if i[k]]
        return [k for k in i]
    return [i]

class Open:
    """one side of an open mesh"""
    def __init__(self, at):
        self.at = at

def scalar(i):
    return not isinstance(i, (slice, list, tuple, ndarray, Open))

def rowshape(s):
    return s.a if isinstance(s, ndarray) else s

def both(f, a, b):
    a = full_list(a) if isinstance(a, (ndarray, list, tuple)) else a
    b = full_list(b) if isinstance(b, (ndarray, list, tuple)) else b
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 1 and len(b) != 1:
            a = [a[0] for x in b]
        if len(b) == 1 and len(a) != 1:
            b = [b[0] for x in a]
        if len(a) != len(b):
            raise ValueError("shapes")
        return [both(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [both(f, x, b) for x in a]
    if isinstance(b, list):
        return [both(f, a, y) for y in b]
    return f(a, b)

def each(f, a):
    return [each(f, x) for x in a] if isinstance(a, list) else f(a)

class ndarray:
    def __init__(self, rows):
        self.rows = rows
    @property
    def ndim(self):
        return 2 if len(self.rows) and isinstance(self.rows[0], list) else 1
    @property
    def shape(self):
        if len(self.rows) and isinstance(self.rows[0], list):
            return (len(self.rows), len(self.rows[0]))
        return (len(self.rows),)
    @property
    def T(self):
        if self.ndim == 1:
            return self
        return ndarray([[r[k] for r in self.rows] for k in range(len(self.rows[0]))])
    @property
    def real(self):
        return ndarray(each(lambda x: x.real, self.rows))
    @property
    def imag(self):
        return ndarray(each(lambda x: x.imag, self.rows))
    def transpose(self):
        return self.T
    def astype(self, t):
        return ndarray(flat_copy(self.rows))
    def copy(self):
        return ndarray(flat_copy(self.rows))
    def tolist(self):
        return flat_copy(self.rows)
    def dot(self, o):
        return dot(self, o)
    def flatten(self):
        return ravel(self)
    def ravel(self):
        return ravel(self)
    def reshape(self, *shape):
        return reshape(self, *shape)
    def sum(self, axis=None):
        return sum(self, axis)
    def diagonal(self):
        return diag(self)
    def __len__(self):
        return len(self.rows)
    def __iter__(self):
        return [ndarray(r) if isinstance(r, list) else r for r in self.rows]
    def __bool__(self):
        if len(self.rows) == 1 and not isinstance(self.rows[0], list):
            return self.rows[0]
        raise ValueError("truth value of an array")
    def __getitem__(self, i):
        if not isinstance(i, tuple):
            if scalar(i):
                r = self.rows[i]
                return ndarray(r) if isinstance(r, list) else r
            if isinstance(i, ndarray) and i.ndim == 2:
                raise NotImplementedError
            return ndarray([self.rows[k] for k in pick(i, len(self.rows))])
        if len(i) == 3:
            sub = [x for x in i if x is not None]
            r = self[sub[0], sub[1]]
            if i[2] is None:
                return ndarray([[x] for x in r.rows])
            return ndarray([[x for x in r.rows]])
        if len(i) == 1:
            return self[i[0]]
        a, b = i
        if b is None:
            return ndarray([[x] for x in self[a].rows])
        if a is None:
            return ndarray([self[b].rows])
        n = len(self.rows)
        if scalar(a) and scalar(b):
            return self.rows[a][b]
        if scalar(a):
            r = self.rows[a]
            return ndarray([r[k] for k in pick(b, len(r))])
        if scalar(b):
            return ndarray([self.rows[k][b] for k in pick(a, n)])
        if not isinstance(a, (slice, Open)) and not isinstance(b, slice):
            return ndarray([self.rows[x][y] for x, y in zip(pick(a, n), pick(b, n))])
        m = len(self.rows[0])
        return ndarray([[self.rows[k][j] for j in pick(b, m)] for k in pick(a, n)])
    def __setitem__(self, i, v):
        if isinstance(i, ndarray) and i.ndim == 2:
            self.rows = [[v if i.rows[k][j] else self.rows[k][j] for j in range(len(self.rows[k]))] for k in range(len(self.rows))]
            return
        if isinstance(i, tuple) and len(i) == 2:
            a, b = i
            if scalar(a) and scalar(b):
                self.rows[a][b] = v
                return
            n, m = len(self.rows), len(self.rows[0])
            v = full_list(v) if isinstance(v, (ndarray, list)) else v
            ka, kb = pick(a, n), pick(b, m)
            for x, k in enumerate(ka):
                for y, j in enumerate(kb):
                    if not isinstance(v, list):
                        self.rows[k][j] = v
                    elif len(v) and isinstance(v[0], list):
                        self.rows[k][j] = v[x][y]
                    else:
                        self.rows[k][j] = v[x] if scalar(b) else v[y]
            return
        if scalar(i):
            self.rows[i] = full_list(v) if isinstance(v, (ndarray, list)) else v
            return
        for x, k in enumerate(pick(i, len(self.rows))):
            self.rows[k] = full_list(v)[x] if isinstance(v, (ndarray, list)) else v
    def __eq__(self, o):
        return ndarray(both(same_, self.rows, o))
    def __ne__(self, o):
        return ~(self == o)
    def __imul__(self, o):
        self.rows = both(lambda x, y: x * y, self.rows, o)
        return self
    def __itruediv__(self, o):
        self.rows = both(lambda x, y: x / y, self.rows, o)
        return self
    def __iadd__(self, o):
        self.rows = both(lambda x, y: x + y, self.rows, o)
        return self
    def conj(self):
        return ndarray(each(lambda x: x.conjugate(), self.rows))
    def __invert__(self):
        return ndarray(each(lambda x: not x, self.rows))
    def __neg__(self):
        return ndarray(each(lambda x: -x, self.rows))
    def __add__(self, o):
        return ndarray(both(lambda x, y: x + y, self.rows, o))
    def __radd__(self, o):
        return ndarray(both(lambda x, y: x + y, o, self.rows))
    def __sub__(self, o):
        return ndarray(both(lambda x, y: x - y, self.rows, o))
    def __rsub__(self, o):
        return ndarray(both(lambda x, y: x - y, o, self.rows))
    def __mul__(self, o):
        return ndarray(both(lambda x, y: x * y, self.rows, o))
    def __rmul__(self, o):
        return ndarray(both(lambda x, y: x * y, o, self.rows))
    def __truediv__(self, o):
        return ndarray(both(lambda x, y: x / y, self.rows, o))
    def __rtruediv__(self, o):
        return ndarray(both(lambda x, y: x / y, o, self.rows))
    def __pow__(self, o):
        if o == -1 and self.ndim == 2:
            return ndarray(each(lambda x: 1 / x, self.rows))
        return ndarray(both(lambda x, y: x ** y, self.rows, o))
    def __matmul__(self, o):
        return dot(self, o)

def array(x, dtype=None):
    if isinstance(x, ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return ndarray([full_list(y) if isinstance(y, (list, tuple, ndarray)) else y for y in x])
    return x
asarray = array
def zeros(shape, dtype=None):
    return ndarray(fill(shape, 0))
def empty(shape, dtype=None):
    return ndarray(fill(shape, 0))
def ones(shape, dtype=None):
    return ndarray(fill(shape, 1))
def full(shape, v, dtype=None):
    return ndarray(fill(shape, v))
def identity(n, dtype=None):
    return ndarray([[1 if i == j else 0 for j in range(n)] for i in range(n)])
eye = identity
def copy(x):
    return array(x)
def shape(x):
    return array(x).shape
def transpose(x):
    return array(x).T
def diag(x):
    x = array(x)
    if x.ndim == 2:
        return ndarray([x.rows[k][k] for k in range(len(x.rows))])
    n = len(x.rows)
    return ndarray([[x.rows[i] if i == j else 0 for j in range(n)] for i in range(n)])
def dot(a, b):
    if not isinstance(a, (ndarray, list, tuple)) or not isinstance(b, (ndarray, list, tuple)):
        return multiply(a, b)
    a, b = array(a), array(b)
    if a.ndim == 2 and b.ndim == 2:
        if len(a.rows[0]) != len(b.rows):
            raise ValueError("shapes")
        return ndarray([[total([r[k] * b.rows[k][j] for k in range(len(r))]) for j in range(len(b.rows[0]))] for r in a.rows])
    if a.ndim == 2:
        return ndarray([total([r[k] * b.rows[k] for k in range(len(r))]) for r in a.rows])
    if b.ndim == 2:
        return ndarray([total([a.rows[k] * b.rows[k][j] for k in range(len(a.rows))]) for j in range(len(b.rows[0]))])
    return total([x * y for x, y in zip(a.rows, b.rows)])
matmul = dot
def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s
def outer(a, b):
    return ndarray([[x * y for y in full_list(b)] for x in full_list(a)])
def divide(a, b):
    return ndarray(both(lambda x, y: x / y, a, b)) if isinstance(a, (ndarray, list)) or isinstance(b, (ndarray, list)) else a / b
def multiply(a, b):
    return ndarray(both(lambda x, y: x * y, a, b)) if isinstance(a, (ndarray, list)) or isinstance(b, (ndarray, list)) else a * b
def add(a, b):
    return ndarray(both(lambda x, y: x + y, a, b)) if isinstance(a, (ndarray, list)) or isinstance(b, (ndarray, list)) else a + b
def subtract(a, b):
    return ndarray(both(lambda x, y: x - y, a, b)) if isinstance(a, (ndarray, list)) or isinstance(b, (ndarray, list)) else a - b
def log(x):
    return ndarray(each(logarithm, x.rows)) if isinstance(x, ndarray) else logarithm(x)
def delete(a, k, axis=None):
    a = array(a)
    ks = pick(k, 0) if not isinstance(k, int) else [k]
    if axis == 1:
        return ndarray([[r[j] for j in range(len(r)) if j not in ks] for r in a.rows])
    return ndarray([r for j, r in enumerate(a.rows) if j not in ks])
def concatenate(xs, axis=0):
    if axis == 1:
        ys = [full_list(x) for x in xs]
        return ndarray([[v for y in ys for v in y[k]] for k in range(len(ys[0]))])
    return ndarray([r for x in xs for r in full_list(x)])
def hstack(xs):
    return concatenate(xs, 1 if array(xs[0]).ndim == 2 else 0)
def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs])
def column_stack(xs):
    return concatenate([x if array(x).ndim == 2 else ndarray([[v] for v in full_list(x)]) for x in xs], 1)
def atleast_1d(x):
    return array(x) if isinstance(x, (ndarray, list, tuple)) else ndarray([x])
def atleast_2d(x):
    x = atleast_1d(x)
    return x if x.ndim == 2 else ndarray([x.rows])
def zeros_like(x, dtype=None):
    return ndarray(each(lambda y: 0, array(x).rows))
def ones_like(x, dtype=None):
    return ndarray(each(lambda y: 1, array(x).rows))
empty_like = zeros_like
def arange(*a):
    return ndarray(list(range(*a)))
def ravel(x):
    return ndarray(full_flat(array(x)))
def append(a, v):
    return ndarray(full_flat(array(a)) + (full_flat(array(v)) if isinstance(v, (ndarray, list, tuple)) else [v]))
def take(a, k, axis=0):
    return array(a)[list(k)] if axis == 0 else array(a)[:, list(k)]
def square(x):
    return x ** 2
def power(x, k):
    return x ** k
def conjugate(x):
    return array(x).conj()
conj = conjugate
def block(xs):
    rows = []
    for band in xs:
        ys = [full_list(x) for x in band]
        rows = rows + [[v for y in ys for v in y[k]] for k in range(len(ys[0]))]
    return ndarray(rows)
def ix_(a, b):
    return (Open(a), Open(b))
def same_(x, y):
    """values that are not identical are taken to differ"""
    return zero(x - y)
def nonzero_(x):
    return x if isinstance(x, bool) else not zero(x)
def count_nonzero(a):
    return len([x for x in full_flat(array(a)) if nonzero_(x)])
def allclose(a, b, rtol=0, atol=0):
    return array(a).shape == array(b).shape
def real(x):
    return x.real
def imag(x):
    return x.imag
def insert(a, k, v, axis=0):
    a = array(a)
    if axis == 1:
        return ndarray([r[:k] + [v] + r[k:] for r in a.rows])
    return ndarray(a.rows[:k] + [[v for x in a.rows[0]]] + a.rows[k:])
def fill_diagonal(a, v):
    for k in range(len(a.rows)):
        a.rows[k][k] = v
def sqrt(x):
    return x ** 0.5
def all(a, axis=None, where=True):
    a = array(a)
    if axis is None:
        return conj_(full_flat(a))
    if axis == 1:
        return ndarray([conj_(r) for r in a.rows])
    return ndarray([conj_([r[k] for r in a.rows]) for k in range(len(a.rows[0]))])
def any(a, axis=None):
    return ~all(~array(a), axis)
def sum(a, axis=None):
    a = array(a)
    if axis is None or a.ndim == 1:
        return total(full_flat(a))
    if axis == 1:
        return ndarray([total(r) for r in a.rows])
    return ndarray([total([r[k] for r in a.rows]) for k in range(len(a.rows[0]))])
def reshape(x, *shape):
    if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
        shape = shape[0]
    vs = full_flat(array(x))
    if len(shape) == 1:
        return ndarray(vs)
    n = shape[0] if shape[0] != -1 else len(vs) // shape[1]
    m = shape[1] if shape[1] != -1 else len(vs) // shape[0]
    return ndarray([[vs[i * m + j] for j in range(m)] for i in range(n)])
def full_flat(a):
    return [x for r in a.rows for x in r] if a.ndim == 2 else a.rows
def conj_(xs):
    for x in xs:
        if not nonzero_(x):
            return False
    return True
