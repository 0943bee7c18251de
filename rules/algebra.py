"""Algebraic meaning of matrix expressions: truncated power series, rotations, rigid transforms.

Expressions extracted from the source are evaluated in the ring of matrices over Q[[e]] at a generic one parameter
family (rotations with angles proportional to e), so that two expressions are compared coefficient by coefficient.
"""
from fractions import Fraction as Fr
from math import isqrt
from .worlds import Lost

K = 10        # coefficients kept
CMP = 7       # coefficients compared (divisions by the angle lose some of the last ones)


class Ser:
    __slots__ = ('c',)

    def __init__(self, c):
        c = list(c)[:K]
        self.c = tuple(c + [Fr(0)] * (K - len(c)))

    def __add__(self, o):
        o = ser(o)
        return Ser([a + b for a, b in zip(self.c, o.c)])

    def __neg__(self):
        return Ser([-a for a in self.c])

    def __sub__(self, o):
        return self + (-ser(o))

    def __mul__(self, o):
        o = ser(o)
        r = [Fr(0)] * K
        for i, a in enumerate(self.c):
            if a:
                for j in range(K - i):
                    if o.c[j]:
                        r[i + j] += a * o.c[j]
        return Ser(r)

    def val(self):
        for i, a in enumerate(self.c):
            if a:
                return i
        return K

    def shift(self, n):
        """times e^n"""
        if n >= 0:
            return Ser((Fr(0),) * n + self.c)
        return Ser(self.c[-n:])

    def inv(self):
        v = self.val()
        if v:
            raise Lost('division by a value that vanishes')
        r = [1 / self.c[0]]
        for n in range(1, K):
            r.append(-sum(self.c[k] * r[n - k] for k in range(1, n + 1)) / self.c[0])
        return Ser(r)

    def __truediv__(self, o):
        o = ser(o)
        v = o.val()
        if v > self.val() or v == K:
            raise Lost('division by a value that vanishes')
        return self.shift(-v) * o.shift(-v).inv()

    def sqrt(self):
        v = self.val()
        if v == K:
            return Ser([])
        if v % 2:
            raise Lost('square root of an odd power')
        s = self.shift(-v)
        a = s.c[0]
        n, d = isqrt(abs(a.numerator)), isqrt(a.denominator)
        if a < 0 or n * n != a.numerator or d * d != a.denominator:
            raise Lost('irrational root')
        r = [Fr(n, d)]
        for k in range(1, K):
            r.append((s.c[k] - sum(r[i] * r[k - i] for i in range(1, k))) / (2 * r[0]))
        return Ser(r).shift(v // 2)

    def sign(self):
        v = self.val()
        return 0 if v == K else 1 if self.c[v] > 0 else -1

    def same(self, o):
        return self.c[:CMP] == ser(o).c[:CMP]

    def __repr__(self):
        return ' + '.join('%s e^%d' % (c, i) for i, c in enumerate(self.c[:CMP]) if c) or '0'


def ser(x):
    return x if isinstance(x, Ser) else Ser([Fr(x)])


def power(cs):
    """the power series with the coefficients cs(k)"""
    return lambda x: sum_((ser(cs(k)) * pw for k, pw in enumerate(powers(x)) if cs(k)))


def powers(x):
    p = ser(1)
    for _ in range(K):
        yield p
        p = p * x


def sum_(xs):
    r = ser(0)
    for x in xs:
        r = r + x
    return r


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


cos = power(lambda k: Fr((-1) ** (k // 2), fact(k)) if k % 2 == 0 else 0)
sin = power(lambda k: Fr((-1) ** (k // 2), fact(k)) if k % 2 else 0)
atan = power(lambda k: Fr((-1) ** (k // 2), k) if k % 2 else 0)


class Mat:
    def __init__(self, rows):
        self.r = [[ser(x) for x in row] for row in rows]
        self.dims = (len(self.r), len(self.r[0]))

    def map(self, f):
        return Mat([[f(x) for x in row] for row in self.r])

    def __add__(self, o):
        o = mat(o, self.dims)
        if o.dims != self.dims:
            raise Lost('sum of %s and %s' % (self.dims, o.dims))
        return Mat([[a + b for a, b in zip(x, y)] for x, y in zip(self.r, o.r)])

    def __neg__(self):
        return self.map(lambda x: -x)

    def __sub__(self, o):
        return self + (-mat(o, self.dims))

    def __mul__(self, o):
        if isinstance(o, (Ser, int, Fr)):
            return self.map(lambda x: x * o)
        o = mat(o)
        if self.dims[1] != o.dims[0]:
            raise Lost('product of %s and %s' % (self.dims, o.dims))
        return Mat([[sum_(row[k] * o.r[k][j] for k in range(o.dims[0])) for j in range(o.dims[1])] for row in self.r])

    def T(self):
        return Mat([list(c) for c in zip(*self.r)])

    def block(self, i, j, h, w):
        return Mat([row[j:j + w] for row in self.r[i:i + h]])

    def inverse(self):
        n = self.dims[0]
        a = [list(self.r[i]) + [ser(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((i for i in range(c, n) if a[i][c].val() == 0), None)
            if p is None:
                raise Lost('inverse of a singular matrix')
            a[c], a[p] = a[p], a[c]
            iv = a[c][c].inv()
            a[c] = [x * iv for x in a[c]]
            for i in range(n):
                if i != c and a[i][c].val() < K:
                    f = a[i][c]
                    a[i] = [x - f * y for x, y in zip(a[i], a[c])]
        return Mat([row[n:] for row in a])

    def same(self, o):
        o = mat(o, self.dims)
        return o.dims == self.dims and all(a.same(b) for x, y in zip(self.r, o.r) for a, b in zip(x, y))

    def diff(self, o):
        o = mat(o, self.dims)
        for i, (x, y) in enumerate(zip(self.r, o.r)):
            for j, (a, b) in enumerate(zip(x, y)):
                if not a.same(b):
                    k = next(k for k in range(CMP) if a.c[k] != b.c[k])
                    return 'entry (%d,%d) differs at order %d of the rotation' % (i, j, k)
        return 'nothing'


def eye(n):
    return Mat([[int(i == j) for j in range(n)] for i in range(n)])


def zero(h, w):
    return Mat([[0] * w for _ in range(h)])


def skew(v):
    x, y, z = [r[0] for r in v.r]
    return Mat([[0, -z, y], [z, 0, -x], [-y, x, 0]])


class Rot:
    """a rotation, by its quaternion (w, x, y, z)"""

    def __init__(self, q):
        self.q = tuple(ser(x) for x in q)
        self._m = None

    @property
    def m(self):
        if self._m is None:
            w, x, y, z = self.q
            self._m = Mat([[1 - (y * y + z * z) * 2 if 0 else ser(1) - (y * y + z * z) * 2, (x * y - z * w) * 2, (x * z + y * w) * 2],
                           [(x * y + z * w) * 2, ser(1) - (x * x + z * z) * 2, (y * z - x * w) * 2],
                           [(x * z - y * w) * 2, (y * z + x * w) * 2, ser(1) - (x * x + y * y) * 2]])
        return self._m

    def inverse(self):
        w, x, y, z = self.q
        return Rot((w, -x, -y, -z))

    def __mul__(self, o):
        if not isinstance(o, Rot):
            return self.m * mat(o)
        a, b, c, d = self.q
        e, f, g, h = o.q
        return Rot((a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e))

    def vec(self):
        return Mat([[x] for x in self.q[1:]])

    def norm(self):
        v = self.vec()
        return (v.T() * v).r[0][0].sqrt()

    def angle(self):
        n, w = self.norm(), self.q[0]
        s = w.sign()
        if n.val() == 0 < K and w.val() == 0:
            return (n / (w * s)) * 2       # a fixed rotation: any number that stands for its angle
        return atan(n / (w * s)) * 2

    def axis(self):
        n = self.norm()
        s = self.q[0].sign()
        return self.vec().map(lambda x: x * s / n)

    def scaled_axis(self):
        return self.axis() * self.angle()


def rotation(r, scale=1):
    """the rotation with the scaled axis e * scale * r / |r| (|r| an integer)"""
    n2 = sum(x * x for x in r)
    n = isqrt(n2)
    assert n * n == n2
    h = Ser([0, Fr(n * scale, 2)])
    s = sin(h)
    return Rot((cos(h),) + tuple(s * Fr(x, n) for x in r))


def turn(r, c):
    """a fixed rotation about r with the cosine c of half of its angle (|r| and the sine rational)"""
    n = isqrt(sum(x * x for x in r))
    s2 = 1 - Fr(c) ** 2
    s = Fr(isqrt(s2.numerator), isqrt(s2.denominator))
    assert s * s == s2 and n * n == sum(x * x for x in r)
    return Rot((c,) + tuple(s * Fr(x, n) for x in r))


class Aff:
    """rigid transform"""

    def __init__(self, R, t):
        self.R, self.t = R, t

    def __mul__(self, o):
        if isinstance(o, Aff):
            return Aff(self.R * o.R, self.R * o.t + self.t)
        return self.R * mat(o) + self.t

    def inverse(self):
        Ri = self.R.inverse()
        return Aff(Ri, -(Ri * self.t))

    def same(self, o):
        return self.R.m.same(o.R.m) and self.t.same(o.t)


def mat(x, dims=None):
    if isinstance(x, Mat):
        return x
    if isinstance(x, Rot):
        return x.m
    if isinstance(x, (int, Fr, Ser)):
        s = ser(x)
        if s.val() == K and dims:
            return zero(*dims)
        if dims == (1, 1) or dims is None:
            return Mat([[s]])
    raise Lost('no matrix')


# ------------------------------------------------------------ terms
from engine.absint import eigen_dims, template_args      # noqa: E402


class Algebra:
    """meaning of terms; leaf(self, t) interprets parameters and members"""

    def __init__(self, leaf):
        self.leaf, self.memo = leaf, {}

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.leaf(self, t)
        if r is None:
            r = self.term(t)
        self.memo[t] = r
        return r

    def scalar(self, t):
        v = self.ev(t)
        if isinstance(v, Mat) and v.dims == (1, 1):
            v = v.r[0][0]
        if isinstance(v, (int, Fr, Ser)):
            return ser(v)
        raise Lost('no number')

    def view(self, v, acc):
        if acc[0] == 'n':
            i = int(acc[1])
            if isinstance(v, Rot):
                return v.q[(i + 1) % 4]        # x y z w
            v = mat(v)
            if v.dims[1] == 1:
                return v.r[i][0]
            if v.dims[0] == 1:
                return v.r[0][i]
            raise Lost('element of a matrix')
        if acc[0] == 'view':
            n, a = acc[1], acc[2:]
            if n == 'vec' and isinstance(v, Rot):
                return v.vec()
            if isinstance(v, Aff) and n in ('linear', 'rotation'):
                return v.R
            if isinstance(v, Aff) and n == 'translation':
                return v.t
            if isinstance(v, Mat) and all(x[0] == 'n' for x in a):
                a = [int(x[1]) for x in a]
                h, w = v.dims
                if n == 'block' and len(a) == 4:
                    return v.block(*a)
                if n == 'topLeftCorner' and len(a) == 2:
                    return v.block(0, 0, *a)
                if n == 'bottomRightCorner' and len(a) == 2:
                    return v.block(h - a[0], w - a[1], *a)
                if n == 'topRightCorner' and len(a) == 2:
                    return v.block(0, w - a[1], *a)
                if n == 'bottomLeftCorner' and len(a) == 2:
                    return v.block(h - a[0], 0, *a)
                if n == 'matrix' and not a:
                    return v
        if isinstance(v, Mat) and acc[0] != 'view':
            raise Lost('symbolic element')
        raise Lost('view ' + str(acc)[:40])

    def term(self, t):
        from engine.terms import show
        k = t[0]
        if k == 'n':
            return ser(t[1])
        if k == 'init':
            l = t[1]
            if l[0] == 'idx':
                if len(l) == 4 and l[2][0] == 'n' and l[3][0] == 'n':
                    m = mat(self.ev(('init', l[1])))
                    return m.r[int(l[2][1])][int(l[3][1])]
                return self.view(self.ev(('init', l[1])), l[2])
            if l[0] == 'mref' and not l[3]:
                return self.method(l[1], self.ev(('init', l[2])), ())
            raise Lost('no meaning for ' + show(t)[:60])
        if k == 'sub' and t[2] == 'idx':
            if len(t) == 5 and t[3][0] == 'n' and t[4][0] == 'n':
                return mat(self.ev(t[1])).r[int(t[3][1])][int(t[4][1])]
            return self.view(self.ev(t[1]), t[3])
        if k == 'poly':
            acc = None
            for m, c in t[1]:
                s, x = ser(c), None
                for a, e in m:
                    v = self.ev(a)
                    if isinstance(v, Mat) and v.dims == (1, 1):
                        v = v.r[0][0]
                    if isinstance(v, (Ser, int, Fr)):
                        for _ in range(abs(e)):
                            s = s * v if e > 0 else s / v
                    elif x is not None or e != 1:
                        raise Lost('order of factors in ' + show(a)[:40])
                    else:
                        x = v if isinstance(v, Mat) else mat(v)
                y = x * s if x is not None else s
                if acc is None:
                    acc = y
                elif isinstance(acc, Mat) or isinstance(y, Mat):
                    d = acc.dims if isinstance(acc, Mat) else y.dims
                    acc = mat(acc, d) + mat(y, d)
                else:
                    acc = acc + y
            return acc if acc is not None else ser(0)
        if k == 'mm':
            acc = None
            for x in t[1]:
                v = self.ev(x)
                if acc is None:
                    acc = v
                elif isinstance(acc, (Ser, int, Fr)):
                    acc = v * acc
                else:
                    acc = acc * v
            return acc
        if k == 'call':
            n = t[1].split('::')[-1] if not t[1].endswith('>') else template_args(t[1])[0].split('::')[-1]
            if n in ('Identity', 'Zero') and not t[2]:
                a = template_args(t[1].rsplit('::', 1)[0])[1]
                if 'Transform<' in t[1]:
                    return Aff(Rot((1, 0, 0, 0)), zero(3, 1))
                if 'Quaternion' in t[1]:
                    return Rot((1, 0, 0, 0))
                d = eigen_dims(a[0]) if a else None
                d = d or eigen_dims(t[1].rsplit('::', 1)[0])
                if d:
                    return eye(d[0]) if n == 'Identity' else zero(*d)
            elif t[2]:
                if n in ('sqrt', 'fabs', 'abs', 'cos', 'sin') and len(t[2]) == 1:
                    x = self.scalar(t[2][0])
                    return {'sqrt': x.sqrt, 'fabs': lambda: x * x.sign(), 'abs': lambda: x * x.sign(), 'cos': lambda: cos(x), 'sin': lambda: sin(x)}[n]()
                return self.method(n, self.ev(t[2][0]), tuple(t[2][1:]))
        if k == 'f' and t[1] in ('sqrt', 'abs', 'fabs', 'cos', 'sin'):
            a = t[2] if isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple) else (t[2],)
            x = self.scalar(a[0])
            return {'sqrt': x.sqrt, 'fabs': lambda: x * x.sign(), 'abs': lambda: x * x.sign(), 'cos': lambda: cos(x), 'sin': lambda: sin(x)}[t[1]]()
        if k == 'mut' and t[1] in ('setZero', 'setIdentity') and not t[3]:
            try:
                d = mat(self.ev(t[2])).dims
            except Lost:
                return ser(0) if t[1] == 'setZero' else self.method(t[1], None, ())
            return zero(*d) if t[1] == 'setZero' else eye(d[0])
        if k == 'ite':
            return self.ev(t[2]) if self.cond(t[1]) else self.ev(t[3])
        if k in ('cmp', 'and', 'or', 'not'):
            return ser(int(self.cond(t)))
        if k == 'commainit':
            return self.fill(t)
        if k == 'upd':
            if all(p[0] == 'idx' for p, _ in t[2]):
                return self.assign(t)
            return self.struct(t)
        raise Lost('no meaning for ' + show(t)[:80])

    def struct(self, t):
        raise Lost('structure')

    def assign(self, t):
        """a matrix with some blocks or elements overwritten"""
        base = self.ev(t[1])
        if not isinstance(base, Mat):
            base = mat(base, (6, 6) if any('Corner' in str(p) for p, _ in t[2]) else None)
        rows = [list(r) for r in base.r]
        for p, v in t[2]:
            h, w = base.dims
            acc = p[1:]
            if len(acc) == 1 and acc[0][0] == 'view' and all(x[0] == 'n' for x in acc[0][2:]):
                n, a = acc[0][1], [int(x[1]) for x in acc[0][2:]]
                if len(a) == 2 and n in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
                    i, j = (h - a[0] if 'bottom' in n else 0), (w - a[1] if 'Right' in n else 0)
                elif len(a) == 4 and n == 'block':
                    i, j, a = a[0], a[1], a[2:]
                else:
                    raise Lost('assignment to ' + n)
                b = mat(self.ev(v), tuple(a))
                if b.dims != tuple(a) or i < 0 or j < 0 or i + a[0] > h or j + a[1] > w:
                    raise Lost('block of another size')
                for x in range(a[0]):
                    for y in range(a[1]):
                        rows[i + x][j + y] = b.r[x][y]
            elif len(acc) == 2 and all(x[0] == 'n' for x in acc):
                rows[int(acc[0][1])][int(acc[1][1])] = self.scalar(v)
            else:
                raise Lost('assignment to an element')
        return Mat(rows)

    def cond(self, t):
        k = t[0]
        if k == 'cmp':
            s = self.scalar(t[2]).sign()
            return {'<': s < 0, '<=': s <= 0, '==': s == 0, '!=': s != 0}[t[1]]
        if k == 'and':
            return all(self.cond(x) for x in t[1])
        if k == 'or':
            return any(self.cond(x) for x in t[1])
        if k == 'not':
            return not self.cond(t[1])
        return self.scalar(t).sign() != 0

    def method(self, n, v, args):
        if n == 'transpose':
            return v.inverse() if isinstance(v, Rot) else mat(v).T()
        if n in ('adjoint',):
            return v.inverse() if isinstance(v, Rot) else mat(v).T()
        if n in ('inverse', 'conjugate') and isinstance(v, (Rot, Aff)):
            return v.inverse()
        if n == 'inverse':
            return mat(v).inverse()
        if n in ('eval', 'derived', 'matrix', 'array', 'toRotationMatrix', 'rotation', 'linear', 'real') and (n not in ('linear', 'rotation') or isinstance(v, Rot)):
            return v
        if n == 'vec' and isinstance(v, Rot):
            return v.vec()
        if n in ('norm', 'squaredNorm'):
            m = mat(v)
            s = sum_(x * x for row in m.r for x in row)
            return s.sqrt() if n == 'norm' else s
        if n == 'axis' and isinstance(v, Rot):
            return v.axis()
        if n == 'angle' and isinstance(v, Rot):
            return v.angle()
        if n == 'dot':
            o = mat(self.ev(args[0]))
            return sum_(a[0] * b[0] for a, b in zip(mat(v).r, o.r))
        if n == 'cross':
            return skew(mat(v)) * mat(self.ev(args[0]))
        if n == 'normalized' and isinstance(v, Rot):
            return v
        raise Lost('no meaning for ' + n)

    def fill(self, t):
        dims = t[3]
        if dims[0] is None or None in dims:
            raise Lost('matrix of unknown size')
        h, w = dims[0]
        out = [[None] * w for _ in range(h)]
        i = j = 0
        for b, d in zip(t[2], dims[1:]):
            v = self.ev(b)
            m = mat(v, d)
            if m.dims != d:
                raise Lost('block of another size')
            for a in range(d[0]):
                for c in range(d[1]):
                    if i + a >= h or j + c >= w:
                        raise Lost('matrix overfilled')
                    out[i + a][j + c] = m.r[a][c]
            j += d[1]
            if j >= w:
                i, j = i + d[0], 0
        if any(x is None for row in out for x in row):
            raise Lost('matrix not filled')
        return Mat(out)
