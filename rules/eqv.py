"""Equality of abstract values by random interpretation.

Global value numbering by canonical forms is incomplete for non-linear and piecewise
terms.  Two value numbers that are not syntactically equal are compared under random
interpretations of their atoms (Gulwani and Necula, POPL 2003): uninterpreted symbols get
random values that only depend on their (interpreted) arguments, arithmetic keeps its
meaning.  Terms that differ under an interpretation satisfying the path facts are
different abstract values; terms that agree under all of them are merged.
"""
import hashlib
import math
import struct
from engine.terms import *
from engine.absint import is_int, is_unsigned, is_float, is_ptr, is_smart


class Undefined(Exception):
    pass


def _h(*parts):
    d = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return struct.unpack('<Q', d)[0]


def _q(v):
    """quantised value used as a key of uninterpreted functions"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int,)):
        return v
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return repr(v)
        if abs(v) < 1e-9:
            return 0
        if abs(v - round(v)) < 1e-9 * max(1, abs(v)):
            return int(round(v))
        return float('%.9g' % v)
    return v


class Interpretation:
    def __init__(self, seed, types=None, ranges=None):
        self.seed = seed
        self.types = types or {}
        self.ranges = ranges or (lambda t: None)
        self.memo = {}
        self.bv = {}
        self.touched = None

    def atom(self, key, t):
        h = _h(self.seed, key)
        u = (h >> 11) / float(1 << 53)
        r = self.ranges(t)
        if callable(r):
            r = r(self, u)
            if not isinstance(r, tuple):
                return r
        if r is not None:
            lo, hi, integer = r
            if integer:
                return lo + int(u * (hi - lo + 1))
            return lo + u * (hi - lo)
        ty = self.types.get(t)
        if t[0] == 'call' and str(t[1]).split('::')[-1] in ('size', 'num_elements', 'rows', 'cols', 'shape', 'length', 'count'):
            return int(u * 5)
        if t[0] in ('it', 'itx'):
            return int(u * 4)
        if ty:
            if ty == 'bool':
                return int(u * 2)
            if is_unsigned(ty):
                return int(u * 7)
            if is_int(ty):
                return int(u * 11) - 3
            if is_ptr(ty) or is_smart(ty) or 'iterator' in ty:
                return 0 if u < 0.2 else int(u * 1000003)
        return (u - 0.35) * 6

    def go(self, t):
        if t in self.memo and not self.bv:
            return self.memo[t]
        v = self.ev(t)
        if isinstance(v, float) and v != v and t[0] != 'nan':
            raise Undefined
        if not self.bv:
            self.memo[t] = v
        return v

    def key(self, x):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            return self.lockey(x)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def lockey(self, t):
        if t[0] in ('n', 'poly', 'cmp', 'and', 'or', 'not', 'ite', 'f', 'bv', 'SUM', 'it', 'call', 'init', 'trunc', 'mod', 'idiv', 'bop', 'u'):
            return _q(self.go(t))
        if t[0] in ('p', 's', 'this', 'void'):
            return t
        return (t[0],) + tuple(self.key(y) for y in t[1:])

    def ev(self, t):
        k = t[0]
        if self.touched is not None:
            h = head(t)
            if h:
                self.touched.add(h)
        if k == 'n':
            return float(t[1]) if t[1].denominator != 1 else int(t[1])
        if k == 'bv':
            if t in self.bv:
                return self.bv[t]
            return self.atom(t, t)
        if k == 'poly':
            acc = 0
            for m, c in t[1]:
                y = float(c) if c.denominator != 1 else int(c)
                for a, e in m:
                    b = self.go(a)
                    if isinstance(b, tuple):
                        raise Undefined
                    if e < 0:
                        if b == 0:
                            raise Undefined
                        y = y * (float(b) ** e)
                    else:
                        y = y * b ** e
                acc = acc + y
            return acc
        if k == 'cmp':
            v = self.go(t[2])
            if not t[3] and abs(v) < 1e-9 and v != 0:
                v = 0
            return int({'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[t[1]])
        if k == 'and':
            return int(all(self.go(x) for x in t[1]))
        if k == 'or':
            return int(any(self.go(x) for x in t[1]))
        if k == 'not':
            return int(not self.go(t[1]))
        if k == 'ite':
            return self.go(t[2]) if self.go(t[1]) else self.go(t[3])
        if k == 'trunc':
            return int(self.go(t[1])) if len(t) == 2 else int(self.go(t[-1]))
        if k == 'u':
            return self.go(t[1])
        if k in ('idiv', 'mod') and len(t) == 3:
            a, b = self.go(t[1]), self.go(t[2])
            if b == 0 or a != int(a) or b != int(b):
                raise Undefined
            q = abs(int(a)) // abs(int(b)) * (1 if (a >= 0) == (b > 0) else -1)
            return q if k == 'idiv' else int(a) - q * int(b)
        if k == 'mm':
            y = 1
            for x in t[1]:
                y = y * self.go(x)
            return y
        if k == 'sub' and t[1][0] == 'mm' and t[2] == 'idx' and all(x == ('n', 0) for x in t[3:]):
            return self.go(t[1])
        if k == 'call' and str(t[1]).startswith('Eigen::') and len(t[2]) in (1, 2):
            # the one dimensional interpretation of matrix algebra
            n = t[1][7:]
            if n in ('transpose', 'eval', 'determinant', 'trace', 'adjoint', 'noalias', 'matrix', 'array', 'value'):
                return self.go(t[2][0])
            if n == 'inverse':
                v = self.go(t[2][0])
                if v == 0:
                    raise Undefined
                return 1.0 / v
            if n == 'squaredNorm':
                return self.go(t[2][0]) ** 2
            if n == 'norm':
                return abs(self.go(t[2][0]))
            if n == 'dot':
                return self.go(t[2][0]) * self.go(t[2][1])
        if k == 'f' and t[1] == 'isnan' and len(t[2]) == 1:
            try:
                v = self.go(t[2][0])
            except Undefined:
                return 1
            return 0
        if k == 'f':
            a = [self.go(x) for x in t[2]]
            try:
                return self.fun(t[1], a, t)
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Undefined
        if k == 'SUM':
            n = self.go(t[1])
            if n > 60:
                raise Undefined
            acc = 0
            saved = dict(self.bv)
            for i in range(int(n)):
                self.bv = dict(saved)
                self.bv[t[3]] = i
                acc = acc + self.go(t[2])
            self.bv = saved
            return acc
        key = (k,) + tuple(self.key(y) for y in t[1:])
        return self.atom(key, t)

    def fun(self, n, a, t):
        one = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'abs': abs, 'floor': math.floor, 'ceil': math.ceil,
               'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'acos': math.acos, 'asin': math.asin,
               'trunc': math.trunc, 'round': lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), 'lround': lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1)}
        if n in one and len(a) == 1:
            return one[n](a[0])
        if n == 'pow':
            return a[0] ** a[1] if not (a[0] < 0 and a[1] != int(a[1])) else self._und()
        if n == 'atan2':
            return math.atan2(a[0], a[1])
        if n == 'hypot':
            return math.sqrt(sum(x * x for x in a))
        if n == 'fmod':
            return math.fmod(a[0], a[1])
        if n == 'max':
            return max(a)
        if n == 'min':
            return min(a)
        if n == 'isnan':
            return 0
        if n in ('isfinite', 'isnormal'):
            return 1
        if n == 'isinf':
            return 0
        return self.atom(('f', n) + tuple(_q(x) for x in a), t)

    def _und(self):
        raise Undefined


def near(a, b):
    if a == b:
        return True
    try:
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def samples(types, facts, ranges=None, want=24, tries=4000):
    """interpretations satisfying the facts"""
    got = 0
    for seed in range(tries):
        it = Interpretation(seed, types, ranges)
        try:
            if all(it.go(f) for f in facts):
                got += 1
                yield it
                if got >= want:
                    return
        except Undefined:
            continue


def equal(I, a, b, facts=(), ranges=None):
    """True / False / None (no interpretation satisfies the facts)"""
    if a == b:
        return True
    n = 0
    for it in samples(I.types, facts, ranges):
        try:
            x, y = it.go(a), it.go(b)
        except Undefined:
            continue
        n += 1
        if not near(x, y):
            return False
    return True if n >= 4 else None


def witness(I, goal, facts=(), ranges=None, tries=6000):
    """an interpretation that satisfies the facts and refutes the goal, or None"""
    for it in samples(I.types, facts, ranges, want=400, tries=tries):
        try:
            if not it.go(goal):
                return it
        except Undefined:
            continue
    return None


KNOWN_F = {'sqrt', 'exp', 'log', 'abs', 'floor', 'ceil', 'sin', 'cos', 'tan', 'atan', 'acos', 'asin', 'trunc', 'round', 'lround', 'pow',
           'atan2', 'hypot', 'fmod', 'max', 'min', 'isnan', 'isfinite', 'isnormal', 'isinf'}
KNOWN_E = {'transpose', 'eval', 'determinant', 'trace', 'adjoint', 'noalias', 'matrix', 'array', 'value', 'inverse', 'squaredNorm', 'norm', 'dot'}
OPAQUE = ('SUM?', 'last', 'lv', 'post', 'lvc', 'out', 'uninit', 'mut', 'sum', 'HOLE', 'view', 'heapval', 'obj')


def head(x):
    if x[0] == 'call' and not (str(x[1]).startswith('Eigen::') and x[1][7:] in KNOWN_E):
        return ('call', x[1])
    if x[0] == 'f' and x[1] not in KNOWN_F:
        return ('f', x[1])
    if x[0] in OPAQUE:
        return (x[0],)
    return None


def heads(t):
    out = set()

    def p(x):
        h = head(x)
        if h:
            out.add(h)
        return False
    contains(t, p)
    return out


def foreign(val, spec):
    """symbols of val the specification says nothing about (no verdict on a difference then)"""
    return heads(val) - heads(spec) - {('call', 'size')}


def decide(I, val, spec, facts=(), ranges=None):
    """True / False / None: a difference only counts when the differing value was computed from understood symbols"""
    if val is None:
        return None
    if val == spec:
        return True
    n, vague = 0, False
    known = heads(spec) | {('call', 'size')}
    for it in samples(I.types, facts, ranges):
        try:
            x, y = it.go(val), it.go(spec)
        except Undefined:
            continue
        n += 1
        if not near(x, y):
            it2 = Interpretation(it.seed, it.types, it.ranges)
            it2.touched = set()
            try:
                it2.go(val)
            except Undefined:
                pass
            if it2.touched - known:
                vague = True
                continue
            return False
    if vague:
        return None
    return True if n >= 4 else None


def possible(I, facts, ranges=None):
    return any(True for _ in samples(I.types, facts, ranges, want=1, tries=1500))
