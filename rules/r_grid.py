"""Grids: coordinates of cells, cells of coordinates, extents; cells and bands of a grid; lines on a grid.

The summaries of the functions are evaluated on small grids with exact numbers: scales, offsets, points on the border of
cells and of the grid, points outside.
"""
from .lib import *
from .worlds import Lost
from .sim import product
from math import floor, ceil
import re

GB = 'envire::GridBase'


class Bad(Exception):
    """the summary has no defined value"""


class V(tuple):
    """an Eigen vector"""

    def op(self, o, f):
        if isinstance(o, V):
            if len(o) != len(self):
                raise Lost('sizes')
            return V(f(a, b) for a, b in zip(self, o))
        return V(f(a, o) for a in self)

    def __add__(self, o):
        return self.op(o, lambda a, b: a + b)

    def __mul__(self, o):
        return self.op(o, lambda a, b: a * b)
    __radd__, __rmul__ = __add__, __mul__

    def __pow__(self, e):
        return V(Fr(a) ** e for a in self)


class Box(tuple):
    """(min, max)"""


def num(v):
    if isinstance(v, (int, Fr, bool)):
        return v
    raise Lost('number expected')


class GE:
    """value of a term; `given` interprets parameters, members and calls"""

    def __init__(self, I, t, given):
        self.I, self.t, self.given = I, t, given

    def ev(self, t):
        k = t[0]
        if k == 'n':
            return t[1]
        r = self.given(self, t)
        if r is not None:
            return r
        if k == 'poly':
            acc = 0
            for m, c in t[1]:
                y = c
                for a, e in m:
                    v = self.ev(a)
                    if not isinstance(v, (int, Fr, bool, V)):
                        raise Lost('arithmetic on ' + show(t)[:60])
                    if e < 0 and v == 0:
                        raise Lost('division by 0')
                    y = y * (Fr(v) ** e if not isinstance(v, V) else v ** e)
                acc = acc + y
            return acc
        if k == 'mm':
            y = 1
            for x in t[1]:
                y = y * self.ev(x)
            return y
        if k == 'cmp':
            v = num(self.ev(t[2]))
            return int({'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[t[1]])
        if k in ('and', 'or'):
            # the operands are joined in the order of the source
            for x in t[1]:
                v = self.ev(x)
                if bool(v) == (k == 'or'):
                    return int(k == 'or')
            return int(k == 'and')
        if k == 'not':
            return int(not self.ev(t[1]))
        if k == 'ite':
            return self.ev(t[2]) if self.ev(t[1]) else self.ev(t[3])
        if k == 'trunc':
            v = num(self.ev(t[1]))
            if v <= -1 and is_unsigned(self.I.types.get(t, '')):
                raise Bad('converts the negative value %s to an unsigned type' % v)
            return int(v)
        if k == 'idiv' or k == 'mod':
            a, b = num(self.ev(t[1])), num(self.ev(t[2]))
            if b == 0:
                raise Bad('divides by 0')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if k == 'idiv' else a - q * b
        if k == 'f':
            a = [num(self.ev(x)) for x in t[2]]
            f = {'floor': lambda x: floor(x), 'ceil': lambda x: ceil(x), 'trunc': lambda x: int(x), 'fabs': abs, 'abs': abs, 'max': max, 'min': min,
                 'round': lambda x: (1 if x > 0 else -1) * floor(abs(x) + Fr(1, 2)), 'lround': lambda x: (1 if x > 0 else -1) * floor(abs(x) + Fr(1, 2)),
                 'rint': lambda x: round(x), 'isnan': lambda x: 0, 'isinf': lambda x: 0, 'isfinite': lambda x: 1,
                 'fmod': lambda a, b: a - int(Fr(a) / b) * b}.get(t[1])
            if f:
                return f(*a)
        if k == 'call':
            n = t[1].split('::')[-1]
            if n in ('cast', 'array', 'matrix', 'eval') and len(t[2]) == 1:
                return self.ev(t[2][0])
            if n in ('cwiseProduct', 'cwiseQuotient', 'dot') and len(t[2]) == 2:
                a, b = self.ev(t[2][0]), self.ev(t[2][1])
                if isinstance(a, V) != isinstance(b, V):      # Zero and Ones
                    a, b = [y if isinstance(y, V) else V(y for _ in (b if isinstance(b, V) else a)) for y in (a, b)]
                if isinstance(a, V) and isinstance(b, V) and len(a) == len(b):
                    return sum(x * y for x, y in zip(a, b)) if n == 'dot' else a * b if n == 'cwiseProduct' else V(Fr(x) / y for x, y in zip(a, b))
            if n == 'Ones' and not t[2]:
                return 1
            if n == 'Zero' and not t[2]:
                return 0
            if n in ('min', 'max') and len(t[2]) == 1 and isinstance(self.ev(t[2][0]), Box):
                return self.ev(t[2][0])[n == 'max']
        m = t[1] if k == 'init' else t
        if m[0] == 'mref' and m[1] in ('min', 'max') and not m[3]:
            v = self.ev(self.I.load(self.t.st, m[2]))
            if isinstance(v, Box):
                return v[m[1] == 'max']
        if k == 'mut' and t[1] in ('min', 'max') and not t[3]:
            return self.ev(t[2])        # corners handed out by reference, written under their own location
        if k == 'obj':
            a = [self.ev(x) for x in t[2]]
            if 'AlignedBox' in t[1] and len(a) == 2:
                return Box(a)
            if re.search(r'Eigen::(Matrix|Array|Translation)', t[1]):
                if len(a) == 1 and isinstance(a[0], V):
                    return a[0]
                return V(num(x) for x in a)
        if k == 'upd':
            try:
                v = self.ev(t[1])
            except Lost:
                v = None
            if t[1][0] == 'obj' and not t[1][2] or t[1][0] == 'uninit' or v is None:
                v = {}
            else:
                v = dict(enumerate(v))
            for p, x in t[2]:
                p = p[0] if isinstance(p[0], tuple) else p
                if p[0] != 'idx' or len(p) != 2 and any(y != ZERO for y in p[2:]):
                    raise Lost('update of ' + show(t)[:50])
                v[num(self.ev(p[1]))] = self.ev(x)
            if sorted(v) != list(range(len(v))):
                raise Lost('part of a vector')
            return V(v[i] for i in sorted(v))
        if k == 'sub' and t[2] == 'idx' or k == 'init' and t[1][0] == 'idx':
            base = self.ev(t[1] if k == 'sub' else ('init', t[1][1]))
            i = num(self.ev(t[3] if k == 'sub' else t[1][2]))
            if not isinstance(base, V) or not 0 <= i < len(base):
                raise Lost('element of ' + show(t)[:50])
            return base[int(i)]
        raise Lost('no meaning for ' + show(t)[:80])


def table(ctx, rid, fn, worlds, given, outs, want, opaque=(), what=None, describe=str, key=None):
    """result and outputs of fn on every world; want(x) -> (result, output...), None: not looked at, 'kept': not written"""
    name = what or bname(fn['q']) + fn['sig'].split(')')[0] + ')'
    key = (key or fn['q'] + fn['sig'])
    try:
        I, tr = run(ctx, fn, opaque=lambda q: q.split('::')[-1] in opaque)
    except AnalysisError as e:
        ctx.und(rid, loc_of(fn), '%s: %s' % (name, e))
        return
    n = 0
    for x in worlds:
        hit, lost, bad = None, None, None
        for t in tr:
            E = GE(I, t, lambda E, u: given(x, E, u))
            try:
                if not all(E.ev(f) for f in t.facts):
                    continue
                if t.out == 'throw':
                    hit = ('throw',)
                    break
                r = [E.ev(t.val) if t.val is not None and t.val != ('void',) and want(x)[0] is not None else None]
                for l in outs:
                    v = I.load(t.st, l)
                    if v == ('init', l):
                        r.append('kept')
                    else:
                        r.append(E.ev(v))
                hit = tuple(r)
                break
            except Lost as e:
                lost = str(e)
            except Bad as e:
                bad = str(e)
                break
        if bad:
            ctx.bad(rid, loc_of(fn), '%s: %s %s' % (name, describe(x), bad), key)
            return
        if hit is None:
            ctx.und(rid, loc_of(fn), '%s: %s' % (name, lost or 'no path for %s' % describe(x)))
            return
        w = want(x)
        n += 1
        if not same(w, hit):
            ctx.bad(rid, loc_of(fn), '%s: for %s expected %s, found %s' % (name, describe(x), shown(w), shown(hit)), key)
            return
    ctx.count('evaluated inputs', n)
    if n:
        ctx.ok(rid, loc_of(fn), '%s (%d inputs)' % (name, n))


def same(w, h):
    if w is None:
        return True
    if isinstance(w, tuple) and isinstance(h, tuple):
        return len(w) == len(h) and all(same(a, b) for a, b in zip(w, h))
    if isinstance(w, tuple) and isinstance(h, (int, Fr)):
        return all(same(a, h) for a in w)
    return w == h and isinstance(w, str) == isinstance(h, str)


def shown(x):
    if isinstance(x, tuple):
        return '(' + ', '.join(shown(y) for y in x) + ')'
    return '-' if x is None else str(x)


# ---------------------------------------------------------------------------- coordinates
GETTERS = ('getCellSizeX', 'getCellSizeY', 'getScaleX', 'getScaleY', 'getOffsetX', 'getOffsetY')
GRIDS = [dict(zip(GETTERS, g)) for g in ((3, 2, Fr(1, 2), Fr(2), Fr(-1), Fr(3, 4)), (2, 3, Fr(5, 4), Fr(1, 3), Fr(0), Fr(-7, 2)), (1, 1, Fr(1), Fr(1), Fr(0), Fr(0)), (4, 4, Fr(1, 10), Fr(3), Fr(10), Fr(-20)))]


def members(ctx):
    """the member behind each getter"""
    out = {}
    for g in GETTERS:
        f = fn1(ctx, '%s::%s' % (GB, g))
        I, tr = run(ctx, f)
        v = tr[0].val if len(tr) == 1 else None
        if not v or v[0] != 'init' or v[1][0] != 'field' or v[1][1] != THIS:
            raise AnalysisError('%s: %s does not return a member (anchor lost)' % (ctx.prop, g))
        if v[1] in out.values():
            ctx.bad('geometry', loc_of(f), '%s returns the same member as another getter' % g, f['q'])
        out[g] = v[1]
    return out


def overloads(ctx, q, *types):
    """functions of that name whose parameters match the patterns"""
    r = []
    for f in ctx.P.byname.get(q, []):
        if f.get('body') and not f.get('implicit') and len(f['params']) == len(types) and all(re.search(p, x['t']) for p, x in zip(types, f['params'])):
            r.append(f)
    return r


def geometry_of(N):
    inv = {('init', l): g for g, l in N.items()}

    def given(x, E, t):
        g = inv.get(t)
        return x[0][g] if g else None
    return given


def pts(g, m=1):
    """coordinates around the borders of every cell of a grid"""
    for ax in ('X', 'Y'):
        pass
    xs = axis(g['getCellSizeX'], g['getScaleX'], g['getOffsetX'], m)
    ys = axis(g['getCellSizeY'], g['getScaleY'], g['getOffsetY'], m)
    return [(x, y) for x in xs for y in ys]


def axis(n, s, o, m=1):
    r = []
    for i in range(-2, n * m + 2):
        if m > 1 and 1 < i < n * m - 2:
            continue
        r += [o + s * (i + f) / m for f in (Fr(0), Fr(1, 7), Fr(1, 2), Fr(6, 7))]
    return r


def cell(g, x, y, m=1):
    xi = floor((x - g['getOffsetX']) / g['getScaleX'] * m)
    yi = floor((y - g['getOffsetY']) / g['getScaleY'] * m)
    if 0 <= xi < g['getCellSizeX'] * m and 0 <= yi < g['getCellSizeY'] * m:
        return xi, yi
    return None


def centre(g, xi, yi):
    return ((xi + Fr(1, 2)) * g['getScaleX'] + g['getOffsetX'], (yi + Fr(1, 2)) * g['getScaleY'] + g['getOffsetY'])


TO = lambda p: V((p[0] - p[1] * 2 + 1, p[0] + p[1] + p[2], p[2] * 3))
FROM = lambda p: V((p[0] * 2 + p[1], p[1] - 1, p[2] + p[0]))


def frames(x, E, t):
    """conversion between the frame of the map and another one: some invertible function"""
    if t[0] == 'call' and t[1].split('::')[-1] in ('toMap', 'fromMap') and len(t[2]) == 3:
        if t[2][0] not in (('init', THIS), ('this',)) and t[2][0] != THIS:
            return None
        v = E.ev(t[2][1])
        if isinstance(v, V) and len(v) == 3:
            return (TO if t[1].endswith('::toMap') else FROM)(v)
    return None


def P_(fn, i):
    return ('p', fn['params'][i]['name'])


def D_(fn, i):
    return ('deref', P_(fn, i))


@units(r'^src/maps/(GridBase|Grids|ElevationGrid|TraversabilityGrid)', r'^src/tools/BresenhamLine')
def coordinates(ctx):
    P = ctx.P
    ctx.rule('geometry', 'the constructors, getters and derived sizes agree on cell count, scale and offset of a grid')
    ctx.rule('to-grid', 'toGrid yields floor((p-offset)/scale) and true for points of the grid, false and nothing else for all others')
    ctx.rule('from-grid', 'fromGrid yields the centre of the cell')
    ctx.rule('extents', 'the extents cover exactly the cells of the grid')
    ctx.rule('position', 'positions are compared by both indexes')
    N = members(ctx)
    base = geometry_of(N)
    seen = 0

    def desc(x):
        g = x[0]
        return '%sx%s cells of %sx%s at (%s,%s)%s' % (tuple(g[k] for k in GETTERS) + (''.join(', %s' % shown(v) for v in x[1:]),))

    # --- toGrid
    for f in overloads(ctx, GB + '::toGrid', '^double$', '^double$', 'long &', 'long &') + overloads(ctx, GB + '::toGrid', '^double$', '^double$', 'long &', 'long &', 'double &', 'double &'):
        seen += 1
        k = len(f['params'])

        def given(x, E, t, f=f):
            if t in (P_(f, 0), P_(f, 1)):
                return x[1][t == P_(f, 1)]
            return base(x, E, t)

        def want(x, k=k):
            c = cell(x[0], *x[1])
            if c is None:
                return (0,) + ('kept',) * (k - 2)
            m = tuple(x[1][i] - (c[i] * x[0]['getScale' + 'XY'[i]] + x[0]['getOffset' + 'XY'[i]]) for i in (0, 1))
            return (1,) + c + (m if k == 6 else ())
        table(ctx, 'to-grid', f, [(g, p) for g in GRIDS for p in pts(g)], given, [D_(f, i) for i in range(2, k)], want, describe=desc)
    for f in overloads(ctx, GB + '::toGrid', r'Matrix<double, 2', r'Position'):
        seen += 1

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return V(x[1])
            return base(x, E, t)

        def want(x):
            c = cell(x[0], *x[1])
            return (0, 'kept', 'kept') if c is None else (1,) + c
        table(ctx, 'to-grid', f, [(g, p) for g in GRIDS for p in pts(g)], given, [('field', D_(f, 1), a) for a in 'xy'], want, describe=desc)
    for f in overloads(ctx, GB + '::toGrid', r'Matrix<double, 3', 'long &', 'long &', 'FrameNode'):
        seen += 1

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return V(x[1])
            if t == P_(f, 3):
                return x[2]
            return frames(x, E, t) or base(x, E, t)

        def want(x):
            c = cell(x[0], *(TO(x[1]) if x[2] else x[1])[:2])
            return (0, 'kept', 'kept') if c is None else (1,) + c
        # points of the other frame that hit the interesting places of the map
        w = []
        for g in GRIDS:
            for p in pts(g):
                w.append((g, V(p + (Fr(3),)), 0))
                # a - 2b + 1 = p0, a + b + z = p1
                b = (p[1] - p[0] + 1 - 2) / 3
                a = p[0] + 2 * b - 1
                w.append((g, V((a, b, Fr(2))), 1))
        table(ctx, 'to-grid', f, w, given, [D_(f, 1), D_(f, 2)], want, opaque=('toMap', 'fromMap'), describe=desc)
    ctx.need(seen, 'overloads of toGrid', 4)
    for f in overloads(ctx, GB + '::toGridTimesX', '^double$', '^double$', 'long &', 'long &', '^int$') + overloads(ctx, GB + '::toGridTimesX', r'Matrix<double, 2', r'Position', '^int$'):
        k = len(f['params'])

        def given(x, E, t, f=f, k=k):
            if t == P_(f, k - 1):
                return x[2]
            if k == 5 and t in (P_(f, 0), P_(f, 1)):
                return x[1][t == P_(f, 1)]
            if k == 3 and t == ('init', D_(f, 0)):
                return V(x[1])
            return base(x, E, t)

        def want(x):
            c = cell(x[0], x[1][0], x[1][1], x[2])
            return (0, 'kept', 'kept') if c is None else (1,) + c
        table(ctx, 'to-grid', f, [(g, p, m) for g in GRIDS for m in (1, 3, 10) for p in pts(g, m)], given,
              [D_(f, 2), D_(f, 3)] if k == 5 else [('field', D_(f, 1), a) for a in 'xy'], want, describe=desc)

    # --- fromGrid
    cells = [(g, (i, j)) for g in GRIDS for i in range(g['getCellSizeX'] + 1) for j in range(g['getCellSizeY'] + 1)]
    seen = 0
    for f in P.byname.get(GB + '::fromGrid', []):
        if not f.get('body'):
            continue
        ts = [p['t'] for p in f['params']]
        if len(ts) == 4 and ts[2] == 'double &':
            outs, fr = [D_(f, 2), D_(f, 3)], None
        elif len(ts) == 3 and 'FrameNode' in ts[2]:
            outs, fr = [], 2
        elif len(ts) in (1, 2) and 'Position' in ts[0]:
            outs, fr = [('idx', D_(f, 1), N_(i)) for i in (0, 1)] if len(ts) == 2 else [], None
        else:
            continue
        seen += 1

        def given(x, E, t, f=f, ts=ts, fr=fr):
            if 'Position' in ts[0]:
                for i, a in enumerate('xy'):
                    if t == ('init', ('field', D_(f, 0), a)):
                        return x[1][i]
            elif t in (P_(f, 0), P_(f, 1)):
                return x[1][t == P_(f, 1)]
            if fr is not None and t == P_(f, fr):
                return x[2]
            return frames(x, E, t) or base(x, E, t)

        def want(x, outs=outs, fr=fr):
            c = centre(x[0], *x[1])
            if outs:
                return (None,) + c
            if fr is None:
                return (V(c),)
            c = V(c + (0,))
            return (FROM(c) if x[2] else c,)
        table(ctx, 'from-grid', f, [x + (y,) for x in cells for y in ((0, 1) if fr else (0,))], given, outs, want, opaque=('toMap', 'fromMap'), describe=desc)
    ctx.need(seen, 'overloads of fromGrid', 4)

    # --- extents and sizes
    def given1(x, E, t):
        return base(x, E, t)
    f = fn1(ctx, GB + '::getCellExtents')
    table(ctx, 'extents', f, [(g,) for g in GRIDS], given1, [], lambda x: (Box((V((0, 0)), V((x[0]['getCellSizeX'] - 1, x[0]['getCellSizeY'] - 1)))),), describe=desc)
    f = fn1(ctx, GB + '::getExtents')

    def given2(x, E, t):
        if t[0] == 'call' and t[1].endswith('::getCellExtents'):
            return Box((V(x[1][0]), V(x[1][1])))
        return base(x, E, t)

    def want2(x):
        g, (lo, hi) = x
        s, o = (g['getScaleX'], g['getScaleY']), (g['getOffsetX'], g['getOffsetY'])
        return (Box((V(o[i] + s[i] * lo[i] for i in (0, 1)), V(o[i] + s[i] * (hi[i] + 1) for i in (0, 1)))),)
    table(ctx, 'extents', f, [(g, b) for g in GRIDS for b in (((0, 0), (2, 1)), ((1, 0), (1, 3)), ((0, 0), (0, 0)), ((-2, 3), (4, 5)))], given2, [], want2, opaque=('getCellExtents',), describe=desc)
    for nm, val in (('getSizeX', lambda g: g['getCellSizeX'] * g['getScaleX']), ('getSizeY', lambda g: g['getCellSizeY'] * g['getScaleY']),
                    ('getWidth', lambda g: g['getCellSizeX']), ('getHeight', lambda g: g['getCellSizeY']),
                    ('getCenterPoint', lambda g: V((g['getCellSizeX'] * g['getScaleX'] / 2 + g['getOffsetX'], g['getCellSizeY'] * g['getScaleY'] / 2 + g['getOffsetY'])))):
        for f in P.byname.get('%s::%s' % (GB, nm), [])[:1]:
            table(ctx, 'geometry', f, [(g,) for g in GRIDS], given1, [], lambda x, val=val: (val(x[0]),), describe=desc)
    f = fn1(ctx, GB + '::contains')

    def given3(x, E, t, f=f):
        for i, a in enumerate('xy'):
            if t == ('init', ('field', D_(f, 0), a)):
                return x[1][i]
        return base(x, E, t)
    table(ctx, 'extents', f, [(g, (i, j)) for g in GRIDS for i in (0, 1, 2, 3, 4, 5, 2 ** 40) for j in (0, 1, 2, 3, 4, 5, 2 ** 40)], given3, [],
          lambda x: (int(x[1][0] < x[0]['getCellSizeX'] and x[1][1] < x[0]['getCellSizeY']),), describe=desc)
    constructors(ctx, N)
    positions(ctx)


N_ = lambda i: ('n', i)


def constructors(ctx, N):
    """cells, scale, offset of the constructors of grids end up in the members behind the getters"""
    P, n = ctx.P, 0
    for cls in sorted(P.records):
        if cls != GB and GB not in all_bases(P, cls):
            continue
        for f in P.byname.get(cls + '::<ctor>', []) + P.byname.get(cls + '::' + cls.split('::')[-1].split('<')[0], []):
            if not f.get('body') or len(f['params']) < 4:
                continue
            ts = [p['t'] for p in f['params']]
            if ts[:2] != ['unsigned long'] * 2 or ts[2:4] != ['double'] * 2:
                continue
            k = 6 if ts[4:6] == ['double'] * 2 else 4
            try:
                I, tr = run(ctx, f, opaque=lambda q: not q.startswith('envire::') or q.startswith(('envire::Map<', 'envire::CartesianMap')))
            except AnalysisError as e:
                ctx.und('geometry', loc_of(f), '%s: %s' % (f['q'], e))
                continue
            for t in tr:
                for i in range(k):
                    v = I.load(t.st, N[GETTERS[i]])
                    ok = v == P_(f, i)
                    if not ok and not (v[0] in ('p', 'n', 'init', 'poly', 'uninit')):
                        ok = None
                    ctx.check(ok, 'geometry', loc_of(f), '%s: %s is %s' % (f['q'], GETTERS[i][3:], show(v)[:50]), f['q'] + f['sig'] + GETTERS[i])
            n += 1
    ctx.need(n, 'constructors of grids', 3)
    ctx.count('constructors', n)


def all_bases(P, c):
    out, todo = [], [c]
    while todo:
        for b in P.bases(todo.pop()):
            if b not in out:
                out.append(b)
                todo.append(b)
    return out


def positions(ctx):
    P = ctx.P
    pos = GB + '::Position'
    vals = (0, 1, 2)
    dom = [((a, b), (c, d)) for a in vals for b in vals for c in vals for d in vals]
    for op, val in (('operator<', lambda a, b: a < b), ('operator==', lambda a, b: a == b), ('operator!=', lambda a, b: a != b)):
        for f in P.byname.get('%s::%s' % (pos, op), []):
            if not f.get('body'):
                continue

            def given(x, E, t, f=f):
                for i, a in enumerate('xy'):
                    if t == ('init', ('field', THIS, a)):
                        return x[0][i]
                    if t == ('init', ('field', D_(f, 0), a)):
                        return x[1][i]
                return None
            table(ctx, 'position', f, dom, given, [], lambda x, val=val: (int(val(*x)),))
    for f in P.byname.get(pos + '::<ctor>', []) + P.byname.get(pos + '::Position', []):
        if not f.get('body') or f.get('implicit') or not f['params']:
            continue
        if len(f['params']) == 2:
            given = lambda x, E, t, f=f: x[t == P_(f, 1)] if t in (P_(f, 0), P_(f, 1)) else None
        elif 'Matrix<int, 2' in f['params'][0]['t']:
            given = lambda x, E, t, f=f: V(x) if t == ('init', D_(f, 0)) else None
        else:
            continue
        table(ctx, 'position', f, [(1, 2), (5, 0)], given, [fld('x'), fld('y')], lambda x: (None,) + x)


# ---------------------------------------------------------------------------- lines
BR = 'envire::Bresenham'
REACH = 6


def line_ok(a, b, pts):
    """None, or what is wrong with the cells found between a and b"""
    if not pts:
        return 'no cell'
    if pts[0] != a:
        return 'begins at %s' % (pts[0],)
    if pts[-1] != b:
        return 'ends at %s' % (pts[-1],)
    d = (b[0] - a[0], b[1] - a[1])
    n = max(abs(d[0]), abs(d[1]))
    if len(pts) != n + 1:
        return '%d cells instead of %d' % (len(pts), n + 1)
    for p, q in zip(pts, pts[1:]):
        if max(abs(q[0] - p[0]), abs(q[1] - p[1])) != 1:
            return 'jumps from %s to %s' % (p, q)
    for i, p in enumerate(pts):
        for k in (0, 1):
            if n and abs((p[k] - a[k]) * n - i * d[k]) * 2 > n:
                return 'leaves the line at %s' % (p,)
    return None


class Walker:
    """summaries of the functions of the line object, applied to states (values of its members)"""

    def __init__(self, ctx):
        self.ctx, self.memo = ctx, {}
        self.fields = [f['name'] for f in ctx.P.records[BR]['fields']]

    def summary(self, f):
        k = f['q'] + f['sig']
        if k not in self.memo:
            self.memo[k] = run(self.ctx, f)
        return self.memo[k]

    def apply(self, f, state, given, outs=()):
        """(result, outputs, new state)"""
        I, tr = self.summary(f)
        lost = None
        for t in tr:
            def leaf(E, u):
                for k in self.fields:
                    if u == ('init', fld(k)):
                        if state.get(k) is None:
                            raise Lost('%s has no value' % k)
                        return state[k]
                return given(E, u)
            E = GE(I, t, leaf)
            try:
                if not all(E.ev(x) for x in t.facts):
                    continue
                new = {}
                for k in self.fields:
                    v = I.load(t.st, fld(k))
                    try:
                        new[k] = E.ev(v) if v != ('init', fld(k)) else state.get(k)
                    except Lost:
                        new[k] = None
                r = E.ev(t.val) if t.val is not None and t.val != ('void',) else None
                o = []
                for l in outs:
                    try:
                        o.append(E.ev(I.load(t.st, l)))
                    except Lost:
                        o.append(None)
                return r, tuple(o), new
            except Lost as e:
                lost = str(e)
        raise Lost(lost or 'no path')

    def cells(self, f, state, outs):
        pts = []
        while len(pts) < 4 * REACH:
            r, o, state = self.apply(f, state, lambda E, u: None, outs)
            if not r:
                return pts, state
            pts.append(o)
        return pts, state


def int_outs(f):
    """locations of the two outputs of a getNextPoint, None: not recognised"""
    ts = [p['t'] for p in f['params']]
    if ts == ['int &', 'int &']:
        return [D_(f, 0), D_(f, 1)]
    if len(ts) == 1 and 'Position' in ts[0]:
        return [('field', D_(f, 0), a) for a in 'xy']
    if len(ts) == 1 and 'Matrix<int, 2' in ts[0]:
        return [('idx', D_(f, 0), N_(i)) for i in (0, 1)]
    return None


def endpoints(f):
    """interpretation of the parameters of an initialisation by the two end points"""
    ts = [p['t'] for p in f['params']]
    if ts == ['int'] * 4:
        return lambda a, b: lambda E, u: dict(zip([P_(f, i) for i in range(4)], a + b)).get(u)
    if len(ts) == 2 and all('Position' in x for x in ts):
        return lambda a, b: lambda E, u: {('init', ('field', D_(f, i), c)): (a, b)[i][k] for i in (0, 1) for k, c in enumerate('xy')}.get(u)
    if len(ts) == 2 and all('Matrix<int, 2' in x for x in ts):
        return lambda a, b: lambda E, u: {('init', D_(f, 0)): V(a), ('init', D_(f, 1)): V(b)}.get(u)
    return None


@units(r'^src/tools/BresenhamLine')
def lines(ctx):
    P = ctx.P
    ctx.rule('line', 'the cells between two cells are a connected chain from the one to the other, within half a cell of the straight line')
    ctx.rule('overload', 'all ways to set the end points and to fetch the cells agree')
    W = Walker(ctx)
    inits = [f for n in ('init', '<ctor>', 'Bresenham') for f in P.byname.get('%s::%s' % (BR, n), []) if f.get('body') and not f.get('implicit') and endpoints(f)]
    nexts = [f for f in P.byname.get(BR + '::getNextPoint', []) if f.get('body') and int_outs(f)]
    ctx.need(len(inits), 'initialisations of a line', 2)
    ctx.need(len(nexts), 'getNextPoint', 1)
    R = range(-REACH, REACH + 1)
    ends = [((REACH + 2, REACH + 3), (REACH + 2 + dx, REACH + 3 + dy)) for dx in R for dy in R]

    def judge(rid, i, n, ends):
        what = 'line set by %s%s, cells fetched by %s%s' % (bname(i['q']), i['sig'], bname(n['q']), n['sig'])
        key = i['q'] + i['sig'] + n['q'] + n['sig']
        try:
            for a, b in ends:
                r, o, st = W.apply(i, {}, endpoints(i)(a, b))
                pts, st = W.cells(n, st, int_outs(n))
                w = line_ok(a, b, pts)
                if not w and W.cells(n, st, int_outs(n))[0]:
                    w = 'goes on after its end'
                if w:
                    ctx.bad(rid, loc_of(n), '%s: from %s to %s %s' % (what, a, b, w), key)
                    return
            ctx.ok(rid, loc_of(n), what)
            ctx.count('lines', len(ends))
        except (Lost, AnalysisError) as e:
            ctx.und(rid, loc_of(n), '%s: %s' % (what, e))
        except Bad as e:
            ctx.bad(rid, loc_of(n), '%s: %s' % (what, e), key)
    for i in inits:
        for n in nexts:
            judge('line' if len(i['params']) == 4 and len(n['params']) == 2 else 'overload', i, n, ends)
    # starting again after a line that was not finished
    for i in [f for f in inits if f['q'].endswith('::init')]:
        n = nexts[0]
        try:
            bad = None
            for a, b in ends[::7]:
                for steps in (0, 2, 40):
                    r, o, st = W.apply(i, {}, endpoints(i)((9, 9), (12, 10)))
                    for s in range(steps):
                        r, o, st = W.apply(n, st, lambda E, u: None, int_outs(n))
                    r, o, st = W.apply(i, st, endpoints(i)(a, b))
                    bad = bad or line_ok(a, b, W.cells(n, st, int_outs(n))[0])
            ctx.check(not bad, 'overload', loc_of(i), 'a line that is set again%s: %s' % (i['sig'], bad or 'is that line'), i['q'] + i['sig'] + ':again')
        except (Lost, AnalysisError) as e:
            ctx.und('overload', loc_of(i), 'a line that is set again: %s' % e)
    for f in P.byname.get(BR + '::getLine', []) + P.byname.get('envire::lineBresenham', []):
        if f.get('body'):
            whole(ctx, W, f, inits, ends)


def whole(ctx, W, f, inits, ends):
    """all cells of a line appended to a vector"""
    from .sim import Eval
    name, key = bname(f['q']) + f['sig'], f['q'] + f['sig']
    own = f['q'].startswith(BR)
    vec = D_(f, len(f['params']) - 1)
    init = [i for i in inits if len(i['params']) == 4][:1]
    try:
        I, tr = run(ctx, f)
        for a, b in ends:
            st = W.apply(init[0], {}, endpoints(init[0])(a, b))[2] if own else {}
            given = (lambda E, u: None) if own else endpoints(dict(f, params=f['params'][:2]))(a, b)
            hit, lost = None, None
            for t in tr:
                def leaf(E, u):
                    for k in W.fields:
                        if own and u == ('init', fld(k)):
                            return st.get(k)
                    return given(E, u)

                def hook(E, e):
                    if e.kind in ('call', 'ccall') and e.get('n') in ('push_back', 'emplace_back') and e.this == vec:
                        v = e.args[0]
                        E.out.append(tuple(E.ev(x) for x in parts(I, v)))
                    elif e.kind in ('call', 'ccall') and e.get('this') == vec and e.get('n') not in ('reserve', 'size', 'capacity'):
                        raise Lost(e.n)
                E = Eval(I, leaf, hook)
                try:
                    if E.run(t):
                        hit = E.out
                        break
                except Lost as e:
                    lost = str(e)
            if hit is None:
                raise Lost(lost or 'no path')
            w = line_ok(a, b, hit)
            if w:
                ctx.bad('overload', loc_of(f), '%s: from %s to %s %s' % (name, a, b, w), key)
                return
        ctx.ok('overload', loc_of(f), name)
    except (Lost, AnalysisError) as e:
        ctx.und('overload', loc_of(f), '%s: %s' % (name, e))


def parts(I, v):
    """the two indexes of a position"""
    r = {}
    if v[0] == 'upd':
        for p, x in v[2]:
            p = p[0] if isinstance(p[0], tuple) else p
            if p[0] == 'field':
                r[p[1]] = x
    elif v[0] == 'obj' and len(v[2]) == 2:
        r = {'x': v[2][0], 'y': v[2][1]}
    if sorted(r) != ['x', 'y']:
        raise Lost('position ' + show(v)[:50])
    return r['x'], r['y']


PROPS = {'M01': coordinates, 'M03': lines}
