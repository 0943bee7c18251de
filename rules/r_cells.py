"""Cells and bands of a grid, traversability classes and statistics."""
from .r_grid import *
from .r_grid import units

# ---------------------------------------------------------------------------- cells and bands
TG, EG = 'envire::TraversabilityGrid', 'envire::ElevationGrid'
CELLTYPES = ('double', 'float', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int')
HUGE = Fr(10) ** 400
W, H = 3, 2


def heapno(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'heap' else None


class Cells:
    """which band of which grid an array expression stands for, and what the events do to bands"""

    def __init__(self, fields=None):
        self.fields = fields or {}      # pointer member -> band it caches

    def holders(self, E):
        if getattr(E, 'holders', None) is None:
            E.holders = {}
            for e in E.t.events:
                if e.kind == 'write' and e.loc[0] == 'idx' and self.datamap(e.loc[1]):
                    n = [x for x in subterms(e.val) if heapno(x) is not None]
                    if n:
                        E.holders[heapno(n[0])] = (self.datamap(e.loc[1]), e.loc[2])
        return E.holders

    def datamap(self, l):
        if l[0] == 'field' and l[2] == 'data_map':
            return 'this' if l[1] == THIS else 'other'
        return None

    def band(self, E, t):
        for x in subterms(t):
            if x[0] == 'idx' and self.datamap(x[1]):
                return self.datamap(x[1]), E.ev(x[2])
            if heapno(x) in self.holders(E):
                o, k = self.holders(E)[heapno(x)]
                return o, E.ev(k)
            if x[0] == 'field' and x[1] == THIS and x[2] in self.fields:
                return 'this', self.fields[x[2]]
            if x[0] == 'call' and x[1].split('::')[-1] in ('getGridData', 'getData') and len(x[2]) == 2:
                return 'this' if x[2][0] in (THIS, ('init', THIS), ('this',)) else 'other', E.ev(x[2][1])
        return None

    def cell(self, E, l):
        """(object, band, y, x) of a cell location"""
        idx = []
        while l[0] in ('idx', 'sub') and not self.datamap(l[1]):
            if l[0] == 'sub':
                if l[2] != 'idx':
                    break
                idx.insert(0, l[3])
                l = l[1]
            else:
                idx = list(l[2:]) + idx
                l = l[1]
        if not idx:
            return None
        flat = contains(l, lambda x: x[0] == 'call' and x[1].split('::')[-1] == 'data')
        if l[0] == 'deref' and l[1][0] == 'poly' and flat:
            return None
        b = self.band(E, l)
        if b is None:
            return None
        i = [num(E.ev(x)) for x in idx]
        if flat or len(i) == 1:
            if len(i) != 1 or not flat:
                return None
            i = [i[0] // W, i[0] % W] if 0 <= i[0] < W * H else [H, 0]
        if len(i) != 2:
            return None
        if not (0 <= i[0] < H and 0 <= i[1] < W):
            raise Bad('accesses the cell [%s][%s] of a grid with %d rows of %d cells' % (i[0], i[1], H, W))
        return b + (int(i[0]), int(i[1]))

    def value(self, x, c):
        o, b, y, i = c
        bands = x['bands' if o == 'this' else 'source']
        if b not in bands:
            return 0
        v = bands[b][y][i]
        return v

    def given(self, x, E, t):
        k = t[0]
        if k == 's':
            return t[1]
        if k == 'cat' and all(y[0] == 's' for y in t[1]):
            return ''.join(y[1] for y in t[1])
        if k == 'has':
            c = t[1][1] if t[1][0] == 'init' else t[1]
            if c[0] == 'field' and c[2] == 'data_map':
                return int(E.ev(t[2]) in x['bands' if c[1] == THIS else 'source'])
            if c[0] == 'field' and c[2] == 'nodata':
                return int(E.ev(t[2]) in x['nodata' if c[1] == THIS else 'snodata'])
        if k == 'init' and t[1][0] == 'idx' and t[1][1][0] == 'field' and t[1][1][2] == 'nodata':
            return x['nodata' if t[1][1][1] == THIS else 'snodata'][E.ev(t[1][2])]
        if k == 'dyncast':
            return 1
        if k == 'f' and t[1] == 'max' and not t[2]:
            return HUGE
        if k == 'f' and t[1] == 'min' and not t[2]:
            return 1 / HUGE
        if k == 'init' and t[1][0] == 'field' and t[1][1] == THIS and t[1][2] in self.fields:
            return x.get('ptr', 0)
        if k == 'call' and t[1].split('::')[-1] in ('size', 'length') and len(t[2]) == 1:
            v = t[2][0]
            v = E.ev(v if v[0] in ('init', 's', 'cat') else ('init', v))
            if isinstance(v, str):
                return len(v)
        if k == 'init' and t[1][0] in ('idx',) or k == 'sub' and t[2] == 'idx':
            c = self.cell(E, t[1] if k == 'init' else t)
            if c:
                return self.value(x, c)
        return None

    def effects(self, E, events):
        """what happens to the bands and members, in order; new bands and pointers to bands are left out"""
        out = []
        for e in events:
            if e.kind == 'write':
                l = e.loc
                if l[0] == 'idx' and self.datamap(l[1]) or heapno(l) is not None or l[0] == 'field' and (heapno(l[1]) is not None or l[2] in self.fields) or l[0] == 'var' or l[0] in ('field', 'idx') and root(l)[0] == 'var':
                    continue
                if l[0] == 'idx' and l[1][0] == 'field' and l[1][2] == 'nodata':
                    out.append(('nodata', E.ev(l[2]), E.ev(e.val)))
                    continue
                c = self.cell(E, l) if l[0] == 'idx' else None
                if c:
                    out.append(('cell',) + c + (E.ev(e.val),))
                    continue
                b = self.band(E, l) if l[0] == 'deref' else None
                s = self.band(E, e.val) if b else None
                if b and s:
                    out.append(('array', b, s))
                    continue
                out.append(('other', l))
            elif e.kind in ('call', 'ccall') and e.get('n') == 'resize' and e.get('this') is not None:
                b = self.band(E, e.this)
                if b:
                    ix = indexes(E, e.args[0])
                    if ix != (H, W):
                        raise Bad('resizes the band to %s rows and columns instead of (%d, %d)' % (ix, H, W))
                    out.append(('resize', b))
        return out


def root(l):
    while l[0] in ('field', 'idx'):
        l = l[1]
    return l


def indexes(E, t):
    """the numbers of boost::extents[a][b]"""
    r = []
    t = t[1] if t[0] == 'init' else t
    while t[0] in ('idx', 'sub'):
        r.insert(0, int(num(E.ev(t[3] if t[0] == 'sub' else t[2]))))
        t = t[1]
    if not contains(t, lambda x: x[0] == 'glob' and x[1].endswith('extents')):
        raise Lost('extents ' + show(t)[:50])
    return tuple(r)


def subterms(t):
    """all subterms, from the outside to the inside"""
    todo = [t]
    while todo:
        x = todo.pop(0)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo += [y for y in x if isinstance(y, tuple)]


def judge(ctx, rid, fn, worlds, given, want, C, opaque=(), what=None, describe=str, result=True, throwing=()):
    """want(x): ('throw',) or (result, effects without resizing)"""
    name, key = what or bname(fn['q']) + fn['sig'].split(')')[0] + ')', fn['q'] + fn['sig'] + rid
    name = re.sub(r'std::basic_string<char, [^>]*>, std::allocator<char>>', 'string', name)
    try:
        I, tr = run(ctx, fn, opaque=lambda q: q.split('::')[-1] in opaque)
    except AnalysisError as e:
        ctx.und(rid, loc_of(fn), '%s: %s' % (name, e))
        return None
    n = 0
    for x in worlds:
        hit, lost, bad = None, None, None
        for t in tr:
            def leaf(E, u):
                r = given(x, E, u)
                return C.given(x, E, u) if r is None else r
            E = GE(I, t, leaf)
            try:
                if not all(E.ev(f) for f in t.facts):
                    continue
                if t.out == 'throw':
                    hit = ('throw',)
                    break
                eff = C.effects(E, t.events)
                created = set(E.ev(k) for o, k in C.holders(E).values())
                sized = set(e[1][1] for e in eff if e[0] == 'resize')
                if created - sized:
                    raise Bad('creates the band %s without giving it the size of the grid' % sorted(created - sized))
                eff = [e for e in eff if e[0] != 'resize']
                v = None
                if result and t.val is not None and t.val != ('void',):
                    v = t.val
                    v = result(E, v) if callable(result) else E.ev(('init', v.loc) if isinstance(v, LV) else v)
                hit = (v, eff)
                break
            except Lost as e:
                lost = str(e)
            except Bad as e:
                bad = str(e)
                break
        if bad:
            ctx.bad(rid, loc_of(fn), '%s: for %s %s' % (name, describe(x), bad), key)
            return I, tr
        if hit is None:
            ctx.und(rid, loc_of(fn), '%s: %s' % (name, lost or 'no path for %s' % describe(x)))
            return I, tr
        w = want(x)
        if w is None:
            continue
        n += 1
        if hit != w:
            ctx.bad(rid, loc_of(fn), '%s: for %s expected %s, found %s' % (name, describe(x), shown(tuple(w)), shown(tuple(hit))), key)
            return I, tr
    ctx.count('evaluated inputs', n)
    if n:
        ctx.ok(rid, loc_of(fn), '%s (%d inputs)' % (name, n))
    return I, tr


def fill(base):
    return [[base + 10 * y + x for x in range(W)] for y in range(H)]


GEO = dict(zip(GETTERS, (W, H, Fr(1, 2), Fr(2), Fr(-1), Fr(3, 4))))


def is_const(f):
    return f['sig'].rstrip().endswith('const')


@units(r'^src/(maps/(GridBase|Grids|ElevationGrid|TraversabilityGrid)|core/Layer)')
def cells(ctx):
    P = ctx.P
    ctx.rule('cell', 'a cell of a band is read and written at [y][x], inside of the grid')
    ctx.rule('band', 'the bands of a grid have its size and are told apart by their names; copies of bands go to the named band')
    ctx.rule('nodata', 'the no-data value of a band is the one that was set for it')
    ctx.rule('range', 'minimum and maximum are those of all cells')
    ctx.rule('slope', 'normal and elevation follow from the neighbouring cells that exist')
    ctx.rule('class', 'traversability classes are kept and found by their number, unknown ones are refused')
    ctx.rule('statistic', 'counts and distances per class')
    ctx.rule('copy', 'a copy of a grid refers to its own cells')
    N = members(ctx)
    geo = geometry_of(N)
    g = lambda x, E, t: geo((GEO,), E, t)
    seen = 0
    for T in CELLTYPES:
        q = 'envire::Grid<%s>' % T
        if q + '::getFromRaster' not in P.byname:
            continue
        seen += 1
        grid_cells(ctx, q, g)
    ctx.need(seen, 'instances of Grid', 3)
    ctx.count('cell types', seen)
    elevation(ctx, g)
    traversability(ctx, g)
    statistic(ctx)


def describe_cell(x):
    return ', '.join('%s %s' % (k, shown(tuple(v) if isinstance(v, list) else v)) for k, v in x.items() if k in ('band', 'key', 'at', 'point', 'name', 'size', 'klass', 'p', 'ptr')) + (' (no such band)' if x.get('band') is not None and x.get('band') not in x['bands'] else '')


def grid_cells(ctx, q, g):
    P = ctx.P
    C = Cells()
    bands = {'a': fill(100), 'b': fill(200)}
    at = [(xi, yi) for xi in range(W) for yi in range(H)]

    for f in P.byname.get(q + '::getFromRaster', []):
        if not f.get('body') or len(f['params']) != 3:
            continue
        const = is_const(f)

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return x['band']
            if t in (P_(f, 1), P_(f, 2)):
                return x['at'][t == P_(f, 2)]
            return g(x, E, t)

        def want(x, const=const):
            if x['band'] not in x['bands']:
                return ('throw',) if const else (0, [])
            return (x['bands'][x['band']][x['at'][1]][x['at'][0]], [])
        judge(ctx, 'cell', f, [dict(bands=bands, band=b, at=a) for b in ('a', 'b', 'c') for a in at], given, want, C, describe=describe_cell)
    for f in P.byname.get(q + '::get', []):
        if not f.get('body') or [p['t'] for p in f['params']][1:] != ['double', 'double']:
            continue
        const = is_const(f)

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return x['band']
            if t in (P_(f, 1), P_(f, 2)):
                return x['point'][t == P_(f, 2)]
            return g(x, E, t)

        def want(x, const=const):
            c = cell(GEO, *x['point'])
            if c is None or const and x['band'] not in x['bands']:
                return ('throw',)
            return (x['bands'][x['band']][c[1]][c[0]] if x['band'] in x['bands'] else 0, [])
        judge(ctx, 'cell', f, [dict(bands=bands, band=b, point=p) for b in ('a', 'c') for p in pts(GEO)[::3]], given, want, C, describe=describe_cell)
    for f in P.byname.get(q + '::getGridData', []):
        if not f.get('body') or len(f['params']) != 1:
            continue
        const = is_const(f)

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return x['band']
            return g(x, E, t)

        def res(E, v):
            b = C.band(E, v.loc if isinstance(v, LV) else v)
            if b is None:
                raise Lost('array ' + show(v.loc if isinstance(v, LV) else v)[:60])
            return b
        judge(ctx, 'band', f, [dict(bands=bands, band=b) for b in 'abc'], given,
              lambda x, const=const: ('throw',) if const and x['band'] not in x['bands'] else (('this', x['band']), []), C, describe=describe_cell, result=res)
    # --- no-data values
    for f in P.byname.get(q + '::getNoData', []):
        if not f.get('body') or len(f['params']) != 1:
            continue

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return x['key']
            return g(x, E, t)

        def res(E, v):
            if v[0] == 'pair' and len(v) == 3:
                b = E.ev(v[2])
                return (E.ev(v[1]) if b else None, b)
            raise Lost('pair')
        judge(ctx, 'nodata', f, [dict(bands=bands, nodata={'a': 7, 'b': 9}, key=k) for k in 'abc'], given,
              lambda x: ((x['nodata'].get(x['key']), int(x['key'] in x['nodata'])), []), C, describe=describe_cell, result=res)
    for f in P.byname.get(q + '::setNoData', []):
        if not f.get('body') or len(f['params']) != 2:
            continue

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return x['key']
            if t == P_(f, 1):
                return 5
            return g(x, E, t)
        judge(ctx, 'nodata', f, [dict(bands=bands, nodata={'a': 7}, key=k) for k in 'ac'], given, lambda x: (None, [('nodata', x['key'], 5)]), C, describe=describe_cell)
    for f in P.byname.get(q + '::copyBandFrom', []):
        if not f.get('body') or len(f['params']) != 3:
            continue

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 1)):
                return x['band']
            if t == ('init', D_(f, 2)):
                return x['name']
            return g(x, E, t)

        def want(x):
            if x['band'] not in x['source']:
                return ('throw',)
            to = x['name'] or x['band']
            return (None, [('array', ('this', to), ('other', x['band']))] + ([('nodata', to, x['snodata'][x['band']])] if x['band'] in x['snodata'] else []))
        judge(ctx, 'band', f, [dict(bands=bands, source={'a': fill(1), 'd': fill(2)}, nodata={}, snodata={'a': 7}, band=b, name=n) for b in ('a', 'd', 'c') for n in ('', 'b', 'e')]
              + [dict(bands=bands, source={'a': fill(1)}, nodata={'a': 3, 'b': 4}, snodata={'a': 7}, band='a', name=n) for n in ('', 'b', 'e')],
              given, want, C, describe=describe_cell)
    for f in P.byname.get(q + '::getMinMaxValues', []):
        if f.get('body') and len(f['params']) == 3:
            minmax(ctx, f, g, q)


def minmax(ctx, f, g, q):
    from .sim import Eval
    name = bname(f['q'])
    C = Cells()
    try:
        I, tr = run(ctx, f)
        n = 0
        arrays = [[3, 1, 2, 5, 4, 0], [-3, -1, -2, -5, -4, -9], [0, 0, 0, 0, 0, 0], [1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1], [-1, 0, 7, 0, 0, 0]]
        arrays = [a for a in arrays if min(a) >= 0 or 'unsigned' not in q]
        for a in arrays:
            for name_ in ('a',):
                x = dict(bands={'a': [a[:3], a[3:]]}, band=name_)
                hit, lost = None, None
                for t in tr:
                    G = GE(I, t, None)

                    def given(E, u, x=x, a=a):
                        if u == ('init', D_(f, 0)):
                            return x['band']
                        if u[0] == 'call' and u[1].split('::')[-1] in ('data', 'origin'):
                            return 0
                        if u[0] == 'call' and u[1].split('::')[-1] in ('num_elements', 'size') and contains(u, lambda y: y[0] == 'idx' and C.datamap(y[1])):
                            return W * H
                        if u[0] == 'init' and u[1][0] == 'idx' and u[1][1][0] == 'deref' and contains(u[1][1], lambda y: y[0] == 'call' and y[1].split('::')[-1] in ('data', 'origin')):
                            i = E.ev(u[1][2])
                            if not 0 <= i < len(a):
                                raise Bad('reads the cell %s of %d' % (i, len(a)))
                            return a[int(i)]
                        if u[0] == 'init' and u[1][0] == 'deref' and contains(u[1], lambda y: y[0] == 'call' and y[1].split('::')[-1] in ('data', 'origin')):
                            i = E.ev(u[1][1])
                            if not 0 <= i < len(a):
                                raise Bad('reads the cell %s of %d' % (i, len(a)))
                            return a[int(i)]
                        r = g(x, E, u)
                        return C.given(x, E, u) if r is None else r
                    E = Eval(I, given, lambda E, e: None)
                    E.t = t
                    try:
                        if not E.run(t):
                            continue
                        hit = (E.ev(I.load(t.st, D_(f, 1))), E.ev(I.load(t.st, D_(f, 2))))
                        break
                    except Lost as e:
                        lost = str(e)
                if hit is None:
                    raise Lost(lost or 'no path')
                n += 1
                if hit != (min(a), max(a)):
                    ctx.bad('range', loc_of(f), '%s: for the cells %s expected (%s, %s), found %s' % (q + '::' + name, a, min(a), max(a), shown(hit)), f['q'])
                    return
        ctx.ok('range', loc_of(f), '%s (%d grids)' % (q + '::' + name, n))
    except Bad as e:
        ctx.bad('range', loc_of(f), '%s %s' % (name, e), f['q'])
    except (Lost, AnalysisError) as e:
        ctx.und('range', loc_of(f), '%s: %s' % (q + '::' + name, e))


def posval(f, i, x):
    return {('init', ('field', D_(f, i), a)): x[k] for k, a in enumerate('xy')}


def elevation(ctx, g):
    P = ctx.P
    C = Cells()
    EL = 'elevation_max'
    I, tr = None, None
    bands = {EL: fill(100), 'elevation_min': fill(300)}
    at = [(xi, yi) for xi in range(W) for yi in range(H)]
    for f in P.byname.get(EG + '::get', []):
        if not f.get('body'):
            continue
        const = is_const(f)
        if len(f['params']) == 1:
            def given(x, E, t, f=f):
                return posval(f, 0, x['at']).get(t, g(x, E, t))
            worlds = [dict(bands=bands, at=a) for a in at]
            want = lambda x: (x['bands'][EL][x['at'][1]][x['at'][0]], [])
        else:
            def given(x, E, t, f=f):
                if t in (P_(f, 0), P_(f, 1)):
                    return x['point'][t == P_(f, 1)]
                return g(x, E, t)
            worlds = [dict(bands=bands, point=p) for p in pts(GEO)[::3]]
            want = lambda x: (x['bands'][EL][cell(GEO, *x['point'])[1]][cell(GEO, *x['point'])[0]], []) if cell(GEO, *x['point']) else ('throw',)
        judge(ctx, 'cell', f, worlds, given, want, C, describe=describe_cell)
    hs = [[[Fr(1), Fr(4), Fr(9)], [Fr(2), Fr(-3), Fr(5)]], [[Fr(0), Fr(0), Fr(7)], [Fr(1, 2), Fr(11), Fr(0)]]]

    def slope(h, a):
        xi, yi = a
        r = []
        for k, (i, n, s) in enumerate(((xi, W, GEO['getScaleX']), (yi, H, GEO['getScaleY']))):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            v = lambda j: h[yi][j] if k == 0 else h[j][xi]
            r.append((v(lo) - v(hi)) / (s * (hi - lo)) if hi > lo else Fr(0))
        return V(r + [Fr(1)])

    def direction(E, v):
        if v[0] == 'call' and v[1].split('::')[-1] == 'normalized' and len(v[2]) == 1:
            d = E.ev(v[2][0])
            if isinstance(d, V) and len(d) == 3 and d[2]:
                return V(Fr(y) / d[2] for y in d)
        raise Lost('normal ' + show(v)[:60])
    for f in P.byname.get(EG + '::getNormal', []):
        if not f.get('body'):
            continue
        if 'Position' in f['params'][0]['t']:
            given = lambda x, E, t, f=f: posval(f, 0, x['at']).get(t, g(x, E, t))
            worlds = [dict(bands=dict(bands, **{EL: h}), at=a) for h in hs for a in at]
            want = lambda x: (slope(x['bands'][EL], x['at']), [])
        else:
            given = lambda x, E, t, f=f: V(x['point']) if t == ('init', D_(f, 0)) else g(x, E, t)
            worlds = [dict(bands=dict(bands, **{EL: h}), point=p) for h in hs for p in pts(GEO)[::5]]
            want = lambda x: (slope(x['bands'][EL], cell(GEO, *x['point'])), []) if cell(GEO, *x['point']) else ('throw',)
        judge(ctx, 'slope', f, worlds, given, want, C, describe=describe_cell, result=direction)
    for f in P.byname.get(EG + '::getElevation', []):
        if not f.get('body'):
            continue
        NV = V((Fr(3), Fr(-2), Fr(5)))

        def given(x, E, t, f=f):
            if t == ('init', D_(f, 0)):
                return V(x['point'])
            if t[0] == 'call' and t[1].endswith('::getNormal'):
                return NV
            return g(x, E, t)

        def want(x):
            c = cell(GEO, *x['point'])
            if c is None:
                return ('throw',)
            m = centre(GEO, *c)
            return (x['bands'][EL][c[1]][c[0]] + sum((m[i] - x['point'][i]) * NV[i] / NV[2] for i in (0, 1)), [])
        judge(ctx, 'slope', f, [dict(bands=bands, point=p) for p in pts(GEO)[::3]], given, want, C, opaque=('getNormal',), describe=describe_cell)


def traversability(ctx, g):
    P = ctx.P
    TR, PR = 'traversability', 'probability'
    ptrs = [x['name'] for x in P.records[TG]['fields'] if x['t'].rstrip().endswith('*') and 'multi_array' in x['t'] or 'ArrayType *' in x['t']]
    table_ = [x['name'] for x in P.records[TG]['fields'] if 'TraversabilityClass>' in x['t'] or x['t'].startswith('std::vector<TraversabilityClass')]
    if len(table_) != 1:
        raise AnalysisError('M02: table of the traversability classes not found (anchor lost)')
    CL = fld(table_[0])
    roles = {}

    class G0:
        def __init__(self, I, t):
            self.I, self.t = I, t

        def ev(self, t):
            if t[0] == 's':
                return t[1]
            raise Lost('name of a band')
    # the members that keep a band at hand, and the band each of them stands for
    for q in sorted(P.byname):
        if not q.startswith(TG + '::'):
            continue
        for f in P.byname[q]:
            if not f.get('body') or f.get('implicit') and '<ctor>' not in q:
                continue
            nm = q.split('::')[-1]
            if nm in ('computeStatistic', 'getWorstTraversabilityClassInRectangle', 'getWorstProbabilityInRectangle', 'serialize', 'unserialize', '~TraversabilityGrid', '<dtor>'):
                continue
            try:
                I, tr = run(ctx, f, opaque=lambda q: not q.startswith('envire::') or q.startswith(('envire::Map<', 'envire::CartesianMap')))
            except AnalysisError as e:
                ctx.und('copy', loc_of(f), '%s: %s' % (q, e))
                continue
            tr = [t for t in tr if t.out == 'ret']
            for t in tr:
                for p in ptrs:
                    v = I.load(t.st, fld(p))
                    ctor = '<ctor>' in q or nm == 'TraversabilityGrid'
                    assign = nm == 'operator=' or ctor and f['params'] and 'TraversabilityGrid' in f['params'][0]['t']
                    if v == ZERO:
                        continue
                    if v == ('init', fld(p)) and not ctor and not assign:
                        continue
                    if ctor or assign:
                        known = v[0] in ('init', 'uninit', 'n') or v[0] == 'p'
                        ctx.check(False if known else None, 'copy', loc_of(f), '%s: the pointer %s to the cells is %s afterwards' % (bname(q) or 'constructor', p, show(v)[:60]), q + f['sig'] + p)
                        continue
                    try:
                        C0 = Cells()
                        b = C0.band(G0(I, t), v)
                    except Lost:
                        b = None
                    if b is None:
                        ctx.und('band', loc_of(f), '%s: %s set to %s' % (q, p, show(v)[:60]))
                    elif roles.setdefault(p, b[1]) != b[1] or b[0] != 'this':
                        ctx.bad('band', loc_of(f), '%s: %s stands for the band %s and for %s' % (q, p, roles[p], b[1]), q + p)
            if nm in ('operator=',) or ('<ctor>' in q or nm == 'TraversabilityGrid') and f['params'] and 'TraversabilityGrid' in f['params'][0]['t']:
                src = ('field', D_(f, 0), table_[0])
                for t in tr:
                    v = I.load(t.st, CL)
                    ok = v == ('init', src) or v == src
                    ctx.check(ok or (None if v[0] not in ('init', 'obj', 'uninit') else False), 'copy', loc_of(f), 'classes of the copy: %s' % show(v)[:60], q + f['sig'] + 'classes')
                ctx.ok('copy', loc_of(f), q + f['sig'])
    C = Cells(roles)
    bands = {TR: [[0, 1, 2], [3, 4, 5]], PR: [[0, 51, 255], [102, 1, 254]]}
    at = [(xi, yi) for xi in range(W) for yi in range(H)]
    states = [dict(ptr=1, bands=bands), dict(ptr=0, bands=bands), dict(ptr=0, bands={})]

    def classes(x, E, t):
        if t[0] == 'call' and t[1].split('::')[-1] == 'size' and t[2] and t[2][0] in (CL, ('init', CL)):
            return x['size']
        if t[0] == 'init' and t[1][0] == 'idx' and t[1][1] == CL:
            i = num(E.ev(t[1][2]))
            if not 0 <= i < x['size']:
                raise Bad('reads the class %s of %d' % (i, x['size']))
            return 1000 + i
        return g(x, E, t)

    def both(b, x, at_):
        return x['bands'][b][at_[1]][at_[0]] if b in x['bands'] else 0
    for f in P.byname.get(TG + '::setTraversability', []):
        given = lambda x, E, t, f=f: x['klass'] if t == P_(f, 0) else x['at'][t == P_(f, 2)] if t in (P_(f, 1), P_(f, 2)) else g(x, E, t)
        judge(ctx, 'cell', f, [dict(s, klass=k, at=a) for s in states for a in at for k in (0, 7, 255)], given,
              lambda x: (None, [('cell', 'this', TR, x['at'][1], x['at'][0], x['klass'])]), C, describe=describe_cell)
    ps = (Fr(0), Fr(1, 255), Fr(1, 3), Fr(1, 2), Fr(254, 255), Fr(1), Fr(101, 100), Fr(3))
    quant = lambda p: min(255, int(p * 255))
    for f in P.byname.get(TG + '::setProbability', []):
        given = lambda x, E, t, f=f: x['p'] if t == P_(f, 0) else x['at'][t == P_(f, 2)] if t in (P_(f, 1), P_(f, 2)) else g(x, E, t)
        judge(ctx, 'cell', f, [dict(s, p=p, at=a) for s in states for a in at for p in ps], given,
              lambda x: (None, [('cell', 'this', PR, x['at'][1], x['at'][0], quant(x['p']))]), C, describe=describe_cell)
    for f in P.byname.get(TG + '::setTraversabilityAndProbability', []):
        given = lambda x, E, t, f=f: {P_(f, 0): x['klass'], P_(f, 1): x['p'], P_(f, 2): x['at'][0], P_(f, 3): x['at'][1]}.get(t, g(x, E, t))
        order = {}
        C2 = Cells(roles)
        ce = C2.effects
        C2.effects = lambda E, evs: sorted(ce(E, evs), key=str)
        judge(ctx, 'cell', f, [dict(s, klass=k, p=p, at=a) for s in states for a in at for k, p in ((3, Fr(1, 2)), (255, Fr(1)))], given,
              lambda x: (None, [('cell', 'this', PR, x['at'][1], x['at'][0], quant(x['p'])), ('cell', 'this', TR, x['at'][1], x['at'][0], x['klass'])]), C2, describe=describe_cell)
    for f in P.byname.get(TG + '::getProbability', []):
        given = lambda x, E, t, f=f: x['at'][t == P_(f, 1)] if t in (P_(f, 0), P_(f, 1)) else g(x, E, t)
        judge(ctx, 'cell', f, [dict(s, at=a) for s in states for a in at], given, lambda x: (Fr(both(PR, x, x['at']), 255), []), C, describe=describe_cell)
    for f in P.byname.get(TG + '::getTraversability', []):
        given = lambda x, E, t, f=f: x['at'][t == P_(f, 1)] if t in (P_(f, 0), P_(f, 1)) else classes(x, E, t)
        judge(ctx, 'class', f, [dict(s, at=a, size=n) for s in states for a in at for n in (0, 1, 3, 6)], given,
              lambda x: (1000 + both(TR, x, x['at']), []) if both(TR, x, x['at']) < x['size'] else ('throw',), C, describe=describe_cell)
    for f in P.byname.get(TG + '::getTraversabilityClass', []):
        given = lambda x, E, t, f=f: x['klass'] if t == P_(f, 0) else classes(x, E, t)
        judge(ctx, 'class', f, [dict(bands={}, klass=k, size=n) for k in (0, 1, 3, 254, 255) for n in (0, 1, 2, 4, 255, 256)], given,
              lambda x: (1000 + x['klass'], []) if x['klass'] < x['size'] else ('throw',), C, describe=describe_cell)
    for nm, new in (('setTraversabilityClass', False), ('registerNewTraversabilityClass', True)):
        for f in P.byname.get('%s::%s' % (TG, nm), []):
            if f.get('body'):
                register(ctx, f, CL, classes, new)
    worst(ctx, CL)


def register(ctx, f, CL, classes, new):
    """the class is found under its number afterwards, the others are as before"""
    name = bname(f['q'])
    try:
        I, tr = run(ctx, f)
        n = 0
        for size in (0, 1, 2, 4, 253, 254, 255, 256):
            for k in ((None,) if new else (0, 1, 2, 3, 254, 255)):
                x = dict(size=size, klass=k, bands={})
                hit, lost = None, None
                for t in tr:
                    def given(E, u):
                        if not new and u == P_(f, 0):
                            return k
                        if u == ('init', D_(f, 1)):
                            return 'the class'
                        return classes(x, E, u)
                    E = GE(I, t, given)
                    try:
                        if not all(E.ev(z) for z in t.facts):
                            continue
                        sz, wr = size, []
                        for e in t.events:
                            if e.kind in ('call', 'ccall') and e.get('this') == CL and e.get('n') == 'resize':
                                sz = num(E.ev(e.args[0]))
                            elif e.kind in ('call', 'ccall') and e.get('this') == CL and e.get('n') == 'push_back':
                                wr.append((sz, E.ev(e.args[0])))
                                sz += 1
                            elif e.kind in ('call', 'ccall') and e.get('this') == CL and e.get('n') not in ('size', 'empty', 'reserve', 'operator[]', 'at', 'capacity'):
                                raise Lost(str(e.get('n')))
                            elif e.kind == 'write' and e.loc[0] == 'idx' and e.loc[1] == CL:
                                i = num(E.ev(e.loc[2]))
                                if not 0 <= i < sz:
                                    raise Bad('writes the class %s of %s' % (i, sz))
                                wr.append((i, E.ev(e.val)))
                        r = E.ev(t.val) if new else 1
                        hit = (sz, wr, r, E.ev(I.load(t.st, D_(f, 0))) if new and r else k)
                        break
                    except Lost as e:
                        lost = str(e)
                if hit is None:
                    raise Lost(lost or 'no path')
                sz, wr, r, num_ = hit
                n += 1
                bad = None
                if not r:
                    if wr or sz != size:
                        bad = 'changes the table although it reports failure'
                    elif size < 255:
                        bad = 'fails with %d classes' % size
                elif wr != [(num_, 'the class')]:
                    bad = 'number %s, but stores %s' % (num_, wr)
                elif sz < size:
                    bad = 'drops classes'
                elif new and (num_ < size or num_ > 255):
                    bad = 'hands out the number %s with %d classes registered' % (num_, size)
                if bad:
                    ctx.bad('class', loc_of(f), '%s: %s' % (name, bad), f['q'])
                    return
        ctx.ok('class', loc_of(f), '%s (%d tables)' % (name, n))
    except Bad as e:
        ctx.bad('class', loc_of(f), '%s %s' % (name, e), f['q'])
    except (Lost, AnalysisError) as e:
        ctx.und('class', loc_of(f), '%s: %s' % (name, e))


def types_of_locals(f):
    r = {}

    def walk(n):
        if isinstance(n, dict):
            if n.get('id') is not None and n.get('name') and n.get('t'):
                r.setdefault(n['id'], n['t'])
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f['body'])
    return r


def worst(ctx, CL):
    """the class of the worst drivability among those counted in the rectangle"""
    from .sim import Eval
    P = ctx.P
    OP = ('computeStatistic', 'getStatisticForClass', 'getHighestTraversabilityClass', 'getClassCount', 'getTotalCount')
    for f in P.byname.get(TG + '::getWorstTraversabilityClassInRectangle', []):
        if not f.get('body'):
            continue
        name, ty = bname(f['q']), types_of_locals(f)
        narrow = lambda l: l[0] == 'var' and ty.get(l[1], '').replace('const ', '') in ('unsigned char', 'uint8_t')
        drv = [x['name'] for x in P.records['envire::TraversabilityClass']['fields']]
        try:
            I, tr = run(ctx, f, opaque=lambda q: q.split('::')[-1] in OP)
            n = 0
            for table_, counts in (([1, Fr(1, 2), Fr(1, 4)], {0: 3, 1: 1}), ([Fr(1, 4), Fr(1, 2), 1], {1: 2, 2: 7}), ([Fr(1, 2), -1, 0, Fr(3, 4)], {0: 1, 2: 1, 3: 1}), ([1, 1, 1], {}), ([1, 1], {3: 1}),
                                   ([Fr(1, 2)] * 256, {255: 2, 7: 1}), ([1] * 255 + [Fr(1, 3)], {255: 1, 0: 9})):
                d = lambda v: max(v, 0)
                c0 = [table_[k] for k in counts if k < len(table_)]
                want = min(map(d, c0)) if len(c0) == len(counts) and counts else None

                def leaf(E, u):
                    if u[0] == 'call':
                        m = u[1].split('::')[-1]
                        if m == 'getHighestTraversabilityClass':
                            return max(counts or [0])
                        if m == 'getTotalCount':
                            return sum(counts.values())
                        if m == 'getClassCount':
                            return counts.get(num(E.ev(u[2][1])), 0)
                        if m == 'size' and u[2][0] in (CL, ('init', CL)):
                            return len(table_)
                    if u[0] == 'out' and u[1][1].endswith('::getStatisticForClass'):
                        k = num(E.ev(u[1][2][1]))
                        if num(E.ev(u[2])) == max(i for i, p in enumerate(g_sig(P)) if 'double' not in p):
                            return counts.get(k, 0)
                        return Fr(2) if k in counts else HUGE
                    if u[0] == 'init' and u[1][0] == 'field' and u[1][1][0] == 'idx' and u[1][1][1] == CL and [u[1][2]] == drv:
                        i = num(E.ev(u[1][1][2]))
                        if not 0 <= i < len(table_):
                            raise Bad('reads the class %s of %d' % (i, len(table_)))
                        return table_[int(i)]
                    if u[0] == 'f' and u[1] == 'max' and not u[2]:
                        return HUGE
                    return None

                class Ev(Eval):
                    exits_first = True

                    def after(self, lid, taken, old, new):
                        for l, v in new.items():
                            if narrow(l) and isinstance(v, (int, Fr)) and v > 255:
                                raise Bad('does not end: the counter %s cannot exceed 255' % l[-1])
                        return new
                hit, lost = None, None
                for t in tr:
                    E = Ev(I, leaf, lambda E, e: None, 300)
                    try:
                        if not E.run(t):
                            continue
                        if t.out == 'throw':
                            hit = 'throw'
                        else:
                            l = t.val.loc if isinstance(t.val, LV) else t.val
                            l = l[1] if l[0] in ('addr', 'init') else l
                            if l[0] != 'idx' or l[1] != CL:
                                raise Lost('result ' + show(l)[:60])
                            i = num(E.ev(l[2]))
                            if not 0 <= i < len(table_):
                                raise Bad('returns the class %s of %d' % (i, len(table_)))
                            hit = d(table_[int(i)]), i in counts
                        break
                    except Lost as e:
                        lost = str(e)
                if hit is None:
                    raise Lost(lost or 'no path')
                n += 1
                if hit != ('throw' if want is None else (want, True)):
                    ctx.bad('class', loc_of(f), '%s: drivabilities %s, counts %s: expected %s, found %s' % (name, shown(tuple(table_[:5])), counts, want, shown(hit)), f['q'])
                    return
            ctx.ok('class', loc_of(f), '%s (%d statistics)' % (name, n))
        except Bad as e:
            ctx.bad('class', loc_of(f), '%s %s' % (name, e), f['q'])
        except (Lost, AnalysisError) as e:
            ctx.und('class', loc_of(f), '%s: %s' % (name, e))


def g_sig(P):
    return [p['t'] for f in P.byname['envire::TraversabilityStatistic::getStatisticForClass'] for p in f['params']]


def statistic(ctx):
    P = ctx.P
    ST, KL = 'envire::TraversabilityStatistic', 'envire::TraversabilityClass'
    # --- classes
    fs = [f for n in ('<ctor>', 'TraversabilityClass') for f in P.byname.get('%s::%s' % (KL, n), []) if f.get('body') and not f.get('implicit')]
    for f in fs:
        if len(f['params']) == 1 and f['params'][0]['t'] == 'double':
            F = [x['name'] for x in P.records[KL]['fields']]
            if len(F) != 1:
                continue
            table(ctx, 'class', f, [(v,) for v in (Fr(-1), Fr(-1, 1000), Fr(0), Fr(1, 2), Fr(1), Fr(11, 10), Fr(5))], lambda x, E, t, f=f: x[0] if t == P_(f, 0) else None,
                  [fld(F[0])], lambda x: (None, x[0]) if 0 <= x[0] <= 1 else ('throw',), what='TraversabilityClass(double)')
    F = [x['name'] for x in P.records[KL]['fields']]
    unset = [f for f in fs if not f['params']]
    start = None
    if len(F) == 1 and unset:
        I, tr = run(ctx, unset[0])
        v = I.load(tr[0].st, fld(F[0]))
        start = v[1] if v[0] == 'n' else None
    if len(F) == 1 and start is not None:
        for nm, val in (('isSet', lambda v: int(v is not None)), ('isTraversable', lambda v: int(v is not None and v > 0)), ('getDrivability', lambda v: Fr(0) if v is None else v)):
            for f in P.byname.get('%s::%s' % (KL, nm), []):
                table(ctx, 'class', f, [(v,) for v in (None, Fr(0), Fr(1, 1000), Fr(1, 2), Fr(1))],
                      lambda x, E, t: (start if x[0] is None else x[0]) if t == ('init', fld(F[0])) else None, [], lambda x, val=val: (val(x[0]),))
    else:
        ctx.und('class', KL, 'members of a class not recognised')
    # --- statistics: histories of measurements through the summaries
    rec = [x['name'] for x in P.records[ST]['fields']]
    add = [f for f in P.byname.get(ST + '::addMeasurement', []) if f.get('body')]
    ini_ = [f for n in ('<ctor>', 'TraversabilityStatistic') for f in P.byname.get('%s::%s' % (ST, n), []) if f.get('body') and not f.get('implicit')]
    get = [f for n in ('getStatisticForClass', 'getClassCount', 'getTotalCount', 'getHighestTraversabilityClass') for f in P.byname.get('%s::%s' % (ST, n), []) if f.get('body')]
    if not add or not ini_ or len(get) < 4:
        raise AnalysisError('M02: statistic not found (anchor lost)')
    try:
        S = summary_start(ctx, ini_[0], rec)
        hist = [[], [(0, 5)], [(255, 5), (255, 3), (255, 4)], [(3, 2), (7, 1), (3, 1), (0, 9)], [(7, 1), (3, 0)], [(1, 4), (1, 4), (254, 2), (255, 1), (1, 6)]]
        for h in hist:
            st = {k: (dict(v, over=dict(v['over'])) if isinstance(v, dict) else v) for k, v in S.items()}
            for k, d in h:
                apply_state(ctx, add[0], st, {P_(add[0], 0): k, P_(add[0], 1): d})
            for f in get:
                nm = bname(f['q'])
                for k in ((0, 1, 3, 7, 254, 255) if f['params'] else (None,)):
                    mine = [d for c, d in h if c == k]
                    r, outs = apply_state(ctx, f, dict(st), {P_(f, 0): k} if k is not None else {}, [D_(f, i) for i in range(1, len(f['params']))])
                    if 'StatisticForClass' in nm:
                        o = {f['params'][i + 1]['t']: v for i, v in enumerate(outs)}
                        got, exp = (o.get('double &') if mine else None, o.get('unsigned long &')), (min(mine) if mine else None, len(mine))
                    else:
                        got, exp = r, {'getClassCount': len(mine), 'getTotalCount': len(h), 'getHighestTraversabilityClass': max([c for c, d in h] or [0])}[nm]
                    if got != exp:
                        ctx.bad('statistic', loc_of(f), '%s: after the measurements %s%s expected %s, found %s' % (nm, h, '' if k is None else ' for class %d' % k, exp, got), f['q'])
                        return
        ctx.ok('statistic', loc_of(add[0]), '%d histories of measurements' % len(hist))
    except Bad as e:
        ctx.bad('statistic', loc_of(add[0]), str(e), add[0]['q'])
    except (Lost, AnalysisError) as e:
        ctx.und('statistic', loc_of(add[0]), 'statistics: %s' % e)


def summary_start(ctx, f, rec):
    """members after construction: numbers, or vectors {size, value, over}"""
    I, tr = run(ctx, f)
    ts = [t for t in tr if t.out != 'throw']
    if len(ts) != 1:
        raise Lost('constructor')
    t = ts[0]
    E = GE(I, t, lambda E, u: HUGE if u[0] == 'f' and u[1] == 'max' and not u[2] else None)
    st = {}
    for k in rec:
        v = I.load(t.st, fld(k))
        rs = [e for e in t.events if e.kind in ('call', 'ccall') and e.get('this') == fld(k)]
        if rs and all(e.n in ('resize', 'assign') for e in rs):
            st[k] = dict(size=num(E.ev(rs[-1].args[0])), value=E.ev(rs[-1].args[1]) if len(rs[-1].args) > 1 else 0, over={})
        elif v[0] == 'obj' and 'vector' in v[1] and v[2]:
            st[k] = dict(size=num(E.ev(v[2][0])), value=E.ev(v[2][1]) if len(v[2]) > 1 and v[2][1][0] != 'obj' else 0, over={})
        else:
            st[k] = E.ev(v)
    return st


def apply_state(ctx, f, st, params, outs=()):
    memo = ctx.__dict__.setdefault('memo_stat', {})
    k = f['q'] + f['sig']
    if k not in memo:
        memo[k] = run(ctx, f)
    I, tr = memo[k]

    def at(v, i):
        if not 0 <= i < v['size']:
            raise Bad('%s: entry %s of %s' % (bname(f['q']), i, v['size']))
        return v['over'].get(i, v['value'])

    def given(E, u):
        if u in params:
            return params[u]
        if u[0] == 'init' and u[1][0] == 'field' and u[1][1] == THIS and not isinstance(st.get(u[1][2]), dict):
            return st[u[1][2]]
        if u[0] == 'init' and u[1][0] == 'idx' and u[1][1][0] == 'field' and u[1][1][1] == THIS:
            return at(st[u[1][1][2]], num(E.ev(u[1][2])))
        if u[0] == 'f' and u[1] == 'max' and not u[2]:
            return HUGE
        return None
    lost = None
    for t in tr:
        E = GE(I, t, given)
        try:
            if not all(E.ev(x) for x in t.facts):
                continue
            new = {}
            for e in t.events:
                if e.kind == 'write' and e.loc[0] == 'idx' and e.loc[1][0] == 'field' and e.loc[1][1] == THIS:
                    i = num(E.ev(e.loc[2]))
                    at(st[e.loc[1][2]], i)
                    new[(e.loc[1][2], i)] = E.ev(e.val)
                elif e.kind == 'write' and e.loc[0] == 'field' and e.loc[1] == THIS:
                    new[(e.loc[2],)] = E.ev(e.val)
            r = t.val
            r = E.ev(('init', r.loc) if isinstance(r, LV) else r) if r is not None and r != ('void',) else None
            o = [E.ev(I.load(t.st, l)) for l in outs]
            for key, v in new.items():
                if len(key) == 1:
                    st[key[0]] = v
                else:
                    st[key[0]] = dict(st[key[0]], over=dict(st[key[0]]['over'], **{}) | {key[1]: v})
            return r, o
        except Lost as e:
            lost = str(e)
    raise Lost(lost or 'no path of ' + f['q'])




PROPS = {'M02': cells}
