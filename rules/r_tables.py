"""Distance / angle lookup tables (BoxLookUpTable, RadialLookUpTable)."""
from .lib import *
from . import eqv


def final(I, tr, f):
    """value of field f at the end of the trace"""
    return I.load(tr.st, fld(f))


def fields_of(ctx, cls):
    r = ctx.P.records.get(cls)
    if not r:
        raise AnalysisError('class %s not found' % cls)
    return [f['name'] for f in r['fields']]


def table_loc(val):
    """(table field, index term) of a returned element reference"""
    if isinstance(val, LV) and val.loc[0] == 'idx' and len(val.loc) == 3:
        b = val.loc[1]
        if b[0] == 'deref' and b[1][0] == 'init' and b[1][1][0] == 'field' and b[1][1][1] == THIS:
            return b[1][1][2], val.loc[2]
    return None, None


def retvals(tr):
    return [t for t in tr if t.out == 'ret']


def drop_u(t):
    m = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in m:
            return m[x]
        if x[0] == 'u':
            r = go(x[1])
        elif x[0] == 'poly':
            r = ZERO
            for mo, c in x[1]:
                y = ('n', c)
                for a, e in mo:
                    b = go(a)
                    for _ in range(abs(e)):
                        y = mul(y, b if e > 0 else inv(b))
                r = add(r, y)
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        m[x] = r
        return r
    return go(t)


def allocs(tr, ptr):
    for e in flatten(tr.events):
        if e.kind == 'new' and e.ptr == ptr:
            yield e


def table_writes(tr, root_):
    """(event, enclosing loops) of stores into the allocated block"""
    for e, path in walk_events(tr.events):
        if e.kind == 'write' and e.loc[0] == 'idx' and e.loc[1] == root_:
            yield e, path


def path_facts(e, path, tr):
    fs = list(e.facts)
    return fs


def box_ranges(params, pts):
    def r(t):
        if t[0] == 'p' and t[1] in params:
            k = params.index(t[1])
            return [(0.05, 0.7, False), (0.3, 3.0, False), (0.3, 3.0, False), (0.2, 2.0, False)][k]
        if t in pts:
            return (-4.0, 4.0, False)
        return None
    return r


def pair_ranges(pairs, base):
    """fields are interpreted close to, equal to or away from the parameter they are compared with"""
    def r(t):
        if t in pairs:
            par = pairs[t]

            def f(it, u):
                v = it.go(par)
                u4 = u * 4
                d = [0.0, 1e-8, 0.31, -0.29][int(u4)]
                return v + d
            return f
        return base(t)
    return r


def fact_pairs(facts, fields, params):
    """(field, parameter) occurring together in one comparison"""
    pairs = {}

    def scan(f):
        if f[0] in ('and', 'or'):
            for x in f[1]:
                scan(x)
            return
        if f[0] == 'not':
            scan(f[1])
            return
        if f[0] != 'cmp':
            return
        fs = [x for x in fields if contains(f, lambda y: y == ini(x))]
        ps = [p for p in params if contains(f, lambda y: y == ('p', p))]
        if len(fs) == 1 and len(ps) == 1:
            pairs[ini(fs[0])] = ('p', ps[0])
    for f in facts:
        scan(f)
    return pairs


def same_params(params, renamed, le=()):
    """parameters P (first call) stay valid for P' (second call)"""
    gs = []
    for p in params:
        d = sub(('p', p), ('p', renamed[p]))
        if p in le:
            gs.append(cmp('<=', ('p', renamed[p]), add(('p', p), N(Fr(1, 1000))), False))
        else:
            gs.append(cmp('<', d, N(Fr(1, 1000)), False))
            gs.append(cmp('<', neg(d), N(Fr(1, 1000)), False))
    return mk_and(gs)


def cache_rule(ctx, rid, cls, fn, I, traces, rebuilt, le, base):
    """a call that keeps the old table must not happen for other parameters than the table was built for"""
    params = [p['name'] for p in fn['params']]
    fields = fields_of(ctx, cls)
    keep = [t for t in traces if t.out == 'ret' and not rebuilt(t)]
    build = [t for t in traces if t.out == 'ret' and rebuilt(t)]
    ctx.need(len(build), 'rebuilding path in %s' % fn['q'])
    if not keep:
        ctx.ok(rid, loc_of(fn), '%s always rebuilds' % fn['n'])
        return
    ren = {p: p + "'" for p in params}
    for k in keep:
        pairs = fact_pairs(k.facts, fields, params)
        bad = None
        for b in build:
            fin = {ini(f): final(I, b, f) for f in fields}
            # second call: parameters renamed, fields as the first call left them
            m = {('p', p): ('p', ren[p]) for p in params}
            f2 = [subst(subst(f, m), fin) for f in k.facts]
            inv_pairs = {}
            for fi, p in pairs.items():
                # the second parameter is chosen near the value the field holds after the first call
                inv_pairs[('p', ren[p[1]])] = fin[fi]

            def base2(t):
                if t[0] == 'p' and t[1].endswith("'"):
                    return base(('p', t[1][:-1]))
                if t[0] == 'init':
                    return (0.05, 3.0, False)
                return base(t)
            goal = same_params(params, ren, le)
            w = eqv.witness(I, goal, f2, pair_ranges(inv_pairs, base2), tries=3000)
            if w is not None:
                bad = w
                break
        ctx.check(bad is None, rid, loc_of(fn), 'the path of %s that keeps the existing table is only taken for the parameters the table was built with' % fn['n'],
                  '%s:stale-table' % fn['q'])


@units(*TOOLS)
def box(ctx):
    P = ctx.P
    cls = 'envire::BoxLookUpTable'
    ctx.rule('lookup-safe', 'every element reference returned by the lookup is guarded: table present, row and column inside the allocated extent')
    ctx.rule('lookup-outside', 'the lookup never answers for a point outside the area covered by the table')
    ctx.rule('cover', 'every point within the configured distance of the box has a table cell')
    ctx.rule('fill-value', 'the value folded into a cell is the maximum of the old value and the Euclidean distance of the sample to the box')
    ctx.rule('fill-index', 'samples are filed under the index the lookup computes for the same point')
    ctx.rule('fill-cover', 'the sampling covers the whole area with steps not larger than a cell')
    ctx.rule('init', 'every cell is initialised before values are folded in')
    ctx.rule('cache', 'an existing table is only kept for the parameters it was built with')
    ctx.rule('centre', 'the box centre lies in the middle of a cell')
    look = fn1(ctx, cls + '::getDistanceToBox')
    rec = fn1(ctx, cls + '::recompute')
    IL, tl = run(ctx, look)
    IR, tr = run(ctx, rec)
    IR.types.update(IL.types)
    params = [p['name'] for p in rec['params']]
    q = [p['name'] for p in look['params']]
    qx, qy = ('p', q[0]), ('p', q[1])
    rets = retvals(tl)
    ctx.need(len(rets), 'returning path of getDistanceToBox')
    T = None
    for t in rets:
        f, ix = table_loc(t.val)
        if f:
            T = f
    if T is None:
        raise AnalysisError('lookup does not return an element of a table member')
    rebuilt = lambda t: final(IR, t, T) != ini(T) and final(IR, t, T)[0] == 'addr'
    build = [t for t in tr if t.out == 'ret' and rebuilt(t)]
    ctx.need(len(build), 'rebuilding path of recompute')
    base = box_ranges(params, (qx, qy))
    fields = fields_of(ctx, cls)
    # lookup-safe ------------------------------------------------------------------------------
    for t in rets:
        f, ix = table_loc(t.val)
        if f != T:
            ctx.und('lookup-safe', loc_of(look), 'returned reference not understood: %s' % show(t.val.loc if isinstance(t.val, LV) else t.val))
            continue
        nn = IL.entails(t.facts, cmp('!=', ini(T), ZERO, True))
        ctx.check(bool(nn), 'lookup-safe', loc_of(look), 'the table pointer is known to be set when an element is returned', look['q'] + ':null-table')
        verdict = True
        for b in build:
            p = final(IR, b, T)
            al = list(allocs(b, p))
            if not al:
                verdict = None
                continue
            size = drop_u(al[0].size)
            fin = {ini(x): final(IR, b, x) for x in fields}
            fin.pop(ini(T))
            six = drop_u(subst(ix, fin))
            sf = [drop_u(subst(x, fin)) for x in t.facts]
            r = index_proved(IR, six, size, sf)
            if not r:
                g = mk_and([cmp('<=', ZERO, six, True), cmp('<', six, size, True)])
                w = eqv.witness(IR, g, list(b.facts_in) + sf if hasattr(b, 'facts_in') else sf, with_table(base))
                if w is not None:
                    verdict = False
                    break
                # row / column individually: a wrapped column is a wrong cell even inside the block
                verdict = None
        ctx.check(verdict, 'lookup-safe', loc_of(look), 'returned element lies inside the allocated block: index %s' % show(ix)[:120], look['q'] + ':index-bound')
    # per rebuild path ---------------------------------------------------------------------------
    for n, b in enumerate(build):
        fin = {ini(x): final(IR, b, x) for x in fields}
        fin.pop(ini(T))
        p = final(IR, b, T)
        pf = param_facts(b, params)
        for t in rets:
            f, ix = table_loc(t.val)
            if f != T:
                continue
            six = drop_u(subst(ix, fin))
            sf = [drop_u(subst(x, fin)) for x in t.facts]
            # geometry of the covered area, from the last row/column the guard admits
            half = [scale(('p', params[1]), Fr(1, 2)), scale(('p', params[2]), Fr(1, 2))]
            m = ('p', params[3])
            inside = mk_and([cmp('<', c, add(h, m), False) for c, h in ((qx, half[0]), (qy, half[1]))] +
                            [cmp('<', neg(c), add(h, m), False) for c, h in ((qx, half[0]), (qy, half[1]))])
            throws = [x for x in tl if x.out == 'throw' and cmp('==', ini(T), ZERO, True) not in x.facts]
            bad = None
            for x in throws:
                xf = [drop_u(subst(y, fin)) for y in x.facts] + pf
                w = eqv.witness(IR, negate(inside), xf + [inside], with_table(inside_ranges(base, qx, qy, params)), tries=1500)
                if w is not None:
                    bad = w
            ctx.check(bad is None, 'cover', loc_of(rec), 'points within the configured distance of the box are answered', rec['q'] + ':area-not-covered')
            # a returned point must not lie more than one cell outside the area
            far = mk_and([cmp('<=', c, add(add(h, m), scale(('p', params[0]), 2)), False) for c, h in ((qx, half[0]), (qy, half[1]))] +
                         [cmp('<=', neg(c), add(add(h, m), scale(('p', params[0]), 2)), False) for c, h in ((qx, half[0]), (qy, half[1]))])
            w = eqv.witness(IR, far, sf + pf, with_table(wide_ranges(base, qx, qy)), tries=4000)
            ctx.check(w is None, 'lookup-outside', loc_of(look), 'points outside the table are rejected', look['q'] + ':outside-accepted')
            ws = list(table_writes(b, p[1]))
            val_rule(ctx, IR, b, rec, look, ws, six, qx, qy, half, m, params, base, pf, fin, sf)
    cache_rule(ctx, 'cache', cls, rec, IR, tr, rebuilt, (params[3],), base)


def with_table(base):
    def r(t):
        if t[0] == 'init' and t[1][0] == 'field' and t[1][1] == THIS:
            return (1, 1000, True)
        return base(t)
    return r


def inside_ranges(base, qx, qy, params):
    def r(t):
        for c, k in ((qx, 1), (qy, 2)):
            if t == c:
                def f(it, u, k=k):
                    h = it.go(('p', params[k])) / 2 + it.go(('p', params[3]))
                    if u < 0.15:
                        return -h * 0.99999
                    if u > 0.85:
                        return h * 0.99999
                    return (u - 0.5) * 2.6 * h
                return f
        return base(t)
    return r


def wide_ranges(base, qx, qy):
    def r(t):
        if t in (qx, qy):
            return (-8.0, 8.0, False)
        return base(t)
    return r


def param_facts(b, params):
    """facts of the path that only speak about the parameters (branches of the derived values)"""
    out = []
    for f in b.facts:
        if contains(f, lambda x: x[0] in ('init', 'it', 'itx', 'sum', 'last', 'lv', 'post', 'lvc', 'heap', 'new')):
            continue
        out.append(f)
    return out


def index_proved(I, ix, size, facts):
    """size = A*B, ix = A*r + c with 0<=c<A, 0<=r<B"""
    sp = topoly(size)
    if len(sp) != 1:
        return False
    (mono, c), = sp.items()
    if c != 1 or sum(e for _, e in mono) != 2:
        return False
    atoms = []
    for a, e in mono:
        atoms += [a] * e
    for A, B in ((atoms[0], atoms[1]), (atoms[1], atoms[0])):
        r, cc = {}, {}
        for mo, k in topoly(ix).items():
            d = dict(mo)
            if d.get(A, 0) >= 1:
                d[A] -= 1
                key = tuple((a, e) for a, e in mo if a != A) if d[A] == 0 else None
                if key is None:
                    return False
                r[key] = r.get(key, 0) + k
            else:
                cc[mo] = cc.get(mo, 0) + k
        r, cc = frompoly(r), frompoly(cc)
        goals = [cmp('<=', ZERO, r, True), cmp('<', r, B, True), cmp('<=', ZERO, cc, True), cmp('<', cc, A, True)]
        F = I.F(facts)
        if all(F.entails(g) for g in goals):
            return True
    return False


def val_rule(ctx, I, b, rec, look, ws, six, qx, qy, half, m, params, base, pf, fin, sf):
    zero, fold = [], []
    for e, path in ws:
        (zero if e.val == ZERO and not any(True for _ in ()) else fold).append((e, path))
    p = final(I, b, None) if False else None
    if not fold:
        ctx.und('fill-value', loc_of(rec), 'no recognisable store of distances into the table')
        return
    # initialisation
    init = bool(zero)
    for e, path in walk_events(b.events):
        if e.kind == 'new' and e.get('init'):
            init = True
        if e.kind == 'call' and e.n in ('fill', 'fill_n', 'memset', 'uninitialized_fill', 'uninitialized_fill_n'):
            init = True
        if e.kind == 'write' and e.val[0] == 'filled':
            init = True
    readsold = any(contains(e.val, lambda x: x == strip(e.old)) for e, _ in fold) or any(contains(f, lambda x: x == strip(e.old)) for e, _ in fold for f in e.facts)
    ctx.check(init or not readsold, 'init', where(fold[0][0]), 'cells are initialised before the maximum is folded in', rec['q'] + ':uninitialised-cells')
    groups = {}
    for e, path in fold:
        ix = drop_u(e.loc[2])
        lv = sorted({x for x in subterms(ix) if x and x[0] in ('lv', 'it')}, key=order)
        if len(lv) != 2:
            # sample positions computed from integer counters, or something else
            ctx.und('fill-index', where(e), 'sample loop not understood: %s' % show(ix)[:100])
            continue
        groups.setdefault((ix, tuple(lv)), []).append((e, path))
    for (ix, lv), es in groups.items():
        e0, path0 = es[0]
        if all(x[0] == 'lv' for x in lv):
            cand = [((lv[0], lv[1]), {qx: lv[0], qy: lv[1]}), ((lv[1], lv[0]), {qx: lv[1], qy: lv[0]})]
        else:
            ctx.und('fill-index', where(e0), 'sample loop over integer counters')
            continue

        def rng(t, lv=lv):
            if t in lv:
                return (-5.0, 5.0, False)
            if t[0] == 'sub':
                return (0.0, 3.0, False)
            return base(t)
        facts = [drop_u(f) for f in e0.facts if relevant(f, lv)] + pf
        facts = [f for f in facts if not unknown_except(f, lv)]
        for v in lv:
            # a counter that only grows never falls below its start value
            info = I.loops[v[1]]
            st_ = I.load(info['pre'], v[2])
            steps = {sub(s2.mem[v[2]], v) for _, _, o, s2 in info['traces'] if o[0] == 'norm' and v[2] in s2.mem}
            if steps and all(eqv.witness(I, cmp('<=', ZERO, s, False), pf, base, tries=100) is None for s in steps) and not unknown(st_):
                facts.append(cmp('<=', st_, v, False))
        pick = None
        for (a, bb), mm in cand:
            tgt = subst(six, mm)
            r = eqv.equal(I, ix, tgt, facts, rng)
            if r:
                pick = (a, bb)
                break
        if pick is None:
            ctx.bad('fill-index', where(e0), 'sample (x,y) is stored at %s, which is not the cell the lookup reads for (x,y)' % show(ix)[:160], rec['q'] + ':index-mismatch')
            continue
        ctx.ok('fill-index', where(e0), 'fill and lookup agree on the cell of a point')
        X, Y = pick
        absd = lambda v, h: ('f', 'max', (sub(('f', 'abs', (v,)), h), ZERO))
        dx, dy = absd(X, half[0]), absd(Y, half[1])
        D = ('f', 'sqrt', (add(mul(dx, dx), mul(dy, dy)),))
        for e, path in es:
            old = strip(e.old)
            fs = [drop_u(f) for f in e.facts if relevant(f, lv + (old,))] + pf
            fs = [f for f in fs if not unknown_except(f, lv + (old,))]
            r = eqv.equal(I, e.val, ('f', 'max', (D, old)), fs, rng)
            ctx.check(r, 'fill-value', where(e), 'stored value is max(old, distance of the sample to the box)', rec['q'] + ':stored-distance')
        # sampling
        for v, h, nm in ((X, half[0], 'x'), (Y, half[1], 'y')):
            info = I.loops[v[1]]
            start = I.load(info['pre'], v[2])
            lim = add(h, m)
            g = cmp('<=', start, add(neg(lim), scale(('p', params[0]), Fr(1, 10))), False)
            w = eqv.witness(I, g, pf, rng, tries=400)
            ctx.check(w is None, 'fill-cover', where(e0), 'sampling of %s starts at the low border' % nm, rec['q'] + ':sampling-start-' + nm)
            # the guard admits everything below the high border
            body = [t for t in info['traces']]
            steps = set()
            for fs_, evs_, o, s2 in body:
                if o[0] == 'norm':
                    vf = s2.mem.get(v[2])
                    if vf is not None:
                        steps.add(sub(vf, v))
            okstep = True
            for s in steps:
                g = mk_and([cmp('<', ZERO, s, False), cmp('<=', s, ('p', params[0]), False)])
                if eqv.witness(I, g, pf, rng, tries=400) is not None:
                    okstep = False
            ctx.check(okstep if steps else None, 'fill-cover', where(e0), 'sampling step of %s is positive and at most one cell' % nm, rec['q'] + ':sampling-step-' + nm)
            # the exit facts of the loop: guard false must imply v >= lim (within one step)
            gf = info.get('gfalse')
            if gf is not None:
                g = cmp('<=', sub(lim, scale(('p', params[0]), Fr(1, 5))), v, False)
                badx = any(eqv.witness(I, g, nf + pf, rng, tries=600) is not None for nf in gf)
                ctx.check(not badx, 'fill-cover', where(e0), 'sampling of %s reaches the high border' % nm, rec['q'] + ':sampling-end-' + nm)
    # box centre in the middle of a cell: lookup index steps at +-scale/2 around 0
    for c, nm in ((qx, 'x'), (qy, 'y')):
        d = scale(('p', params[0]), Fr(49, 100))
        a = subst(six, {qx: ZERO, qy: ZERO})
        r1 = eqv.equal(I, subst(six, {c: d, (qy if c == qx else qx): ZERO}), a, pf, base)
        r2 = eqv.equal(I, subst(six, {c: neg(d), (qy if c == qx else qx): ZERO}), a, pf, base)
        ctx.check((r1 and r2) if r1 is not None and r2 is not None else None, 'centre', loc_of(rec), 'the %s centre of the box is the middle of a cell' % nm, rec['q'] + ':centre-' + nm)


def strip(v):
    return v


def relevant(f, lv):
    return contains(f, lambda x: x in lv)


def unknown_except(f, lv):
    """mentions loop state other than lv (ignoring what hides inside an excepted term)"""
    found = [False]

    def go(x):
        if found[0] or not isinstance(x, tuple) or not x:
            return
        if x in lv:
            return
        if x[0] in ('lv', 'post', 'last', 'lvc', 'sum', 'itx', 'it', 'SUM?'):
            found[0] = True
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(f)
    return found[0]


@units(*TOOLS)
def radial(ctx):
    cls = 'envire::RadialLookUpTable'
    ctx.rule('lookup-cell', 'the element returned for (x,y) was filled with the value of the offset (x*scale, y*scale)')
    ctx.rule('alloc', 'tables are allocated with as many elements as are filled and read')
    ctx.rule('range', 'offsets within the radius index inside the table')
    ctx.rule('cache', 'existing tables are only kept for the parameters they were built with')
    rec = fn1(ctx, cls + '::recompute')
    I, tr = run(ctx, rec)
    params = [p['name'] for p in rec['params']]
    sc = ('p', params[0])
    fields = fields_of(ctx, cls)

    def base(t):
        if t == sc:
            return (0.04, 0.5, False)
        if t == ('p', params[1]):
            return (0.6, 4.0, False)
        if t[0] == 'it':
            return (0, 12, True)
        return None
    tabs = {}
    for name in ('getDistance', 'getAngle'):
        fn = fn1(ctx, cls + '::' + name)
        IL, tl = run(ctx, fn)
        I.types.update(IL.types)
        q = [p['name'] for p in fn['params']]
        for t in retvals(tl):
            T, ix = table_loc(t.val)
            if T is None:
                ctx.und('lookup-cell', loc_of(fn), 'returned reference not understood')
                continue
            tabs.setdefault(T, []).append((name, fn, ('p', q[0]), ('p', q[1]), drop_u(ix), t))
    ctx.need(len(tabs), 'lookup table member')
    rebuilt = lambda t: all(final(I, t, T) != ini(T) for T in tabs)
    anyb = lambda t: any(final(I, t, T) != ini(T) for T in tabs)
    build = [t for t in tr if t.out == 'ret' and anyb(t)]
    ctx.need(len(build), 'rebuilding path of recompute')
    if len(tabs) < 2:
        ctx.bad('lookup-cell', loc_of(rec), 'distance and angle lookups read the same table', cls + ':shared-table')
    for b in build:
        fin = {ini(x): final(I, b, x) for x in fields}
        pf = param_facts(b, params)
        for T, ls in tabs.items():
            p = final(I, b, T)
            if p[0] != 'addr':
                ctx.bad('lookup-cell', loc_of(rec), 'recompute changes the parameters without rebuilding %s' % T, cls + ':not-rebuilt-' + T)
                continue
            al = list(allocs(b, p))
            for name, fn, qx, qy, ix, t in ls:
                six = drop_u(subst(ix, {k: v for k, v in fin.items() if k != ini(T)}))
                want = {'getDistance': ('f', 'sqrt', (add(mul(mul(qx, sc), mul(qx, sc)), mul(mul(qy, sc), mul(qy, sc))),)),
                        'getAngle': ('f', 'atan2', (mul(qy, sc), mul(qx, sc)))}[name]
                done = False
                for e, path in table_writes(b, p[1]):
                    wix = drop_u(e.loc[2])
                    its = sorted({x for x in subterms(wix) if x and x[0] == 'it'}, key=order)
                    if len(its) != 2 or len(path) < 2:
                        ctx.und('lookup-cell', where(e), 'fill loop not understood')
                        done = True
                        continue
                    done = True
                    # which offset makes fill index = lookup index: shift candidates are the integer members
                    shifts = [ZERO] + [v for k, v in fin.items() if v[0] in ('trunc', 'poly', 'f')] + [neg(v) for v in fin.values() if v[0] in ('trunc',)]
                    sol = None
                    for s in shifts:
                        for a, c in ((its[0], its[1]), (its[1], its[0])):
                            m = {a: add(qx, s), c: add(qy, s)}
                            if drop_u(subst(wix, m)) == six:
                                sol = (m, s, a, c)
                                break
                        if sol:
                            break
                    if sol is None:
                        ctx.bad('lookup-cell', where(e), '%s reads element %s but the table is filled by %s' % (name, show(six)[:80], show(wix)[:80]), '%s::%s:index-mismatch' % (cls, name))
                        continue
                    m, s, a, c = sol

                    def rng(t, qx=qx, qy=qy):
                        if t in (qx, qy):
                            return (-6, 6, True)
                        return base(t)
                    val = subst(e.val, m)
                    r = eqv.equal(I, val, want, pf, rng)
                    ctx.check(r, 'lookup-cell', where(e), '%s(x,y) yields the value of the offset (x,y)' % name, '%s::%s:value' % (cls, name))
                    # extent
                    n = None
                    cnts = [I.loops[x[1]]['count'] for x in (a, c)]
                    if al and None not in cnts:
                        size = drop_u(al[-1].size)
                        prod = drop_u(mul(cnts[0], cnts[1]))
                        r = eqv.equal(I, size, prod, pf, base)
                        if r is False:
                            w = eqv.witness(I, cmp('<=', prod, size, True), pf, base)
                            r = w is None
                        ctx.check(r, 'alloc', where(al[-1]), '%s is allocated for all elements that are filled' % T, '%s:alloc-%s' % (cls, T))
                        # every offset inside the radius is inside the filled range
                        g = []
                        for qv, cn in ((qx, cnts[0]), (qy, cnts[1])):
                            g += [cmp('<=', ZERO, add(qv, s), True), cmp('<', add(qv, s), drop_u(cn), True)]
                        lim = ('f', 'floor', (div(('p', params[1]), sc),))
                        ins = [cmp('<', qv, lim, True) for qv in (qx, qy)] + [cmp('<', neg(qv), lim, True) for qv in (qx, qy)]
                        w = eqv.witness(I, mk_and(g), ins + pf, rng, tries=3000)
                        ctx.check(w is None, 'range', where(e), 'offsets smaller than the radius are inside %s' % T, '%s:range-%s' % (cls, T))
                odd = [e for e in flatten(b.events) if (e.kind == 'write' and root(e.loc) != ('deref', ('this',)) and contains(e.loc, lambda x: x[0] in ('lv', 'it', 'deref')) and root(e.loc)[0] != 'heap' and not (root(e.loc)[0] == 'deref' and root(e.loc)[1] == ('this',)))
                       or e.kind == 'call' and e.n not in ('operator<<',)]
                if not done and odd:
                    ctx.und('lookup-cell', where(odd[0]), '%s is filled through a construct outside the rule' % T)
                elif not done:
                    ctx.bad('lookup-cell', loc_of(rec), 'no path of recompute fills %s' % T, cls + ':unfilled-' + T)
    cache_rule(ctx, 'cache', cls, rec, I, tr, rebuilt, (), base)


PROPS = {'T01': box, 'T02': radial}
