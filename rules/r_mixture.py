"""Gaussian mixtures: densities, EM, k-means, the scalar Kalman update."""
import math
from .lib import *
from .content import Resolver, Lost
from . import eqv

MIX = r'^drivers/tools'
G = 'envire::Gaussian<double, %d, envire::EigenAdapter<double, %d>>'
GM = 'envire::GaussianMixture<double, 2, envire::EigenAdapter<double, 2>>'
KM = 'envire::KMeans<%s>' % GM
EM = 'envire::ExpectationMaximization<%s>' % GM
GS = 'envire::GaussianMixtureSampling<%s>' % GM
IDX = lambda *a: ('idx',) + a
FLD = lambda n: ('field', n)


def E(name, *a):
    return ('call', 'Eigen::' + name, tuple(a))


def is_geval(q):
    return q.startswith('envire::Gaussian<') and q.endswith('::eval')


def pos(lo=0.2, hi=3.0):
    return (lo, hi, False)


def rng(t):
    """weights, densities and variances are positive, class indices are in range"""
    if t[0] == 'init' and t[1][0] == 'field' and t[1][2] in ('weight', 'cov', 'sum'):
        return pos()
    if t[0] == 'init' and t[1][0] == 'idx':
        b = t[1][1]
        if b[0] == 'field' and b[2] == 'weights':
            return pos()
        if b[0] == 'field' and b[2] == 'index':
            return lambda it, u: int(u * max(1, it.go(size_of(ini('means')))))
    if t[0] == 'call' and is_geval(str(t[1])):
        return pos(0.01, 2.0)
    if t[0] == 'call' and t[1] == 'size':
        return (1, 4, True)
    if t[0] == 'p' and t[1] in ('weight',):
        return pos()
    return None


def decide(ctx, rid, w, text, key, I, val, spec, facts=(), ranges=rng):
    r = eqv.decide(I, val, spec, facts, ranges)
    if r is None and not eqv.possible(I, facts, ranges):
        ctx.count('paths excluded by the case')
        return None
    return ctx.check(r, rid, w, text, key)


def elem(I, R, tr, loc, path):
    """value of an element of loc at the end of the trace"""
    try:
        return canon(I, R.get(I.load(tr.st, loc), path))
    except Lost:
        return None


def inrange(J, n):
    return [cmp('<=', ZERO, J, True), cmp('<', J, n, True)]


def closed(I, t):
    """loop carried scalars as prefix sums over the iterations done so far"""
    m = {}

    def p(x):
        if x[0] == 'lv' and len(x) == 3 and x not in m:
            m[x] = None
        return False
    contains(t, p)
    for x in list(m):
        lid, loc = x[1], x[2]
        info = I.loops.get(lid)
        if not info:
            return None
        ds = set()
        for facts, evs, out, st in info['traces']:
            if out[0] in ('norm', 'cont'):
                ds.add(sub(I.load(st, loc), x))
        if len(ds) != 1:
            return None
        d = next(iter(ds))
        if contains(d, lambda y: y[0] == 'lv'):
            return None
        d = canon(I, d)
        k = nbv(d)
        m[x] = add(I.load(info['pre'], loc), SUM(('it', lid), subst(d, {('it', lid): ('bv', k)}), k))
    return subst(t, m)


def copied(I, tr, loc, src):
    """does container loc hold a copy of src at the end of the trace: True/False/None"""
    v = I.load(tr.st, loc, False)
    s = ('init', src)
    if v == s:
        return True
    begin = ('begin', src)
    touched = False
    for e in flatten(tr.events):
        if e.kind == 'write' and e.loc == loc:
            touched = True
            if e.val == s:
                return True
        if e.kind in ('call', 'ccall') and e.get('this') == loc and e.get('n') in ('resize', 'assign', 'insert', 'push_back', 'operator=', 'swap', 'clear', 'reserve'):
            touched = True
        if e.kind == 'call' and e.n == 'assign' and e.get('this') == loc and len(e.args) == 2:
            a = e.args
            return rangeof(a[0], a[1], src)
        if e.kind in ('call', 'ccall') and e.n == 'copy' and len(e.args) == 3 and base_of(e.args[2]) == loc:
            return mk3(rangeof(e.args[0], e.args[1], src), resized(tr, loc, src))
    return None if touched else False


def mk3(*xs):
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def base_of(p):
    if p[0] == 'begin':
        return p[1]
    if p[0] == 'call' and str(p[1]).split('::')[-1] == 'begin':
        return None
    if p[0] == 'poly':
        for m, c in p[1]:
            for a, e in m:
                if a[0] == 'begin':
                    return a[1]
    return None


def rangeof(a, b, src):
    if a[0] != 'begin' or a[1] != src:
        ba = base_of(a)
        return False if ba is not None else None
    d = sub(b, a)
    return d == size_of(('init', src))


def resized(tr, loc, src):
    r = None
    for e in flatten(tr.events):
        if e.kind == 'call' and e.get('this') == loc and e.n == 'resize':
            r = e.args[0] == size_of(('init', src))
        if e.kind == 'write' and e.loc == loc and e.val[0] == 'obj':
            r = bool(e.val[2]) and e.val[2][0] == size_of(('init', src))
    return r


# ---------------------------------------------------------------- N01
@units(MIX)
def density(ctx):
    ctx.rule('density', 'the density is (2 pi)^(-D/2) det(S)^(-1/2) exp(-1/2 (x-m)^T S^-1 (x-m)) for D = 2 and D = 3')
    ctx.rule('mixture', 'the mixture density is the weighted sum over all components')
    ctx.rule('normalize', 'normalising keeps the proportions and makes the weights sum to one; all-zero weights become equal')
    ctx.rule('stats', 'the statistics accumulate weight, weighted sum and weighted outer products from zero')
    ctx.rule('moments', 'mean and covariance are the normalised first and central second moments')
    ctx.rule('construct', 'constructors store the mean, covariance and weight they are given')
    for D in (2, 3):
        q = G % (D, D)
        f = fn1(ctx, q + '::eval')
        I, tr = run(ctx, f)
        x = ('init', ('deref', ('p', f['params'][0]['name'])))
        d = sub(x, ini('mean'))
        quad = ('mm', (E('transpose', d), E('inverse', ini('cov')), d))
        spec = mul(mul(('f', 'pow', (('n', Fr(2 * math.pi)), ('n', Fr(-D, 2)))), inv(('f', 'sqrt', (E('determinant', ini('cov')),)))),
                   ('f', 'exp', (mul(N(Fr(-1, 2)), quad),)))
        for t in tr:
            if t.out == 'ret':
                decide(ctx, 'density', loc_of(f), 'Gaussian<%d>::eval returns the normal density' % D, 'Gaussian::eval:density', I, val_of(I, t), spec, t.facts)
    f = fn1(ctx, GM + '::eval')
    I, tr = run(ctx, f, opaque=is_geval)
    s = ('init', ('deref', ('p', f['params'][0]['name'])))
    par = lambda j: ('idx', fld('params'), j)
    ev = lambda j, x: ('call', G % (2, 2) + '::eval', (('init', ('field', par(j), 'dist')), x))
    spec = SUM(size_of(ini('params')), mul(('init', ('field', par(('bv', 0)), 'weight')), ev(('bv', 0), s)), 0)
    for t in tr:
        if t.out == 'ret':
            R = Resolver(I)
            decide(ctx, 'mixture', loc_of(f), 'GaussianMixture::eval sums weight times density over all components', 'GaussianMixture::eval:sum', I,
                   R.value(closed(I, val_of(I, t)) or val_of(I, t)), spec, ranged(I, t.facts))
    # normalize
    f = fn1(ctx, GM + '::normalize')
    I, tr = run(ctx, f)
    J = ('it', 'J')
    n = size_of(ini('params'))
    w = lambda j: ('init', ('field', par(j), 'weight'))
    tot = SUM(n, w(('bv', 0)), 0)
    R = Resolver(I)
    for t in tr:
        if t.out != 'ret':
            continue
        v = elem(I, R, t, fld('params'), [IDX(J), FLD('weight')])
        fs = ranged(I, t.facts) + inrange(J, n)
        decide(ctx, 'normalize', loc_of(f), 'every weight is divided by the sum of all weights', 'normalize:proportion', I, v, div(w(J), tot), fs)

        def zero(x):
            if x[0] == 'init' and x[1][0] == 'field' and x[1][2] == 'weight':
                return (0.0, 0.0, False)
            return rng(x)
        decide(ctx, 'normalize', loc_of(f), 'all-zero weights become equal weights', 'normalize:zero', I, v, inv(n), fs, zero)
        v = elem(I, R, t, fld('params'), [IDX(J), FLD('dist')])
        decide(ctx, 'normalize', loc_of(f), 'the distributions are left alone', 'normalize:dist', I, v, ('init', ('field', par(J), 'dist')), fs)
    # statistics
    q = G % (2, 2) + '::Stats'
    f = fn1(ctx, q + '::<ctor>', lambda f: not f['params'])
    I, tr = run(ctx, f)
    for t in tr:
        for m in ('Sxx', 'Sx', 'sum'):
            v = I.load(t.st, fld(m))
            ok = v == ZERO or (v[0] == 'call' and str(v[1]).endswith('Zero'))
            ctx.check(ok if ok or v[0] in ('n', 'init', 'uninit', 'obj') else None, 'stats', loc_of(f), 'the accumulator %s starts at zero' % m, 'Stats:init:' + m)
    f = fn1(ctx, q + '::insert')
    I, tr = run(ctx, f)
    v, wt = ('init', ('deref', ('p', f['params'][0]['name']))), ('p', f['params'][1]['name'])
    for t in tr:
        if t.out != 'ret':
            continue
        for m, s in (('Sx', mul(v, wt)), ('Sxx', mul(wt, ('mm', (v, E('transpose', v))))), ('sum', wt)):
            decide(ctx, 'stats', loc_of(f), 'insert adds the weighted contribution to %s' % m, 'Stats::insert:' + m, I, I.load(t.st, fld(m)), add(ini(m), s), t.facts)
    f = fn1(ctx, q + '::update')
    I, tr = run(ctx, f)
    mean = div(ini('Sx'), ini('sum'))
    cov = sub(div(ini('Sxx'), ini('sum')), ('mm', (mean, E('transpose', mean))))
    for t in tr:
        if t.out == 'ret':
            v = val_of(I, t)
            for m, s in (('mean', mean), ('cov', cov)):
                decide(ctx, 'moments', loc_of(f), 'update returns the %s of the accumulated samples' % m, 'Stats::update:' + m, I, I.project(v, FLD(m)), s, t.facts)
    nct = 0
    for q, fields in ((G % (2, 2), {'mean': ('mean',), 'cov': ('cov',)}), (GM + '::Parameter', {'weight': ('weight',), 'mean': ('dist', 'mean'), 'cov': ('dist', 'cov'), 'g': ('dist',)})):
        for f in ctx.P.byname.get(q + '::<ctor>', []):
            if f.get('implicit') or not f['params'] or not f.get('body') or '&&' in f['sig']:
                continue
            names = [p['name'] for p in f['params']]
            if len(names) == 1:
                continue
            I, tr = run(ctx, f)
            # the declared order is weight, mean, covariance (or a distribution)
            for p in f['params']:
                ty = p['t']
                if ty in ('double',):
                    path, src = ('weight',), ('p', p['name'])
                elif 'Gaussian<' in ty:
                    path, src = ('dist',), ('init', ('deref', ('p', p['name'])))
                elif 'double, 2, 1' in ty:
                    path, src = ('mean',), ('init', ('deref', ('p', p['name'])))
                else:
                    path, src = ('cov',), ('init', ('deref', ('p', p['name'])))
                if 'Parameter' in q and path[0] in ('mean', 'cov'):
                    path = ('dist',) + path
                for t in tr:
                    if t.out == 'ret':
                        nct += 1
                        decide(ctx, 'construct', loc_of(f), '%s constructor stores %s' % (bname(q), path[-1]), '%s:ctor:%s' % (bname(q), path[-1]), I, I.load(t.st, fld(*path)), src, t.facts)
    ctx.need(nct, 'storing constructors')


def val_of(I, t):
    v = t.val
    if isinstance(v, LV):
        v = I.load(t.st, v.loc)
    return v


def ranged(I, facts):
    """facts usable for interpretation: loop exit facts concern the iteration counters only"""
    return [canon(I, f) for f in facts if not contains(f, lambda x: x[0] in ('itx', 'post', 'lv', 'lvc'))]


# ---------------------------------------------------------------- N02
@units(MIX)
def em(ctx):
    ctx.rule('skip', 'a step without effect happens only without components or with fewer samples than components')
    ctx.rule('loglik', 'a step returns the average log likelihood of the samples under the mixture before the step')
    ctx.rule('weight', 'new weight = responsibility mass of the component / total sample weight')
    ctx.rule('mean', 'new mean = responsibility weighted mean of the samples')
    ctx.rule('cov', 'new covariance = responsibility weighted covariance around the new mean')
    ctx.rule('remove', 'a component is removed exactly when its mass is negligible or not a number')
    ctx.rule('remove-order', 'removal does not shift the index of components still to be removed')
    ctx.rule('run', 'iteration stops after the given number of steps or when the likelihood change is within the given bound')
    ctx.rule('initialize', 'initialisation copies samples and weights, clusters them, and builds normalised components of all clusters')
    ctx.rule('sample', 'a sample is drawn from the first component whose cumulative weight reaches the drawn number')
    f = fn1(ctx, EM + '::step')
    I, tr = run(ctx, f, opaque=is_geval)
    R = Resolver(I)
    params = fld('gmm', 'params')
    k, n = size_of(('init', params)), size_of(ini('samples'))
    X = lambda i: ('init', ('idx', fld('samples'), i))
    par = lambda j: ('idx', params, j)
    W0 = lambda j: ('init', ('field', par(j), 'weight'))
    ev = lambda j, i: ('call', G % (2, 2) + '::eval', (('init', ('field', par(j), 'dist')), X(i)))
    wt = lambda i: ite(cmp('==', size_of(ini('weights')), ZERO, True), ONE, ('init', ('idx', fld('weights'), i)))
    lik = lambda i: SUM(k, mul(W0(('bv', 0)), ev(('bv', 0), i)), 0)
    gam = lambda i, j: div(mul(wt(i), mul(W0(j), ev(j, i))), lik(i))
    b1, b2 = ('bv', 1), ('bv', 2)
    nj = lambda j: SUM(n, gam(b1, j), 1)
    Wt = ite(cmp('==', size_of(ini('weights')), ZERO, True), n, SUM(size_of(ini('weights')), ('init', ('idx', fld('weights'), b1)), 1))
    mean = lambda j: div(SUM(n, mul(gam(b1, j), X(b1)), 1), nj(j))
    c = lambda i, j: sub(X(i), mean(j))
    cov = lambda j: div(('SUM', n, mul(gam(b2, j), ('mm', (c(b2, j), E('transpose', c(b2, j))))), b2), nj(j))
    ll = div(('SUM', n, ('f', 'log', (lik(b1),)), b1), n)

    def sized(t):
        if t == size_of(ini('weights')):
            return lambda it, u: 0 if u < 0.4 else it.go(n)
        return rng(t)
    step = 0
    for t in tr:
        if t.out != 'ret':
            continue
        loops = [e for e in t.events if e.kind == 'loop']
        if not loops:
            goal = mk_or([cmp('==', k, ZERO, True), cmp('<', n, k, True)])
            free = lambda x: (0, 4, True) if x[0] == 'call' and x[1] == 'size' else rng(x)
            wit = eqv.witness(I, goal, ranged(I, t.facts), free)
            ctx.check(wit is None, 'skip', loc_of(f), 'the step is skipped only without components or with too few samples', 'EM::step:skip')
            continue
        step += 1
        decide(ctx, 'loglik', loc_of(f), 'the returned value is the average log likelihood', 'EM::step:loglik', I, safe(R, closed(I, val_of(I, t))), ll, ranged(I, t.facts), sized)
        for field, path, spec in (('weight', ('weight',), lambda j: div(nj(j), Wt)), ('mean', ('dist', 'mean'), mean), ('cov', ('dist', 'cov'), cov)):
            last = None
            for L in loops:
                if any(writes_to(e, params, path) for e, _ in walk_events([L])):
                    last = L
            if last is None:
                ctx.bad(field, loc_of(f), 'no loop of the step stores the %s of the components' % field, 'EM::step:%s' % field)
                continue
            lid = last.lid
            J = ('it', lid)
            cnt = I.loops[lid].get('count')
            ctx.check(eqv.decide(I, canon(I, cnt) if cnt is not None else None, k, ranged(I, t.facts), sized), field, loc_of(f),
                      'the %s of every component is updated' % field, 'EM::step:%s:all' % field)
            hit = 0
            for facts, evs, out, st in I.loops[lid]['traces']:
                if out[0] not in ('norm', 'cont'):
                    continue
                loc = par(J)
                for a in path:
                    loc = ('field', loc, a)
                v = I.load(st, loc)
                fs = []
                for x in ranged_body(facts, lid):
                    y = safe(R, x)
                    if y is not None:
                        fs.append(y)
                fs = ranged(I, t.facts) + fs + inrange(J, k) + [cmp('<', N(Fr(1, 1000)), nj(J), False)]
                v = safe(R, v)
                r = eqv.decide(I, v, spec(J), fs, sized)
                if r is not None:
                    hit += 1
                if r is None and not any(True for _ in eqv.samples(I.types, fs, sized, want=1, tries=400)):
                    continue
                ctx.check(r, field, loc_of(f), 'the stored %s is the responsibility weighted one' % field, 'EM::step:' + field)
            if not hit:
                ctx.und(field, loc_of(f), 'value of the %s' % field)
        removal(ctx, f, I, R, t, loops, params, nj, k, sized)
    ctx.need(step, 'updating path of EM::step')
    nanrule(ctx, f)
    run_rule(ctx)
    init_rule(ctx)
    sample_rule(ctx)


def safe(R, v):
    if v is None:
        return None
    return R.value(v)


def ranged_body(facts, lid):
    return [f for f in facts if not contains(f, lambda x: x[0] in ('itx', 'post'))]


def writes_to(e, params, path):
    if e.kind != 'write':
        return False
    l, p = e.loc, []
    while l[0] == 'field' and l != params:
        p.insert(0, l[2])
        l = l[1]
    return l[0] == 'idx' and l[1] == params and (tuple(p) == tuple(path) or tuple(path)[:len(p)] == tuple(p))


def removal(ctx, f, I, R, t, loops, params, nj, k, sized):
    """components pushed on the removal list / erased"""
    erases = [(e, p) for e, p in walk_events(t.events) if e.kind == 'call' and e.get('n') == 'erase' and e.get('this') == params]
    if not erases:
        ctx.check(None if uses_algo(t) else False, 'remove', loc_of(f), 'negligible components are removed', 'EM::step:remove')
        return
    pushes = []
    for L in loops:
        for facts, evs, out, st in L.traces:
            for e in evs:
                if e.kind == 'call' and e.get('n') in ('push_back', 'push_front', 'insert') and e.get('this') != params and e.get('this') is not None and e.this[0] == 'var':
                    pushes.append((L, e))
    lids = {L.lid for L, _ in pushes}
    for lid in lids:
        J = ('it', lid)
        lists = {e.this for L, e in pushes if L.lid == lid}
        for facts, evs, out, st in I.loops[lid]['traces']:
            if out[0] not in ('norm', 'cont'):
                continue
            pe = [e for e in evs if e.kind == 'call' and e.get('this') in lists and e.get('n') in ('push_back', 'push_front', 'insert')]
            fs = [safe(R, x) for x in facts if not contains(x, lambda y: y[0] in ('itx', 'post'))]
            if any(x is None for x in fs):
                ctx.und('remove', loc_of(f), 'condition of the removal')
                continue
            fs = ranged(I, t.facts) + fs + inrange(J, k)
            small = cmp('<', nj(J), N(Fr(2, 10000)), False)
            big = cmp('<', N(Fr(2, 100000)), nj(J), False)

            def mixed(x):
                if x[0] == 'call' and is_geval(str(x[1])):
                    return lambda it, u: [1e-7, 0.5][int(u * 2)] * (0.5 + u)
                return sized(x)
            goal = small if pe else big
            wit = eqv.witness(I, goal, fs, mixed, tries=2500)
            ctx.check(wit is None, 'remove', loc_of(f), 'components %s the removal threshold are %s' % (('below', 'removed') if pe else ('above', 'kept')),
                      'EM::step:remove')
            for e in pe:
                ctx.check(True if e.args[-1] == J else (None if eqv.foreign(e.args[-1], J) else False), 'remove', where(e), 'the index of the component itself is listed', 'EM::step:remove-index')
    for e, path in erases:
        a = e.args[0]
        off = None
        if a[0] == 'poly':
            rest = ZERO
            for m, cc in a[1]:
                if any(x[0] == 'begin' and x[1] == params for x, _ in m):
                    continue
                rest = add(rest, frompoly({m: cc}))
            off = rest
        if off is None or not path:
            ctx.und('remove-order', where(e), 'order of removal')
            continue
        lid = path[-1][0].lid
        ctx.check(descending(I, off, lid), 'remove-order', where(e), 'components are erased from the last to the first', 'EM::step:remove-order')


def descending(I, off, lid):
    """True: the erased positions decrease; False: they increase; None: unknown"""
    it = ('it', lid)
    s = show(off)
    if contains(off, lambda x: x[0] == 'call' and str(x[1]).split('::')[-1] in ('rbegin', 'crbegin')):
        return True
    # element of the list at a position linear in the iteration
    pos_ = []

    def p(x):
        if x[0] == 'idx' and len(x) == 3 and x[1][0] == 'var' or x[0] == 'sub' and len(x) == 4 and x[2] == 'idx':
            pos_.append(x[2] if x[0] == 'idx' else x[3])
        return False
    contains(off, p)
    for q in pos_:
        c = topoly(q).get(((it, 1),))
        if c is not None:
            return c < 0
    if contains(off, lambda x: x[0] == 'begin') and contains(off, lambda x: x == it):
        return False
    c = topoly(off).get(((it, 1),))
    if c is not None:
        return True if c < 0 else None
    return None


def uses_algo(t):
    return any(e.kind in ('call', 'ccall') and e.get('n') in ('remove_if', 'erase', 'swap', 'resize', 'stable_partition', 'operator=', 'assign') for e in flatten(t.events))


def nanrule(ctx, f):
    """three valued evaluation of the removal condition for a mass that is not a number"""
    hits = []

    def names(x):
        out = set()

        def w(y):
            if isinstance(y, dict):
                if y.get('k') == 'call':
                    c = y.get('callee') or {}
                    out.add(c.get('n') or y.get('n'))
                    out.add(y.get('name'))
                for v in y.values():
                    w(v)
            elif isinstance(y, list):
                for v in y:
                    w(v)
        w(x)
        return out

    def ev(x):
        if not isinstance(x, dict):
            return None
        k = x.get('k')
        if k in ('paren', 'cast', 'icast', 'cleanup', 'ewc'):
            return ev(x.get('e'))
        if k == 'un' and x.get('op') == '!':
            v = ev(x.get('e'))
            return None if v is None else not v
        if k == 'bin':
            op = x.get('op')
            a, b = x.get('a') or x.get('lhs') or x.get('l_'), x.get('b') or x.get('rhs') or x.get('r')
            if op in ('&&', '||'):
                u, v = ev(a), ev(b)
                if op == '||':
                    return True if u or v else (None if u is None or v is None else False)
                return False if u is False or v is False else (None if u is None or v is None else True)
            if op in ('<', '<=', '>', '>=', '=='):
                return False if is_fl(a) else None
            if op == '!=':
                return True if is_fl(a) else None
        if k == 'call' and 'isnan' in str(x.get('callee', x.get('n', ''))):
            return True
        return None

    def is_fl(a):
        return isinstance(a, dict) and ('double' in str(a.get('t', '')) or 'float' in str(a.get('t', '')) or 'Scalar' in str(a.get('t', '')))

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'if':
                th = x.get('then') or x.get('th') or x.get('a')
                if mentions_push(th):
                    hits.append((x, ev(x.get('c'))))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    def mentions_push(x):
        return 'push_back' in repr(x)
    walk(f['body'])
    if len(hits) != 1:
        ctx.und('remove', loc_of(f), 'removal of components whose mass is not a number')
        return
    ctx.check(hits[0][1], 'remove', loc_of(f), 'a component whose mass is not a number is removed', 'EM::step:remove-nan')


def run_rule(ctx):
    f = fn1(ctx, EM + '::run')
    I, tr = run(ctx, f, opaque=lambda q: q == EM + '::step')
    delta, mx = ('p', f['params'][0]['name']), ('p', f['params'][1]['name'])
    seen = 0
    for lid, info in I.loops.items():
        body = [b for b in info['traces']]
        st_calls = [[e for e in evs if e.kind == 'call' and e.get('n') == 'step'] for _, evs, _, _ in body]
        if not any(st_calls):
            continue
        seen += 1
        # number of steps bounded by max_iter: every iteration that performs a step is taken with it < max_iter
        for (facts, evs, out, st), cs in zip(body, st_calls):
            if not cs:
                continue
            ctx.check(len(cs) == 1, 'run', loc_of(f), 'one step per iteration', 'EM::run:one-step')
            fs = [x for x in facts if not contains(x, lambda y: y[0] in ('lv', 'call'))]
            goal = cmp('<', ('it', lid), mx, True)

            def rr(x):
                if x == mx:
                    return (0, 3, True)
                if x == ('it', lid):
                    return (0, 5, True)
                return None
            wit = eqv.witness(I, goal, fs, rr)
            ctx.check(wit is None if not any(contains(x, lambda y: y[0] == 'lv') and contains(x, lambda y: y == mx) for x in facts) else None,
                      'run', loc_of(f), 'no step is made after the given number of steps', 'EM::run:max-iter')
            # continuing is guarded by change > delta
            res = cs[0].res
            guards = [x for x in facts if contains(x, lambda y: y == delta)]
            ok = None
            for g in guards:
                lvs = []
                contains(g, lambda y: lvs.append(y) or False if y[0] == 'lv' else False)
                for lv in set(lvs):
                    if lv[1] != lid:
                        continue
                    fin = I.load(st, lv[2])
                    prev = [z for z in _lvs(fin) if z[1] == lid]
                    if not prev and contains(fin, lambda z: z == res):
                        ok = False
                        ctx.bad('run', loc_of(f), 'the change is not taken against the step before', 'EM::run:previous')
                    if len(prev) != 1:
                        continue
                    spec = ('f', 'abs', (sub(res, prev[0]),))
                    ok = eqv.equal(I, fin, spec, (), None)
                    ctx.check(ok, 'run', loc_of(f), 'the change is the absolute difference of consecutive likelihoods', 'EM::run:change')
                    ctx.check(I.load(st, prev[0][2]) == res, 'run', loc_of(f), 'the previous likelihood is the one of the step before', 'EM::run:previous')
                    want = cmp('<', delta, lv, False)
                    ctx.check(eqv.equal(I, g, want), 'run', loc_of(f), 'iteration continues while the change exceeds the bound', 'EM::run:delta')
                    v0 = I.load(info['pre'], lv[2])
                    ctx.check(v0[0] == 'n' and v0[1] >= 1 if v0[0] == 'n' else None, 'run', loc_of(f), 'the first step is not suppressed', 'EM::run:first')
            if ok is None:
                if guards:
                    ctx.und('run', loc_of(f), 'convergence test')
                else:
                    ctx.check(None if any(contains(x, lambda y: y == delta) for x in sum((list(b[0]) for b in body), [])) else False,
                              'run', loc_of(f), 'iteration stops when the change is within the bound', 'EM::run:delta')
    ctx.need(seen, 'iteration of EM::run')


def _lvs(t):
    s = set()
    contains(t, lambda y: s.add(y) or False if y[0] == 'lv' else False)
    return s


def init_rule(ctx):
    f = fn1(ctx, EM + '::initialize')
    op = lambda q: q.startswith(KM + '::') or q == GM + '::normalize'
    I, tr = run(ctx, f, opaque=op)
    nc, s, w = [p['name'] for p in f['params']]
    S, Wp = ('deref', ('p', s)), ('deref', ('p', w))
    params = fld('gmm', 'params')
    seen = 0
    for t in tr:
        if t.out != 'ret':
            continue
        seen += 1
        ctx.check(copied(I, t, fld('samples'), S), 'initialize', loc_of(f), 'the samples are copied', 'EM::initialize:samples')
        ctx.check(copied(I, t, fld('weights'), Wp), 'initialize', loc_of(f), 'the weights are copied', 'EM::initialize:weights')
        order_ = [e for e in flatten(t.events) if e.kind in ('call', 'ccall')]
        ki = [i for i, e in enumerate(order_) if e.q == KM + '::initialize']
        kr = [i for i, e in enumerate(order_) if e.q == KM + '::run']
        kg = [i for i, e in enumerate(order_) if e.q == KM + '::getClusters']
        cl = [i for i, e in enumerate(order_) if e.get('this') == params and e.n in ('clear', 'swap', 'operator=', 'assign') or e.get('this') == params and e.n == 'resize' and e.args and e.args[0] == ZERO]
        pb = [i for i, e in enumerate(order_) if e.get('this') == params and e.n in ('push_back', 'emplace_back')]
        nm = [i for i, e in enumerate(order_) if e.q == GM + '::normalize']
        ctx.check(bool(ki and kr and kg) and ki[0] < kr[0] < kg[0], 'initialize', loc_of(f), 'samples are clustered before the clusters are read', 'EM::initialize:cluster')
        if ki:
            e = order_[ki[0]]
            a = e.args
            ctx.check(a[0] == ('p', nc), 'initialize', where(e), 'the requested number of classes is clustered', 'EM::initialize:classes')
            ctx.check(a[1] == ('init', S) or e.argl[1] == fld('samples'), 'initialize', where(e), 'the samples are clustered', 'EM::initialize:km-samples')
            ctx.check(len(a) > 2 and (a[2] == ('init', Wp) or e.argl[2] == fld('weights')), 'initialize', where(e), 'the weights take part in the clustering', 'EM::initialize:km-weights')
        if not pb:
            ctx.und('initialize', loc_of(f), 'components are built from the clusters')
        else:
            ctx.check(bool(cl) and cl[0] < pb[0] if cl else (False if not any(e.kind == 'write' and e.loc == params for e in flatten(t.events)) else None),
                      'initialize', loc_of(f), 'components of an earlier run are dropped', 'EM::initialize:clear')
        ctx.check(bool(nm) and (not pb or nm[-1] > pb[-1]), 'initialize', loc_of(f), 'the weights are normalised after all components are added', 'EM::initialize:normalize')
        for e, path in walk_events(t.events):
            if e.kind == 'call' and e.get('this') == params and e.n == 'push_back' and path:
                lid = path[-1][0].lid
                if not kg:
                    continue
                res = order_[kg[0]].res
                v = e.args[0]
                d = I.project(v, FLD('dist'))
                wv = I.project(v, FLD('weight'))
                src = ('sub', res, 'idx', ('it', lid))
                ctx.check(d == src if not eqv.foreign(d, src) else None, 'initialize', where(e), 'each component takes the distribution of its cluster', 'EM::initialize:dist')
                ctx.check(wv[0] == 'n' and wv[1] > 0 if wv[0] == 'n' else None, 'initialize', where(e), 'components start with equal positive weight', 'EM::initialize:weight')
                cnt = I.loops[lid].get('count')
                ctx.check(None if cnt is None else cnt == size_of(res), 'initialize', where(e), 'every cluster becomes a component', 'EM::initialize:all')
                fs = [x for x in path[-1][1][0] if contains(x, lambda y: y[0] == 'it')]
                ctx.check(len(path[-1][0].traces) == 1 or None, 'initialize', where(e), 'no cluster is skipped', 'EM::initialize:skip')
    ctx.need(seen, 'path of EM::initialize')


def sample_rule(ctx):
    f = fn1(ctx, GS + '::sample')
    I, tr = run(ctx, f)
    R = Resolver(I)
    P_ = ('field', ('deref', ('init', fld('gmm'))), 'params')
    rets = [t for t in tr if t.out == 'ret']
    ctx.need(len(rets), 'returning path of sample')
    for t in rets:
        its = set()
        v = val_of(I, t)
        contains(v, lambda x: its.add(x) or False if x[0] == 'it' else False)
        # the component the mean is taken from
        comp = set()
        contains(v, lambda x: comp.add(x[1][1]) or False if x[0] == 'field' and x[2] == 'dist' and x[1][0] == 'idx' and False else False)
        idx = set()

        def g(x):
            if x[0] == 'field' and x[2] == 'dist' and x[1][0] == 'idx':
                idx.add(x[1])
            return False
        contains(v, g)
        if len(idx) != 1:
            ctx.check(False if len(idx) > 1 else None, 'sample', loc_of(f), 'mean and covariance come from one component', 'sample:component')
            continue
        el = next(iter(idx))
        J = el[2]
        if J[0] != 'it':
            ctx.und('sample', loc_of(f), 'selection of the component')
            continue
        lid = J[1]
        wgt = lambda j: ('init', ('field', ('idx', el[1], j), 'weight'))
        draws = [e for e, _ in walk_events(t.events) if e.kind in ('call', 'ccall') and e.get('n') == 'operator()' and e.get('this') == fld('rand_uni')]
        ctx.check(len(draws) == 1, 'sample', loc_of(f), 'one number is drawn for the selection', 'sample:draw')
        if len(draws) == 1:
            r = draws[0].res
            cum = SUM(add(J, ONE), wgt(('bv', 0)), 0)
            spec = cmp('<=', r, cum, False)
            n = size_of(('init', el[1]))
            cond = []
            for x in t.facts:
                if contains(x, lambda y: y == r):
                    y = closed(I, x)
                    cond.append(canon(I, y) if y is not None else None)

            def rr(x):
                if x == r:
                    return (0.0, 1.0, False)
                if x[0] == 'init' and x[1][0] == 'field' and x[1][2] == 'weight':
                    return (0.0, 0.5, False)
                if x == n:
                    return (1, 4, True)
                return None
            ctx.check(None if not cond or any(c is None for c in cond) else eqv.decide(I, mk_and(cond), spec, inrange(J, n), rr),
                      'sample', loc_of(f), 'the component is the first whose cumulative weight reaches the drawn number', 'sample:cumulative')
        mean, cov = ('init', ('field', ('field', el, 'dist'), 'mean')), ('init', ('field', ('field', el, 'dist'), 'cov'))
        d = sub(v, mean)
        ok = None
        if d[0] == 'mm' and len(d[1]) == 2:
            L, z = d[1]
            ok = contains(L, lambda x: x == cov) and contains(L, lambda x: x[0] == 'call' and str(x[1]).endswith('matrixL'))
            ctx.check(True if ok else (None if not contains(L, lambda x: x == cov) or True else False), 'sample', loc_of(f), 'the offset is scaled by the Cholesky factor of the covariance', 'sample:factor')
            for dim in range(2):
                try:
                    zi = R.get(z, [IDX(N(dim))])
                except Lost:
                    zi = None
                good = None
                if zi is not None:
                    good = zi[0] == 'call' and str(zi[1]).endswith('operator()') and contains(zi, lambda x: x == fld('rand_norm'))
                    if not good and eqv.heads(zi) - {('obj',)}:
                        good = None
                ctx.check(good, 'sample', loc_of(f), 'coordinate %d of the offset is a standard normal number' % dim, 'sample:normal')
        else:
            ctx.check(None if eqv.foreign(v, mean) else False, 'sample', loc_of(f), 'the sample is mean plus scaled normal offset', 'sample:value')
    thr = [b for info in I.loops.values() for b in info['traces'] if b[2][0] == 'throw']
    ctx.check(not thr, 'sample', loc_of(f), 'no error before all components were tried', 'sample:throw')


# ---------------------------------------------------------------- N03
@units(MIX)
def kmeans(ctx):
    ctx.rule('means', 'the mean of a class is the weighted mean of the samples assigned to it, classes without samples have none')
    ctx.rule('tree', 'the search structure holds exactly the current means under their class index')
    ctx.rule('assign', 'every sample is assigned to the class of the nearest mean and the number of changed assignments is returned')
    ctx.rule('run', 'assignment and mean computation alternate until no assignment changes')
    ctx.rule('clusters', 'clusters are the weighted moments of the classes that have samples')
    ctx.rule('initialize', 'initialisation copies the data and seeds every class with a different sample')
    n, nm = size_of(ini('samples')), size_of(ini('means'))
    X = lambda i: ('init', ('idx', fld('samples'), i))
    C = lambda i: ('init', ('idx', fld('index'), i))
    wt = lambda i: ite(cmp('==', size_of(ini('weights')), ZERO, True), ONE, ('init', ('idx', fld('weights'), i)))
    b = ('bv', 0)

    def msum(j, d):
        return ('SUM', n, ite(cmp('==', sub(C(b), j), ZERO, True), d(b), ZERO), b)
    sw = lambda j: msum(j, wt)
    sx = lambda j: msum(j, lambda i: mul(wt(i), X(i)))
    sxx = lambda j: msum(j, lambda i: mul(wt(i), ('mm', (X(i), E('transpose', X(i))))))

    def sized(t):
        if t == size_of(ini('sum')):
            return lambda it, u: it.go(nm)
        if t == size_of(ini('index')):
            return lambda it, u: it.go(n)
        if t == size_of(ini('weights')):
            return lambda it, u: 0 if u < 0.4 else it.go(n)
        return rng(t)
    # calcMeans
    f = fn1(ctx, KM + '::calcMeans')
    I, tr = run(ctx, f)
    R = Resolver(I)
    kd = fld('kdtree')
    rets = [t for t in tr if t.out == 'ret']
    ctx.need(len(rets), 'path of calcMeans')
    for t in rets:
        ins = [(e, p) for e, p in walk_events(t.events) if e.kind == 'call' and e.get('this') == kd and e.n == 'insert']
        top = [e for e in t.events]
        clr = [i for i, e in enumerate(top) if e.kind == 'call' and e.get('this') == kd and e.n == 'clear']
        fst = [i for i, e in enumerate(top) if e.kind == 'loop' and any(x is y for x, _ in walk_events([e]) for y, _ in ins)]
        ctx.check(bool(clr) and (not fst or clr[0] < fst[0]), 'tree', loc_of(f), 'old means leave the search structure', 'calcMeans:clear')
        ctx.check(bool(ins), 'tree', loc_of(f), 'new means enter the search structure', 'calcMeans:insert')
        for e, path in ins:
            if not path:
                ctx.und('tree', where(e), 'insertion')
                continue
            L, body = path[-1]
            lid = L.lid
            J = ('it', lid)
            cnt = I.loops[lid].get('count')
            ctx.check(None if cnt is None else eqv.decide(I, canon(I, cnt), nm, (), sized), 'tree', where(e), 'every class is considered', 'calcMeans:all')
            fs = [safe(R, x) for x in body[0]]
            v = e.args[0]
            idx = I.project(v, FLD('idx'))
            ctx.check(idx == J if not eqv.foreign(idx, J) else None, 'tree', where(e), 'the mean is filed under its class', 'calcMeans:idx')
            while v[0] == 'upd' and any(a[0][0] == 'field' for a in v[2]):
                v = v[1]
            if any(x is None for x in fs):
                fs = None
            decide(ctx, 'means', where(e), 'the inserted mean is the weighted mean of the class', 'calcMeans:mean', I, safe(R, v), div(sx(J), sw(J)),
                   (fs or []) + inrange(J, nm), sized)
            if fs is not None:
                wit = eqv.witness(I, cmp('<', ZERO, sw(J), False), fs + inrange(J, nm), sized)
                ctx.check(wit is None, 'means', where(e), 'classes without samples get no mean', 'calcMeans:empty')
            for facts, evs, out, st in L.traces:
                if any(x.kind == 'call' and x.get('this') == kd and x.n == 'insert' for x in evs) or out[0] not in ('norm', 'cont'):
                    continue
                fs2 = [safe(R, x) for x in facts]
                if any(x is None for x in fs2):
                    ctx.und('tree', where(e), 'skipped classes')
                    continue
                wit = eqv.witness(I, cmp('<=', sw(J), ZERO, False), fs2 + inrange(J, nm), sized)
                ctx.check(wit is None, 'tree', where(e), 'only classes without samples are skipped', 'calcMeans:skip')
    # associateSamples
    f = fn1(ctx, KM + '::associateSamples')
    I, tr = run(ctx, f)
    R = Resolver(I)
    for t in tr:
        if t.out != 'ret':
            continue
        near = {}
        for e, p in walk_events(t.events):
            if e.kind in ('call', 'ccall') and e.get('n') == 'find_nearest':
                near.setdefault(e.res, (e, p))
        near = list(near.values())
        if len(near) != 1 or not near[0][1]:
            ctx.check(None if near else False, 'assign', loc_of(f), 'the nearest mean of every sample is looked up', 'associate:lookup')
            continue
        e, path = near[0]
        lid = path[-1][0].lid
        it = ('it', lid)
        a = e.args[0]
        while a[0] == 'upd':
            a = a[1]
        ctx.check(a == X(it) if not eqv.foreign(a, X(it)) else None, 'assign', where(e), 'the sample itself is looked up', 'associate:sample')
        cnt = I.loops[lid].get('count')
        ctx.check(None if cnt is None else eqv.decide(I, canon(I, cnt), n, (), sized), 'assign', where(e), 'every sample is assigned', 'associate:all')
        J = ('it', 'J')
        new = lambda i: subst(('init', ('field', ('deref', ('sub', e.res, 'field', 'first')), 'idx')), {it: i})
        v = elem(I, R, t, fld('index'), [IDX(J)])
        trunc_ok = lambda x: x[1] if x is not None and x[0] in ('u', 'trunc') else x

        def rr(x):
            if x[0] == 'init' and x[1][0] == 'field' and x[1][2] == 'idx':
                return (0, 2, True)
            return sized(x)
        decide(ctx, 'assign', loc_of(f), 'the class of the nearest mean is stored for the sample', 'associate:index', I, v, new(J), inrange(J, n), rr)
        b1 = ('bv', 1)
        spec = SUM(n, ite(cmp('==', sub(new(b1), C(b1)), ZERO, True), ZERO, ONE), 1)
        decide(ctx, 'assign', loc_of(f), 'the number of changed assignments is returned', 'associate:switches', I, safe(R, val_of(I, t)), spec, ranged(I, t.facts), rr)
    # run
    f = fn1(ctx, KM + '::run')
    I, tr = run(ctx, f, opaque=lambda q: q in (KM + '::associateSamples', KM + '::calcMeans'))
    for t in tr:
        if t.out != 'ret':
            continue
        cs = [e for e in flatten(t.events) if e.kind == 'call' and e.get('n') in ('associateSamples', 'calcMeans')]
        ctx.check({e.n for e in cs} == {'associateSamples', 'calcMeans'}, 'run', loc_of(f), 'both phases take part', 'KMeans::run:phases')
        last = [e for e in t.events if e.kind == 'call' and e.get('n') in ('associateSamples', 'calcMeans')]
        if last:
            e = last[-1]
            if e.n == 'calcMeans':
                ctx.bad('run', where(e), 'the run ends with a mean computation no assignment follows', 'KMeans::run:end')
            else:
                wit = eqv.witness(I, cmp('==', e.res, ZERO, True), [x for x in t.facts if not contains(x, lambda y: y[0] in ('itx',))], lambda x: (0, 2, True) if x == e.res else None)
                ctx.check(wit is None, 'run', where(e), 'the run ends only when no assignment changed', 'KMeans::run:end')
        else:
            ctx.und('run', loc_of(f), 'end of the run')
    # getClusters
    f = fn1(ctx, KM + '::getClusters')
    I, tr = run(ctx, f)
    z = ctx.P.byname[G % (2, 2) + '::Stats::<ctor>'][0]
    I0, t0 = run(ctx, z)

    def base(Xv, path):
        if Xv[0] == 'obj' and 'Stats' in Xv[1] and 'vector' in Xv[1] and len(path) == 2 and path[0][0] == 'idx' and path[1][0] == 'field':
            v = I0.load(t0[0].st, fld(path[1][1]))
            return v if v[0] == 'n' else None
        return None
    R = Resolver(I, base)
    got = 0
    for t in tr:
        if t.out != 'ret':
            continue
        for e, path in walk_events(t.events):
            if not (e.kind == 'call' and e.n == 'push_back' and path):
                continue
            L, body = path[-1]
            lid = L.lid
            J = ('it', lid)
            v = e.args[0]
            fs = [safe(R, x) for x in body[0]]
            if any(x is None for x in fs):
                ctx.und('clusters', where(e), 'condition of a cluster')
                fs = []
            mean = div(sx(J), sw(J))
            for m, spec in (('mean', mean), ('cov', sub(div(sxx(J), sw(J)), ('mm', (mean, E('transpose', mean)))))):
                got += 1
                decide(ctx, 'clusters', where(e), 'the cluster has the weighted %s of its samples' % m, 'getClusters:' + m, I, safe(R, I.project(v, FLD(m))), spec, fs + inrange(J, nm), sized)
            if fs:
                wit = eqv.witness(I, cmp('<', ZERO, sw(J), False), fs + inrange(J, nm), sized)
                ctx.check(wit is None, 'clusters', where(e), 'classes without samples yield no cluster', 'getClusters:empty')
            cnt = I.loops[lid].get('count')
            ctx.check(None if cnt is None else eqv.decide(I, canon(I, cnt), nm, (), sized), 'clusters', where(e), 'every class is considered', 'getClusters:all')
            for facts, evs, out, st in L.traces:
                if any(x.kind == 'call' and x.n == 'push_back' for x in evs):
                    continue
                fs2 = [safe(R, x) for x in facts]
                if any(x is None for x in fs2):
                    continue
                wit = eqv.witness(I, cmp('<=', sw(J), ZERO, False), fs2 + inrange(J, nm), sized)
                ctx.check(wit is None, 'clusters', where(e), 'every class with samples yields a cluster', 'getClusters:skip')
    if not got:
        ctx.und('clusters', loc_of(f), 'clusters')
    # initialize
    f = fn1(ctx, KM + '::initialize')
    I, tr = run(ctx, f)
    nc, s, w = [p['name'] for p in f['params']]
    S, Wp = ('deref', ('p', s)), ('deref', ('p', w))
    NC, n = ('p', nc), size_of(('init', S))
    for t in tr:
        if t.out != 'ret':
            continue
        ctx.check(copied(I, t, fld('samples'), S), 'initialize', loc_of(f), 'the samples are copied', 'KMeans::initialize:samples')
        ctx.check(copied(I, t, fld('weights'), Wp), 'initialize', loc_of(f), 'the weights are copied', 'KMeans::initialize:weights')
        for m, want in (('index', n), ('means', NC), ('sum', NC)):
            rs = [e for e in flatten(t.events) if e.kind == 'call' and e.get('this') == fld(m) and e.n in ('resize', 'assign')]
            ctx.check(eqv.decide(I, rs[-1].args[0], want, ranged(I, t.facts)) if rs else None, 'initialize', loc_of(f), '%s has one entry per %s' % (m, 'sample' if m == 'index' else 'class'), 'KMeans::initialize:' + m)
        ins = [(e, p) for e, p in walk_events(t.events) if e.kind == 'call' and e.get('this') == kd and e.n == 'insert']
        ctx.check(bool(ins), 'initialize', loc_of(f), 'classes are seeded', 'KMeans::initialize:seed')
        clr = [e for e in flatten(t.events) if e.kind == 'call' and e.get('this') == kd and e.n == 'clear']
        ctx.check(bool(clr), 'initialize', loc_of(f), 'seeds of an earlier run are dropped', 'KMeans::initialize:clear')
        for e, path in ins:
            if not path:
                ctx.und('initialize', where(e), 'seed')
                continue
            lid = path[-1][0].lid
            J = ('it', lid)
            v = e.args[0]
            idx = I.project(v, FLD('idx'))
            ctx.check(idx == J if not eqv.foreign(idx, J) else None, 'initialize', where(e), 'the seed is filed under its class', 'KMeans::initialize:idx')
            while v[0] == 'upd':
                v = v[1]
            cnt = I.loops[lid].get('count')
            ctx.check(None if cnt is None else eqv.decide(I, canon(I, cnt), NC, ranged(I, t.facts)), 'initialize', where(e), 'every class is seeded', 'KMeans::initialize:all')
            if v[0] == 'init' and v[1][0] == 'idx' and v[1][1] in (S, fld('samples')):
                at = v[1][2]
                fs = ranged(I, t.facts) + inrange(J, NC)

                def rr(x):
                    if x == NC:
                        return (1, 6, True)
                    if x == n:
                        return (1, 9, True)
                    if x == J or x == ('it', 'K'):
                        return (0, 5, True)
                    return None
                wit = eqv.witness(I, mk_and(inrange(at, n)), fs, rr)
                ctx.check(wit is None if not eqv.foreign(at, add(NC, n)) else None, 'initialize', where(e), 'the seed is one of the samples', 'KMeans::initialize:range')
                K = ('it', 'K')
                nxt = subst(at, {J: K})
                wit = eqv.witness(I, cmp('!=', sub(nxt, at), ZERO, True), fs + inrange(K, NC) + [cmp('!=', sub(J, K), ZERO, True)], rr)
                ctx.check(wit is None if not eqv.foreign(at, add(NC, n)) else None, 'initialize', where(e), 'different classes start from different samples', 'KMeans::initialize:distinct')
            else:
                ctx.und('initialize', where(e), 'seed value')


# ---------------------------------------------------------------- N04
@units(MIX)
def kalman(ctx):
    ctx.rule('mean', 'the fused mean is the variance weighted average of state and measurement')
    ctx.rule('stdev', 'the fused deviation is the root of the product over the sum of the variances')
    ctx.rule('zero', 'two exact values are averaged without producing a value that is not a number')
    fs = [f for q, v in ctx.P.byname.items() if bname(q) == 'kalman_update' for f in v if f.get('body')]
    ctx.need(len(fs), 'kalman_update')
    for f in fs:
        I, tr = run(ctx, f)
        m, s, mm_, ms = [p['name'] for p in f['params']]
        M, S = ('init', ('deref', ('p', m))), ('init', ('deref', ('p', s)))
        Z, T = ('p', mm_), ('p', ms)
        v, mv = mul(S, S), mul(T, T)
        smean = div(add(mul(M, mv), mul(Z, v)), add(v, mv))
        sdev = ('f', 'sqrt', (div(mul(v, mv), add(v, mv)),))

        def rr(x):
            return pos(0.1, 3.0) if x in (S, T) else None

        def zz(x):
            return (0.0, 0.0, False) if x in (S, T) else None

        def one(z):
            return lambda x: (0.0, 0.0, False) if x == z else (pos(0.1, 3.0) if x in (S, T) else None)
        for t in tr:
            if t.out != 'ret':
                continue
            fm, fd = I.load(t.st, ('deref', ('p', m))), I.load(t.st, ('deref', ('p', s)))
            for rg, what in ((rr, ''), (one(S), ' of an exact state'), (one(T), ' of an exact measurement')):
                if not any(True for _ in eqv.samples(I.types, t.facts, rg, want=1, tries=300)):
                    continue
                decide(ctx, 'mean', loc_of(f), 'mean after fusing%s' % what, 'kalman_update:mean', I, fm, smean, t.facts, rg)
                decide(ctx, 'stdev', loc_of(f), 'deviation after fusing%s' % what, 'kalman_update:stdev', I, fd, sdev, t.facts, rg)
            its = list(eqv.samples(I.types, t.facts, zz, want=8, tries=300))
            if its:
                bad = False
                for it in its:
                    try:
                        if not eqv.near(it.go(fm), (it.go(M) + it.go(Z)) / 2.0) or not eqv.near(it.go(fd), 0):
                            bad = True
                    except eqv.Undefined:
                        bad = True
                ctx.check(not bad if not eqv.foreign(fm, smean) else None, 'zero', loc_of(f), 'fusing two exact values gives their average', 'kalman_update:zero')


PROPS = {'N01': density, 'N02': em, 'N03': kmeans, 'N04': kalman}
