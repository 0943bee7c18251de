"""Transforms with uncertainty: composition and inversion of transforms and their covariances."""
from .lib import *
from .worlds import Lost, Prune
from .sim import product
from .algebra import *
from .r_events import body_of

T = 'envire::TransformWithUncertainty'
PT = 'envire::PointWithUncertainty'


# ------------------------------------------------------------ the published propagation rules
def dq_by_dr(q):
    r = q.scaled_axis()
    th2 = (r.T() * r).r[0][0]
    ka = ser(Fr(1, 2)) - th2 * Fr(1, 48)
    la = ser(Fr(1, 24)) - th2 * Fr(1, 960)
    return stack(q.vec().T() * Fr(-1, 2), eye(3) * ka - (r * r.T()) * la)


def dr_by_dq(q):
    v, s = q.vec(), q.q[0].sign()
    s = 1 if s > 0 else -1
    mu2 = (v.T() * v).r[0][0]
    tau = (ser(1) + mu2 * Fr(1, 6)) * (2 * s)
    nu = (ser(Fr(2, 3)) + mu2 * Fr(1, 5)) * (-2 * s)
    return side(v * -2, eye(3) * tau + (v * v.T()) * nu)


def left(q):
    return stack(side(zero(1, 1), -q.vec().T()), side(q.vec(), skew(q.vec()))) + eye(4) * q.q[0]


def right(q):
    return stack(side(zero(1, 1), -q.vec().T()), side(q.vec(), -skew(q.vec()))) + eye(4) * q.q[0]


def drx_by_dr(q, x):
    r = q.scaled_axis()
    th2 = (r.T() * r).r[0][0]
    al, be = ser(1) - th2 * Fr(1, 6), ser(Fr(1, 2)) - th2 * Fr(1, 24)
    ga, de = ser(Fr(-1, 3)) + th2 * Fr(1, 30), ser(Fr(-1, 12)) + th2 * Fr(1, 180)
    rr, S, X = r * r.T(), skew(r), skew(x)
    return -(X * (rr * ga - S * be + eye(3) * al)) - S * X * (rr * de + eye(3) * (be * 2))


class Unset(Mat):
    """a value that was never set; everything computed from it is unset"""

    def __init__(self):
        self.r, self.dims = [[ser(0)] * 3] * 3, (3, 3)

    def __add__(self, o):
        return self
    __mul__ = __sub__ = __radd__ = __rmul__ = __add__

    def T(self):
        return self
    __neg__ = inverse = T

    def map(self, f):
        return self

    def same(self, o):
        return False

    def diff(self, o):
        return 'is computed from one that was never set'


UNSET = Unset()


def stack(a, b):
    return Mat(a.r + b.r)


def side(a, b):
    return Mat([x + y for x, y in zip(a.r, b.r)])


def jac(t2, t1):
    q1, q2 = t1.R, t2.R
    q = q2 * q1
    J1 = stack(side(dr_by_dq(q) * left(q2) * dq_by_dr(q1), zero(3, 3)), side(zero(3, 3), q2.m))
    J2 = stack(side(dr_by_dq(q) * right(q1) * dq_by_dr(q2), zero(3, 3)), side(drx_by_dr(q2, t1.t), eye(3)))
    return J1, J2


def compose(a2, a1):
    """(transform, covariance) of a2 * a1"""
    J1, J2 = jac(a2[0], a1[0])
    return a2[0] * a1[0], J1 * a1[1] * J1.T() + J2 * a2[1] * J2.T()


def invert(a):
    t = a[0]
    J = stack(side(-eye(3), zero(3, 3)), side(drx_by_dr(t.R.inverse(), t.t), -t.R.inverse().m))
    return t.inverse(), J * a[1] * J.T()


def point(a, p):
    J = side(drx_by_dr(a[0].R, p[0]), eye(3))
    return a[0] * p[0], J * a[1] * J.T() + a[0].R.m * p[1] * a[0].R.m.T()


# ------------------------------------------------------------ rigid body states
def body_state(ctx, N):
    """orientation is the upper left, position the lower right block of the covariance; correlations are not kept"""
    P = ctx.P
    CO, CP = sym(3, 3), sym(3, 7)
    S = sym(6, 2)

    def judge(f, rid, ok, good, bad, key):
        ctx.check(ok, rid, loc_of(f), '%s %s' % (f['q'].split('::', 1)[1], good if ok else bad), f['q'] + f['sig'] + ':' + key)
    for f in P.byname.get(T + '::operator=', []) + P.byname.get(T + '::<ctor>', []) + P.byname.get(T + '::TransformWithUncertainty', []):
        if not f.get('body') or not f['params'] or 'RigidBodyState' not in f['params'][0]['t']:
            continue
        rbs = ('deref', ('p', f['params'][0]['name']))
        I, ts = run(ctx, f)
        for t in ts:
            if t.out != 'ret':
                continue
            A = Alg(lambda A, x: {('init', ('field', rbs, 'cov_orientation')): CO, ('init', ('field', rbs, 'cov_position')): CP}.get(x))
            try:
                got = mat(A.ev(I.load(t.st, fld(N['cov']))), (6, 6))
                want = stack(side(CO, zero(3, 3)), side(zero(3, 3), CP))
                judge(f, 'covariance', got.same(want), 'takes the covariance of a body state', 'puts the covariances of a body state elsewhere', 'cov')
            except Lost as e:
                ctx.und('covariance', loc_of(f), '%s: %s' % (f['q'], e))
            v = I.load(t.st, fld(N['trans']))
            if v[0] == 'call' and 'RigidBodyState::operator' in v[1]:
                judge(f, 'transform', v[2] == (('init', rbs),), 'takes the transform of a body state', 'takes another transform', 'trans')
            elif v == ini(N['trans']) or v[0] == 'obj' and not v[2]:
                judge(f, 'transform', False, '', 'does not take the transform of a body state', 'trans')
            else:
                ctx.und('transform', loc_of(f), '%s: %s' % (f['q'], show(v)[:60]))
            if f['q'].endswith('operator='):
                judge(f, 'certainty', I.load(t.st, fld(N['unc'])) == ONE, 'marks the transform uncertain', 'does not mark the transform uncertain', 'unc')
    f = body_of(ctx, T + '::copyToRigidBodyState')
    rbs = ('deref', ('p', f['params'][0]['name']))
    I, ts = run(ctx, f)
    for t in ts:
        if t.out != 'ret':
            judge(f, 'covariance', False, '', 'throws', 'throw')
            continue
        for n, want in (('cov_orientation', S.block(0, 0, 3, 3)), ('cov_position', S.block(3, 3, 3, 3))):
            v = I.load(t.st, ('field', rbs, n))
            if v == ('init', ('field', rbs, n)):
                judge(f, 'covariance', False, '', 'does not set ' + n, n)
                continue
            A = Alg(lambda A, x: S if x == ini(N['cov']) else None)
            try:
                judge(f, 'covariance', mat(A.ev(v), (3, 3)).same(want), 'sets ' + n, 'sets %s to another block of the covariance' % n, n)
            except Lost as e:
                ctx.und('covariance', loc_of(f), '%s: %s' % (f['q'], e))
        for n in ('position', 'orientation'):
            v = I.load(t.st, ('field', rbs, n))
            ok = show(ini(N['trans'])) in show(v)
            other = v == ('init', ('field', rbs, n)) or any('.' + o in show(v) or '->' + o in show(v) for o in ('position', 'orientation') if o != n)
            ctx.check(True if ok and not other else False if other else None, 'transform', loc_of(f), '%s: %s %s' % (f['q'].split('::', 1)[1], n, 'taken from the transform' if ok and not other else 'not taken from the transform'), f['q'] + ':' + n)


# ------------------------------------------------------------ generic operands
# rotation axes whose lengths, and the length of whose sum and difference, are integers
AXES = ((2, 3, 6), (-2, 9, -6))


def sym(n, seed):
    v = [[Fr((i * 7 + j * 3 + seed * 5) % 11 + 1, (i + j) % 4 + 2) if i <= j else 0 for j in range(n)] for i in range(n)]
    return Mat([[v[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)])


def col(*x):
    return Mat([[Fr(y)] for y in x])


class Alg(Algebra):
    def struct(self, t):
        return Rec(self, t)


class Rec:
    def __init__(self, A, t):
        self.A, self.t = A, t

    def get(self, n):
        for path, v in reversed(self.t[2]):
            if path in (('field', n), (('field', n),)):
                return self.A.ev(v)
        raise Lost('member %s of the result' % n)


def member(ctx, cls, pred, what):
    fs = [f['name'] for f in ctx.P.records[cls]['fields'] if pred(f['t'])]
    if len(fs) != 1:
        raise AnalysisError('%s: member for %s changed (anchor lost)' % (cls, what))
    return fs[0]


@units(r'^src/core/Transform')
def C08(ctx):
    ctx.rule('transform', 'composition, inverse composition and inversion yield the transform they are defined by')
    ctx.rule('covariance', 'the covariance of a result is the first order propagation of the covariances of the operands; inverse compositions undo the composition')
    ctx.rule('certainty', 'a result carries uncertainty exactly if an operand does; a transform without uncertainty has no covariance')
    P = ctx.P
    N = {}
    for c in (T, PT):
        if c not in P.records:
            raise AnalysisError('%s not found (anchor lost)' % c)
    N['trans'] = member(ctx, T, lambda t: 'Transform' in t or 'Affine' in t, 'the transform')
    N['cov'] = member(ctx, T, lambda t: 'Matrix' in t or 'Covariance' in t, 'the covariance')
    N['unc'] = member(ctx, T, lambda t: t == 'bool', 'the flag')
    # the parts of a point, by their setters
    from .r_events import setter_field
    pu = member(ctx, PT, lambda t: t == 'bool', 'the flag')
    pc = member(ctx, PT, lambda t: '3, 3' in t or t.endswith('Covariance'), 'the covariance')
    pp = member(ctx, PT, lambda t: '3, 1' in t or t.endswith('Point'), 'the point')
    ax = AXES
    R1, R2 = rotation(ax[0]), rotation(ax[1])
    A1 = Aff(R1, col(1, -2, Fr(3, 2)))
    A2 = Aff(R2, col(Fr(1, 3), 4, -1))
    # large rotations about one axis, the product is more than half a turn (w of the quaternion negative)
    B1 = Aff(turn(ax[0], Fr(3, 5)), col(1, -2, Fr(3, 2)))
    B2 = Aff(turn(ax[0], Fr(5, 13)), col(Fr(1, 3), 4, -1))
    S1, S2 = sym(6, 1), sym(6, 4)
    P1, SP = col(2, Fr(1, 2), -3), sym(3, 2)

    def operand(tr, cov, unc):
        return {N['trans']: tr, N['cov']: cov if unc else zero(6, 6), N['unc']: ser(unc)}

    def evaluate(f, what, x, this, arg, arg2=None):
        """value of the function for these operands, as (transform, covariance, flag)"""
        pn = [p['name'] for p in f['params']]

        def leaf(A, t):
            if t[0] == 'init' and t[1][0] == 'field':
                b = t[1][1]
                o = this if b == THIS else arg if pn and b == ('deref', ('p', pn[0])) else None
                if o is not None and t[1][2] in o:
                    return o[t[1][2]]
            if t[0] == 'init' and t[1][0] == 'deref' and pn and t[1][1] == ('p', pn[0]):
                return arg
            if t == ('init', THIS):
                return this
            return None
        lost = None
        for t in x:
            A = Alg(leaf)
            try:
                if not all(A.cond(q) for q in t.facts):
                    continue
                if t.out != 'ret':
                    return 'throw'
                v = A.ev(t.val)
                if isinstance(v, dict):
                    return v
                return v
            except Lost as e:
                lost = str(e)
        raise Lost(lost or 'no path')

    def parts(v, names):
        return tuple(v[n] if isinstance(v, dict) else v.get(n) for n in names)

    def judge(f, what, n, expect, got, dims):
        """compare (transform or point, covariance, certain)"""
        et, ec, eu = expect
        gt, gu = got[0], got[2]
        st = gt.same(et) if isinstance(gt, (Aff, Mat)) else False
        out = []
        if not st:
            out.append(('transform', '%s: %s: the transform is not the defined one' % (what, n)))
        gu = int(ser(gu).sign() != 0)
        if gu != eu:
            out.append(('certainty', '%s: %s: the result is %s' % (what, n, 'uncertain' if gu else 'certain')))
        if eu and gu:
            gc = mat(got[1]() if callable(got[1]) else got[1], dims)
            if not gc.same(ec):
                out.append(('covariance', '%s: %s: covariance %s' % (what, n, gc.diff(ec))))
        return out

    def cases(f, what, gen, names, dims):
        key = f['q'] + f['sig']
        try:
            I, tr = run(ctx, f, opaque=lambda q: False)
        except AnalysisError as e:
            for r in ('transform', 'covariance', 'certainty'):
                ctx.und(r, loc_of(f), '%s: %s' % (what, e))
            return
        errs = {}
        try:
            for n, this, arg, expect in gen:
                v = evaluate(f, what, tr, this, arg)
                if v == 'throw':
                    errs.setdefault('transform', '%s: %s: throws' % (what, n))
                    continue
                g = parts(v, (names[0],)) + (lambda v=v: parts(v, (names[1],))[0],) + parts(v, (names[2],))
                e = expect(v) if callable(expect) else expect
                for r, m in judge(f, what, n, e, g, dims):
                    errs.setdefault(r, m)
        except Lost as e:
            for r in ('transform', 'covariance', 'certainty'):
                ctx.und(r, loc_of(f), '%s: %s' % (what, e))
            return
        for r in ('transform', 'covariance', 'certainty'):
            if r in errs:
                ctx.bad(r, loc_of(f), errs[r], key + ':' + r)
            else:
                ctx.ok(r, loc_of(f), '%s: %s' % (what, {'transform': 'transform', 'covariance': 'covariance', 'certainty': 'flag'}[r]))
    tn = (N['trans'], N['cov'], N['unc'])
    un = lambda u: 'uncertain' if u else 'certain'

    def gen_comp():
        for (A2_, A1_), u2, u1 in product(((A2, A1), (B2, B1)), (0, 1), (0, 1)):
            z2, z1 = (A2_, S2 if u2 else zero(6, 6)), (A1_, S1 if u1 else zero(6, 6))
            t, c = compose(z2, z1)
            yield '%s * %s%s' % (un(u2), un(u1), ', more than half a turn' if A1_ is B1 else ''), operand(A2_, S2, u2), operand(A1_, S1, u1), (t, c, int(u1 or u2))

    def gen_inv(pre):
        # result * arg = this (or arg * result = this)
        for uf, ua in product((0, 1), (0, 1)):
            zf, za = (A2, S2 if uf else zero(6, 6)), (A1, S1 if ua else zero(6, 6))

            def expect(v, zf=zf, za=za, uf=uf, ua=ua):
                tr = zf[0] * za[0].inverse() if not pre else za[0].inverse() * zf[0]
                # the covariance is right if composing again restores the original one
                if not (uf or ua):
                    return tr, zero(6, 6), 0
                J1, J2 = jac(tr, za[0]) if not pre else jac(za[0], tr)
                if not pre:
                    c = J2.inverse() * (zf[1] - J1 * za[1] * J1.T()) * J2.T().inverse()
                else:
                    c = J1.inverse() * (zf[1] - J2 * za[1] * J2.T()) * J1.T().inverse()
                return tr, c, 1
            yield '%s undone by %s' % (un(uf), un(ua)), operand(A2, S2, uf), operand(A1, S1, ua), expect
    found = 0
    for q, g in (('operator*', gen_comp), ('composition', gen_comp), ('compositionInv', lambda: gen_inv(False)), ('preCompositionInv', lambda: gen_inv(True))):
        for f in P.byname.get(T + '::' + q, []):
            if f.get('body') and 'TransformWithUncertainty' in f['params'][0]['t']:
                found += 1
                cases(f, q, g(), tn, (6, 6))
    ctx.need(found, 'compositions', 3)

    def gen_invert():
        for u in (0, 1):
            t, c = invert((A2, S2 if u else zero(6, 6)))
            yield un(u), operand(A2, S2, u), {}, (t, c, u)
    f = body_of(ctx, T + '::inverse')
    cases(f, 'inverse', gen_invert(), tn, (6, 6))

    def gen_point():
        for u, w in product((0, 1), (0, 1)):
            t, c = point((A2, S2 if u else zero(6, 6)), (P1, SP if w else zero(3, 3)))
            yield '%s transform of a %s point' % (un(u), un(w)), operand(A2, S2, u), {pp: P1, pc: SP if w else UNSET, pu: ser(w)}, (t, c, int(u or w))
    for f in P.byname.get(T + '::operator*', []):
        if f.get('body') and 'PointWithUncertainty' in f['params'][0]['t']:
            cases(f, 'operator* on points', gen_point(), (pp, pc, pu), (3, 3))

    body_state(ctx, N)

    # constructors and setters
    for cls, tr, cov, unc in ((T, N['trans'], N['cov'], N['unc']), (PT, pp, pc, pu)):
        n = 0
        for f in P.byname.get(cls + '::<ctor>', []) + P.byname.get(cls + '::' + cls.split('::')[-1], []):
            if not f.get('body') or any(cls in p['t'] for p in f['params']):
                continue
            n += 1
            I, ts = run(ctx, f)
            gives = any('Matrix<double, 6' in p['t'] or 'RigidBodyState' in p['t'] or 'Matrix<double, 3, 3' in p['t'] for p in f['params'])
            for t in ts:
                if t.out != 'ret':
                    continue
                u = I.load(t.st, fld(unc))
                okf = u == (ONE if gives else ZERO)
                definite = u[0] in ('n', 'uninit') or u == ini(unc)
                ctx.check(okf if definite else None, 'certainty', loc_of(f), '%s with %d argument(s) %s' % (cls.split('::')[-1], len(f['params']), 'is marked %s' % un(gives) if okf else 'leaves the flag %s' % (un(u != ZERO) if u[0] == 'n' else 'unset')), f['q'] + f['sig'] + ':flag')
                if cls == T and not gives:
                    c = I.load(t.st, fld(cov))
                    okc = c == ZERO or c[0] == 'call' and bname(c[1]) == 'Zero'
                    unset = c[0] == 'uninit' or c == ini(cov) or c[0] == 'obj' and not c[2]
                    ctx.check(True if okc else False if unset else None, 'certainty', loc_of(f), '%s with %d argument(s): covariance %s' % (cls.split('::')[-1], len(f['params']), 'zero' if okc else 'not set'), f['q'] + f['sig'] + ':cov')
        ctx.need(n, 'constructors of ' + cls, 2)
        for f in P.byname.get(cls + '::setCovariance', []):
            if f.get('body'):
                I, ts = run(ctx, f)
                good = all(I.load(t.st, fld(unc)) == ONE and I.load(t.st, fld(cov)) == ('init', ('deref', ('p', f['params'][0]['name']))) for t in ts)
                ctx.check(good, 'certainty', loc_of(f), '%s::setCovariance %s' % (cls.split('::')[-1], 'stores the covariance and marks the value uncertain' if good else 'does not store the covariance or does not mark the value uncertain'), f['q'])
        for f in P.byname.get(cls + '::set' + ('Transform' if cls == T else 'Point'), []):
            if f.get('body'):
                I, ts = run(ctx, f)
                good = all(I.load(t.st, fld(unc)) == ini(unc) and I.load(t.st, fld(cov)) == ini(cov) for t in ts)
                ctx.check(good, 'certainty', loc_of(f), '%s %s' % (f['q'].split('::', 1)[1], 'leaves the uncertainty alone' if good else 'changes the uncertainty'), f['q'] + ':unc')
                good = all(I.load(t.st, fld(tr)) == ('init', ('deref', ('p', f['params'][0]['name']))) for t in ts)
                ctx.check(good, 'transform', loc_of(f), '%s %s' % (f['q'].split('::', 1)[1], 'stores the argument' if good else 'does not store the argument'), f['q'])
        for f in P.byname.get(cls + '::hasUncertainty', []):
            if f.get('body'):
                I, ts = run(ctx, f)
                good = all(I.rv(t.st, t.val) == ini(unc) for t in ts)
                ctx.check(True if good else None, 'certainty', loc_of(f), 'hasUncertainty', f['q'])


PROPS = {'C08': C08}
