"""What an array element holds after a loop.

The engine widens the content of an array a loop writes to an opaque ('lvc', base, loop,
'post'|'lv').  Resolver turns the value of one element of such content back into a closed
term: the iteration that writes the element is solved for (element-wise loops) or the
contributions of all iterations are summed (scatter / accumulate loops).
"""
from .lib import *


def cite(c, x, y):
    """ite with the branches simplified under the condition"""
    pos = {z: TRUE for z in (c[1] if c[0] == 'and' else [c])}
    for z in list(pos):
        pos[negate(z)] = FALSE
    neg_ = {c: FALSE, negate(c): TRUE}
    return ite(c, subst(x, pos), subst(y, neg_))


class Lost(Exception):
    pass


class Resolver:
    debug = False

    def __init__(self, I, base=None):
        self.I = I
        self.base = base or (lambda x, path: None)
        self.memo = {}
        self.nph = 0

    # --- element of a content term
    def get(self, X, path, holes=frozenset()):
        if not path:
            return self.resolve(X, holes)
        k = X[0]
        acc = path[0]
        if k == 'upd':
            out = None
            amb = []
            for a, v in X[2]:
                r = self.match(a, acc)
                if r is True:
                    out = self.get(v, path[1:], holes)
                elif r is None:
                    amb.append((a, v))
                elif r is not False:
                    amb.append((r, v))
            if out is None:
                out = self.get(X[1], path, holes)
            if len(amb) > 1:
                raise Lost
            for a, v in amb:
                if a[0] == 'row':
                    rest = self.rowvalue(v, a[1], acc, holes)
                    out = cite(a[2], rest, out)
                else:
                    c = self.same(a, acc)
                    out = cite(c, self.rehole(self.get(v, path[1:], holes), a, acc), out)
            return out
        if k == 'lvc':
            base, lid, tag = X[1:4]
            if tag == 'lv' and lid in holes:
                return ('HOLE', lid) + tuple(path)
            count = self.I.loops[lid].get('count') if tag == 'post' else ('it', lid)
            it = ('it', lid)
            if any(contains(a, lambda x: x == it) for p in path for a in p if isinstance(a, tuple)) or count == it:
                # the wanted element is named by the current iteration: rename it, the body binds the name
                self.nph += 1
                ph = ('it', 'ph%d' % self.nph)
                self.I.types.setdefault(ph, 'unsigned long')
                p2 = [tuple(subst(a, {it: ph}) if isinstance(a, tuple) else a for a in p) for p in path]
                r = self.after(base, lid, ph if count == it else count, p2, holes)
                return subst(r, {ph: it})
            return self.after(base, lid, count, path, holes)
        if k == 'filled':
            return self.get(X[2], path[1:], holes) if acc[0] == 'idx' else self.get(X[1], path, holes)
        if k == 'ite':
            return cite(self.resolve(X[1], holes), self.get(X[2], path, holes), self.get(X[3], path, holes))
        if k == 'sub':
            p2, b = [], X
            while b[0] == 'sub':
                p2.insert(0, tuple(b[2:]))
                b = b[1]
            return self.get(b, p2 + list(path), holes)
        r = self.base(X, path)
        if r is not None:
            return r
        t = X
        for a in path:
            t = self.I.project(t, a)
        return t

    def rehole(self, v, a, acc):
        """under a == acc the previous content at a is the previous content at acc"""
        m = {}

        def p(x):
            if x[0] == 'HOLE' and x[2] == a:
                m[x] = x[:2] + (acc,) + x[3:]
            return False
        contains(v, p)
        return subst(v, m) if m else v

    def match(self, a, acc):
        """item accessor against wanted accessor: True/False/None(ambiguous)/('row', r, cond)"""
        if a == acc:
            return True
        if a[0] != acc[0]:
            return False
        if a[0] == 'field':
            return False
        if len(a) == 2 and a[1][0] == 'view' and len(acc) == 3:
            kind, r = a[1][1], a[1][2]
            w = acc[1] if kind == 'row' else acc[2]
            c = cmp('==', sub(r, w), ZERO, True) if False else self.eqc(r, w)
            if c == FALSE:
                return False
            return ('row', a[1], c)
        if len(a) != len(acc):
            raise Lost
        for x, y in zip(a[1:], acc[1:]):
            if x[0] == 'view' or y[0] == 'view':
                raise Lost
            d = add(x, neg(y))
            if d[0] == 'n' and d[1] != 0:
                return False
        return None

    def eqc(self, x, y):
        d = add(x, neg(y))
        if d == ZERO:
            return TRUE
        if d[0] == 'n':
            return FALSE
        return cmp('==', d, ZERO, True)

    def same(self, a, acc):
        return mk_and([self.eqc(x, y) for x, y in zip(a[1:], acc[1:])])

    def rowvalue(self, v, view, acc, holes):
        """element acc of a row/column expression v (element-wise scalar multiples only)"""
        key = ('idx', view)

        def go(x):
            if not isinstance(x, tuple) or not x:
                return x
            if x[0] == 'sub' and tuple(x[2:]) == key:
                return self.get(x[1], [acc], holes)
            if x[0] == 'poly':
                acc_ = ZERO
                for m, c in x[1]:
                    y = ('n', c)
                    for at, e in m:
                        b = go(at)
                        for _ in range(abs(e)):
                            y = mul(y, b if e > 0 else inv(b))
                    acc_ = add(acc_, y)
                return acc_
            return x
        r = go(v)
        if contains(r, lambda y: y[0] == 'view'):
            raise Lost
        return self.resolve(r, holes)

    def body(self, base, lid, path, holes):
        """the value of the element after one iteration, as a function of HOLE"""
        info = self.I.loops[lid]
        want = ('lvc', base, lid, 'lv')
        loc = None
        for m, kind in info['mods'].items():
            if kind == 'content' and self.I.load(info['pre'], m, False) == base:
                loc = m
                break
        if loc is None:
            raise Lost
        outs = []
        for facts, evs, out, st in info['traces']:
            if out[0] in ('norm', 'cont'):
                outs.append((list(facts), self.get(self.I.load(st, loc), path, holes | {lid})))
            else:
                raise Lost
        if not outs:
            raise Lost
        common = set(outs[0][0])
        for f, _ in outs[1:]:
            common &= set(f)
        res = outs[-1][1]
        for f, v in reversed(outs[:-1]):
            c = mk_and([self.resolve(x, holes | {lid}) for x in f if x not in common])
            res = cite(c, v, res)
        return res

    def after(self, base, lid, count, path, holes):
        if count is None:
            raise Lost
        B = self.body(base, lid, path, holes)
        hole = ('HOLE', lid) + tuple(path)
        old = self.get(base, path, holes)
        it = ('it', lid)
        has = lambda t: contains(t, lambda x: x[0] == 'HOLE' and x[1] == lid)
        count = canon(self.I, count)

        def total(b):
            if b == hole:
                return None        # unchanged
            d = add(b, neg(hole))
            if not has(d):
                return ('acc', d)
            if b[0] == 'ite':
                c, x, y = b[1], b[2], b[3]
                if has(c):
                    raise Lost
                if x == hole:
                    c, x, y = negate(c), y, x
                if y == hole:
                    cs = list(c[1]) if c[0] == 'and' else [c]
                    for q in cs:
                        s = self.solve(q, it)
                        if s is not None:
                            return ('set', s, cite(mk_and([z for z in cs if z is not q]), x, hole))
                    t = total(x)
                    if t is not None and t[0] == 'acc':
                        return ('acc', cite(c, t[1], ZERO))
                    if t is not None and t[0] == 'set':
                        return ('set', t[1], cite(c, t[2], hole))
                else:
                    # both branches write the same element: merge the conditions
                    t1, t2 = total(x), total(y)
                    if t1 and t2 and t1[0] == t2[0] == 'set' and t1[1] == t2[1]:
                        return ('set', t1[1], cite(c, t1[2], t2[2]))
                    if t1 and t2 and t1[0] == t2[0] == 'acc':
                        return ('acc', cite(c, t1[1], t2[1]))
            if self.debug:
                print('LOST', show(b), show(hole))
            raise Lost
        t = total(B)
        if t is None:
            return old
        if t[0] == 'acc':
            d = canon(self.I, t[1])
            k = nbv(d)
            return add(old, SUM(count, subst(d, {it: ('bv', k)}), k))
        at, v = t[1], t[2]
        v = subst(subst(v, {it: at}), {hole: old}) if not contains(old, lambda x: x == it) else subst(subst(v, {it: at}), {hole: old})
        if has(v):
            raise Lost
        rng = mk_and([cmp('<=', ZERO, at, True), cmp('<', at, count, True)])
        return cite(rng, v, old)

    def solve(self, c, it):
        """the value of `it` for which the equality c holds, other conjuncts must vanish"""
        if c[0] != 'cmp' or c[1] != '==':
            return None
        p = topoly(c[2])
        k = p.get(((it, 1),))
        if k is None or abs(k) != 1:
            return None
        rest = {m: v for m, v in p.items() if m != ((it, 1),)}
        r = frompoly(rest)
        if contains(r, lambda x: x == it):
            return None
        return neg(r) if k == 1 else r

    # --- whole terms
    def resolve(self, t, holes=frozenset()):
        key = (t, holes)
        if key in self.memo:
            return self.memo[key]
        r = self._resolve(t, holes)
        self.memo[key] = r
        return r

    def _resolve(self, x, holes):
        if not isinstance(x, tuple) or not x:
            return x
        k = x[0]
        if k in ('n', 's', 'it', 'itx', 'bv', 'p', 'this', 'HOLE'):
            return x
        if k == 'sub':
            p, b = [], x
            while b[0] == 'sub':
                p.insert(0, tuple(self.acc(a, holes) for a in b[2:]) if b[2] == 'idx' else tuple(b[2:]))
                b = b[1]
            if any(len(a) == 2 and a[0] == 'idx' and a[1][0] == 'view' for a in p):
                raise Lost
            return self.get(b, p, holes)
        if k == 'call' and x[1] == 'Eigen::sum' and len(x[2]) == 1 and x[2][0][0] == 'sub' and x[2][0][2] == 'idx' and x[2][0][3][0] == 'view':
            X, (_, kind, j) = x[2][0][1], x[2][0][3]
            root_ = self.I.strip_content(X)
            if root_[0] != 'obj' or len(root_[2]) != 2:
                raise Lost
            n = root_[2][0 if kind == 'col' else 1]
            self.nph += 1
            ph = ('it', 'ph%d' % self.nph)
            b = canon(self.I, self.get(X, [('idx', ph, j) if kind == 'col' else ('idx', j, ph)], holes))
            kk = nbv(b)
            return SUM(canon(self.I, n), subst(b, {ph: ('bv', kk)}), kk)
        if k == 'poly':
            acc = ZERO
            for m, c in x[1]:
                y = ('n', c)
                for a, e in m:
                    b = self.resolve(a, holes)
                    for _ in range(abs(e)):
                        y = mul(y, b if e > 0 else inv(b))
                acc = add(acc, y)
            return acc
        if k == 'cmp':
            return cmp(x[1], self.resolve(x[2], holes), ZERO, x[3])
        if k == 'ite':
            return cite(self.resolve(x[1], holes), self.resolve(x[2], holes), self.resolve(x[3], holes))
        if k == 'and':
            return mk_and([self.resolve(y, holes) for y in x[1]])
        if k == 'or':
            return mk_or([self.resolve(y, holes) for y in x[1]])
        if k == 'not':
            return negate(self.resolve(x[1], holes))
        if k == 'init':
            return x
        return tuple(self.resolve(y, holes) if isinstance(y, tuple) else y for y in x)

    def acc(self, a, holes):
        return self.resolve(a, holes) if isinstance(a, tuple) else a

    def value(self, t):
        """closed canonical value of t, or None"""
        try:
            return canon(self.I, self.resolve(canon_body(self.I, t)))
        except Lost:
            if self.debug:
                raise
            return None


def canon_body(I, t):
    return t
