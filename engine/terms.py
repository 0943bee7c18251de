"""Canonical terms (abstract value numbers) and a small polyhedral fact domain."""
import re
from fractions import Fraction as Fr

_order = {}


def order(t):
    i = _order.get(t)
    if i is None:
        i = _order[t] = len(_order)
    return i


def N(x):
    return ('n', Fr(x))


ZERO, ONE = N(0), N(1)
TRUE, FALSE = ('n', Fr(1)), ('n', Fr(0))


def is_num(t):
    return t[0] == 'n'


# ---- polynomials: dict mono -> coef, mono = tuple of (atom, exp) sorted
def topoly(t):
    if t[0] == 'n':
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {((t, 1),): Fr(1)}


def _mono_key(m):
    return tuple((order(a), e) for a, e in m)


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ('n', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0]))))


def add(a, b):
    p = topoly(a)
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + c
    return frompoly(p)


def scale(a, k):
    k = Fr(k)
    return frompoly({m: c * k for m, c in topoly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: order(ae[0])))


def mul(a, b):
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 64:
        x, y = sorted((a, b), key=order)
        return ('mul', x, y)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return frompoly(p)


def inv(a):
    if a[0] == 'n':
        return ('n', 1 / a[1]) if a[1] != 0 else ('inv0',)
    p = topoly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return frompoly({tuple((x, -e) for x, e in m): 1 / c})
    # canonical scaling of the leading coefficient
    ms = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = ms[0][1]
    base = frompoly({m: c / lead for m, c in p.items()})
    return frompoly({((base, -1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


# ---- booleans
def has(C, k):
    """does the associative container C hold the key k"""
    while True:
        if C[0] == 'mut':
            op, C0, args = C[1], C[2], C[3]
            if op == 'clear':
                return FALSE
            if op in ('insert', 'assign'):
                if args[0] == k:
                    return TRUE
                return mk_or([cmp('==', args[0], k, True), has(C0, k)])
            if op == 'erase':
                if args[0] == k:
                    return FALSE
                return mk_and([cmp('!=', args[0], k, True), has(C0, k)])
            return ('has', C, k)
        if C[0] == 'upd':
            if any(a[0] == 'idx' and a[1] == k for a, _ in C[2]):
                return TRUE
            C = C[1]
            continue
        if C[0] == 'f' and C[1] == 'zero' or C[0] == 'obj' and not C[2]:
            return FALSE
        return ('has', C, k)


def _counted(op, p):
    """comparisons of the number of entries of a key with 0 or 1 as membership"""
    if p[0] == 'mcount':
        c, k, at = Fr(1), Fr(0), p
    elif p[0] == 'poly':
        ms = [(m, c) for m, c in p[1] if m]
        if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][0][0] != 'mcount' or ms[0][0][0][1] != 1:
            return None
        at, c = ms[0][0][0][0], ms[0][1]
        k = sum((c_ for m, c_ in p[1] if not m), Fr(0))
    else:
        return None
    h = has(at[1], at[2])
    if op in ('==', '!=') and k == 0:
        return negate(h) if op == '==' else h
    if op == '<=' and c == -1 and k == 1 or op == '<' and c == -1 and k == 0:
        return h
    if op == '<=' and c == 1 and k == 0 or op == '<' and c == 1 and k == -1:
        return negate(h)
    return None


def cmp(op, a, b, integer):
    """canonical comparison term of a op b"""
    if op == '>':
        return cmp('<', b, a, integer)
    if op == '>=':
        return cmp('<=', b, a, integer)
    p = sub(a, b)
    if p[0] == 'n':
        v = p[1]
        r = {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]
        return TRUE if r else FALSE
    if p[0] in ('mcount', 'poly'):
        r = _counted(op, p)
        if r is not None:
            return r
    if op in ('==', '!='):
        pp = topoly(p)
        lead = min(pp.items(), key=lambda mc: _mono_key(mc[0]) if mc[0] else (( -1,),))
        nonconst = sorted((m for m in pp if m != ()), key=_mono_key)
        k = pp[nonconst[0]]
        p = scale(p, 1 / k)
        return ('cmp', op, p, integer)
    if integer:
        # clear common positive factor is not done: coefficients stay as written
        if op == '<':
            p = add(p, ONE)
        return ('cmp', '<=', p, True)
    return ('cmp', op, p, False)


def negate(t):
    k = t[0]
    if k == 'n':
        return FALSE if t[1] != 0 else TRUE
    if k == 'cmp':
        _, op, p, integer = t
        if op == '==':
            return ('cmp', '!=', p, integer)
        if op == '!=':
            return ('cmp', '==', p, integer)
        if op == '<=':
            if integer:
                return ('cmp', '<=', add(neg(p), ONE), True)
            return ('cmp', '<', neg(p), False)
        if op == '<':
            return ('cmp', '<=', neg(p), False)
    if k == 'not':
        return t[1]
    if k == 'and':
        return mk_or([negate(x) for x in t[1]])
    if k == 'or':
        return mk_and([negate(x) for x in t[1]])
    return ('not', t)


def _flat(k, xs):
    out = []
    for x in xs:
        if x[0] == k:
            out.extend(x[1])
        else:
            out.append(x)
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x); r.append(x)
    return r


def mk_and(xs):
    xs = [x for x in _flat('and', xs) if x != TRUE]
    if any(x == FALSE for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return ('and', tuple(sorted(xs, key=order)))


def mk_or(xs):
    xs = [x for x in _flat('or', xs) if x != FALSE]
    if any(x == TRUE for x in xs):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return ('or', tuple(sorted(xs, key=order)))


def ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    n = negate(c)
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return n
    # canonical polarity
    def pol(t):
        if t[0] == 'not':
            return 1
        if t[0] == 'cmp' and t[1] in ('!=',):
            return 1
        if t[0] == 'or':
            return 1
        return 0
    if pol(c) > pol(n) or (pol(c) == pol(n) and order(c) > order(n)):
        return ('ite', n, b, a)
    return ('ite', c, a, b)


def subterms(t, out=None):
    """all tuple subterms"""
    if out is None:
        out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in out:
            continue
        out.add(x)
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return out


def contains(t, pred):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and pred(x):
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


def subst(t, m, memo=None):
    """replace subterms; rebuilds polynomials canonically"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t[0] == 'poly':
        acc = ZERO
        for mono, c in t[1]:
            x = ('n', c)
            for a, e in mono:
                b = subst(a, m, memo)
                for _ in range(abs(e)):
                    x = mul(x, b if e > 0 else inv(b))
            acc = add(acc, x)
        r = acc
    elif t[0] == 'n' or t[0] == 's':
        r = t
    elif t[0] == 'cmp':
        p = subst(t[2], m, memo)
        if p[0] == 'n':
            v = p[1]
            r = TRUE if {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[t[1]] else FALSE
        elif t[1] in ('==', '!='):
            r = cmp(t[1], p, ZERO, t[3])
        else:
            r = ('cmp', t[1], p, t[3])
    elif t[0] == 'and':
        r = mk_and([subst(x, m, memo) for x in t[1]])
    elif t[0] == 'or':
        r = mk_or([subst(x, m, memo) for x in t[1]])
    elif t[0] == 'not':
        r = negate(subst(t[1], m, memo))
    elif t[0] == 'ite':
        r = ite(subst(t[1], m, memo), subst(t[2], m, memo), subst(t[3], m, memo))
    else:
        r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r


# ---- fact domain -----------------------------------------------------
def lin(t):
    """linear form over monomials: (dict mono->coef, const)"""
    p = topoly(t)
    c = p.pop((), Fr(0))
    return p, c


def _constraints(f):
    """conjunctive linear constraints (poly <= 0 | < 0) of a fact, plus leftover disjunctions"""
    if f[0] == 'cmp':
        _, op, p, integer = f
        if op == '<=':
            return [(p, False)]
        if op == '<':
            return [(p, True)]
        if op == '==':
            return [(p, False), (neg(p), False)]
        return []
    if f[0] == 'and':
        return [c for x in f[1] for c in _constraints(x)]
    return []


def _infeasible(cons):
    """Fourier-Motzkin on a list of (poly, strict) meaning poly <= 0 / < 0"""
    cs = []
    for p, s in cons:
        l, c = lin(p)
        cs.append((l, c, s))
    while True:
        for l, c, s in cs:
            if not l and (c > 0 or (s and c >= 0)):
                return True
        cs = [x for x in cs if x[0]]
        if not cs:
            return False
        # dedupe
        d = {}
        for l, c, s in cs:
            k = (tuple(sorted(l.items(), key=lambda mc: _mono_key(mc[0]))))
            lead = abs(k[0][1])
            k = tuple((m, v / lead) for m, v in k)
            c = c / lead
            if k not in d or (c, s) > d[k]:
                d[k] = (c, s)
        cs = [(dict(k), c, s) for k, (c, s) in d.items()]
        if len(cs) > 400:
            return False
        # choose variable with least growth
        cnt = {}
        for l, c, s in cs:
            for m, v in l.items():
                a = cnt.setdefault(m, [0, 0])
                a[0 if v > 0 else 1] += 1
        var = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1], _mono_key(m)))
        pos = [x for x in cs if x[0].get(var, 0) > 0]
        ng = [x for x in cs if x[0].get(var, 0) < 0]
        rest = [x for x in cs if var not in x[0]]
        for l1, c1, s1 in pos:
            for l2, c2, s2 in ng:
                k1, k2 = l1[var], -l2[var]
                l = {}
                for m, v in l1.items():
                    l[m] = l.get(m, 0) + v / k1
                for m, v in l2.items():
                    l[m] = l.get(m, 0) + v / k2
                l = {m: v for m, v in l.items() if v != 0}
                rest.append((l, c1 / k1 + c2 / k2, s1 or s2))
        cs = rest


class Facts:
    """entailment of a comparison from a conjunction of facts"""

    def __init__(self, facts, nonneg=lambda a: False, extra=()):
        self.facts = list(facts) + list(extra)
        self.nonneg = nonneg

    def _relevant(self, cons, seeds):
        vars_ = set()
        for p, _ in seeds:
            vars_ |= set(lin(p)[0])
        items = [(p, s, set(lin(p)[0])) for p, s in cons]
        used = [False] * len(items)
        changed = True
        while changed:
            changed = False
            for i, (p, s, vs) in enumerate(items):
                if not used[i] and vs & vars_:
                    used[i] = True
                    vars_ |= vs
                    changed = True
        return [(p, s) for i, (p, s, vs) in enumerate(items) if used[i]], vars_

    def infeasible(self, goals, depth=0):
        base, ors, nes = [], [], []
        stack = list(self.facts) + list(goals)
        while stack:
            f = stack.pop()
            if f == FALSE:
                return True
            if f[0] == 'and':
                stack.extend(f[1]); continue
            if f[0] == 'or':
                ors.append(f); continue
            if f[0] == 'cmp' and f[1] == '!=':
                nes.append(f); continue
            base.extend(_constraints(f))
        fs = set(self.facts)
        for g in goals:
            if negate(g) in fs:
                return True
        seeds = [c for g in goals for c in _constraints(g)]
        for f in goals:
            if f[0] == 'cmp' and f[1] == '!=':
                seeds.append((f[2], False))
        if not seeds:
            seeds = base[:]
        rel, vs = self._relevant(base, seeds)
        for m in list(vs):
            if all(self.nonneg(a) and e > 0 for a, e in m):
                rel.append((frompoly({m: Fr(-1)}), False))
        if _infeasible(rel):
            return True
        if depth < 2:
            # split one disequality / disjunction that shares variables
            for f in nes:
                if set(lin(f[2])[0]) & vs:
                    one = ONE if f[3] else ZERO
                    lo = ('cmp', '<=', add(f[2], one), True) if f[3] else ('cmp', '<', f[2], False)
                    hi = ('cmp', '<=', add(neg(f[2]), one), True) if f[3] else ('cmp', '<', neg(f[2]), False)
                    F = Facts([x for x in self.facts if x != f], self.nonneg)
                    g2 = [x for x in goals if x != f]
                    if F.infeasible(g2 + [lo], depth + 1) and F.infeasible(g2 + [hi], depth + 1):
                        return True
            for f in ors:
                F = Facts([x for x in self.facts if x != f], self.nonneg)
                g2 = [x for x in goals if x != f]
                if all(F.infeasible(g2 + [d], depth + 1) for d in f[1]):
                    return True
        return False

    def entails(self, goal):
        if goal == TRUE or goal in self.facts:
            return True
        if goal[0] == 'and':
            return all(self.entails(g) for g in goal[1])
        return self.infeasible([negate(goal)])


# ---- printing ----------------------------------------------------------
_TPL = re.compile(r'<[^<>]*>')


def shortname(q):
    if '<' not in q or 'operator' in q:
        return q
    p = None
    r = q
    while p != r:
        p = r
        r = _TPL.sub('', r)
    return r


def show(t, d=0):
    try:
        return show_(t, d)
    except (IndexError, TypeError, ValueError):
        return '[' + ', '.join(show(x, d + 1) for x in t) + ']'


def show_(t, d=0):
    if not isinstance(t, tuple):
        return shortname(str(t))
    if not t:
        return '()'
    if d > 14:
        return '...'
    k = t[0]
    s = lambda x: show(x, d + 1)
    if not isinstance(k, str):
        return '[' + ', '.join(s(x) for x in t) + ']'
    if k == 'n':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    if k == 'poly':
        r = []
        for m, c in t[1]:
            if m == ():
                r.append(str(c)); continue
            f = '*'.join(s(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            r.append(f if c == 1 else ('-' + f if c == -1 else '%s*%s' % (c, f)))
        return '(' + ' + '.join(r).replace('+ -', '- ') + ')'
    if k == 'cmp':
        return '(%s %s 0)' % (s(t[2]), t[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(s(x) for x in t[1]) + ')'
    if k == 'not':
        return '!' + s(t[1])
    if k == 'ite':
        return '(%s ? %s : %s)' % (s(t[1]), s(t[2]), s(t[3]))
    if k == 'init':
        return s(t[1])
    if k == 'var':
        return t[3]
    if k == 'this':
        return 'this'
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'field':
        if t[1] == ('deref', ('this',)):
            return t[2]
        if t[1][0] == 'deref':
            return s(t[1][1]) + '->' + t[2]
        return s(t[1]) + '.' + t[2]
    if k == 'idx':
        return s(t[1]) + '[' + ','.join(s(x) for x in t[2:]) + ']'
    if k == 'addr':
        return '&' + s(t[1])
    if k == 'heap':
        return 'new#%s' % (t[1],)
    if k == 'call':
        return '%s(%s)' % (shortname(str(t[1])).split('::')[-1], ','.join(s(x) for x in t[2]))
    if k == 'f':
        return '%s(%s)' % (t[1], ','.join(s(x) for x in t[2]))
    if k == 'mut':
        return '%s.%s(%s)' % (s(t[2]), t[1], ','.join(s(x) for x in t[3]))
    if k == 'lv':
        return '%s@loop%s' % (s(t[2]), t[1])
    if k == 'it':
        return 'it%s' % t[1]
    if k == 'glob':
        return t[1].split('::')[-1]
    return k + '(' + ','.join(s(x) for x in t[1:]) + ')'
