"""Term helpers used by the rules: canonical sums, loop summaries, content resolution."""
from engine.terms import *
from engine.absint import *
from .core import *

THIS = ('deref', ('this',))


def fld(*names, base=THIS):
    l = base
    for n in names:
        l = ('field', l, n)
    return l


def ini(*names, base=THIS):
    return ('init', fld(*names, base=base))


def size_of(t):
    return ('call', 'size', (t,))


def _maxbv(t):
    m = [-1]

    def p(x):
        if x[0] == 'bv' and x[1] > m[0]:
            m[0] = x[1]
        return False
    contains(t, p)
    return m[0]


def SUM(count, body, k):
    """sum of body over bv_k in [0,count): distributes, factors out what does not depend on bv_k"""
    bv = ('bv', k)
    dep = lambda x: contains(x, lambda y: y == bv)
    out = ZERO
    for m, c in topoly(body).items():
        ins, outs = [], []
        for a, e in m:
            (ins if dep(a) else outs).append((a, e))
        o = frompoly({tuple(outs): c})
        if not ins:
            out = add(out, mul(o, count))
        else:
            ib = frompoly({tuple(ins): Fr(1)})
            out = add(out, mul(o, ('SUM', count, ib, bv)))
    return out


def nbv(t):
    return _maxbv(t) + 1


def canon(I, t):
    """rewrite loop sums into alpha-independent SUM(count, body, bv)"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if (x[0] == 'sum' and len(x) == 3 or x[0] == 'last' and len(x) == 4) and isinstance(x[1], int):
            info = I.loops.get(x[1])
            n = info.get('count') if info else None
            body = x[2]
            if isinstance(body, tuple) and body and body[0] == 'cases':
                cs = [(set(c[1]) if c[0] == 'and' else {c}, d) for c, d in body[1]]
                common_ = set.intersection(*[c for c, _ in cs])
                cs = [(mk_and(sorted(c - common_, key=order)), d) for c, d in cs]
                acc = cs[-1][1]
                for c, d in reversed(cs[:-1]):
                    acc = ite(c, d, acc)
                body = acc
            if x[0] == 'last':
                n = go(n)
                r = ite(cmp('<=', ONE, n, True), subst(go(body), {('it', x[1]): sub(n, ONE)}), go(x[3]))
                memo[x] = r
                return r
            if n is None:
                r = ('SUM?', x[1], go(body))
            else:
                body = go(body)
                k = nbv(body)
                body = subst(body, {('it', x[1]): ('bv', k)})
                r = SUM(go(n), body, k)
        elif x[0] == 'poly':
            acc = ZERO
            for m, c in x[1]:
                y = ('n', c)
                for a, e in m:
                    b = go(a)
                    for _ in range(abs(e)):
                        y = mul(y, b if e > 0 else inv(b))
                acc = add(acc, y)
            r = acc
        elif x[0] in ('n', 's'):
            r = x
        elif x[0] == 'cmp':
            p = go(x[2])
            r = cmp(x[1], p, ZERO, x[3]) if x[1] in ('==', '!=') and p[0] != 'n' else subst(('cmp', x[1], p, x[3]), {})
        elif x[0] == 'ite':
            r = ite(go(x[1]), go(x[2]), go(x[3]))
        elif x[0] == 'and':
            r = mk_and([go(y) for y in x[1]])
        elif x[0] == 'or':
            r = mk_or([go(y) for y in x[1]])
        elif x[0] == 'not':
            r = negate(go(x[1]))
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return go(t)


def bname(q):
    """unqualified name without template arguments"""
    out, d = [], 0
    for ch in str(q):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out).split('::')[-1].strip()


def unknown(t):
    """does the term depend on something the analysis has lost track of"""
    return contains(t, lambda x: x[0] in ('SUM?', 'last', 'lv', 'post', 'lvc', 'out', 'uninit'))


def loops_in(evs):
    for e in evs:
        if e.kind == 'loop':
            yield e
            for t in e.traces:
                for x in loops_in(t[1]):
                    yield x
        elif e.kind == 'alt':
            for a in e.alts:
                for x in loops_in(a):
                    yield x


def walk_events(evs, path=()):
    """(event, enclosing loops [(loop event, body trace)])"""
    for e in evs:
        yield e, path
        if e.kind == 'loop':
            for t in e.traces:
                for x in walk_events(t[1], path + ((e, t),)):
                    yield x
        elif e.kind == 'alt':
            for a in e.alts:
                for x in walk_events(a, path):
                    yield x


def calls(evs, name=None, q=None, kinds=('call', 'ccall')):
    for e, path in walk_events(evs):
        if e.kind in kinds and (name is None or e.get('n') == name) and (q is None or q in e.get('q', '')):
            yield e, path


def run(ctx, fn, **kw):
    I = Interp(ctx.P, **kw)
    tr = I.run(fn)
    ctx.saw(I)
    ctx.count('functions')
    ctx.count('traces', len(tr))
    return I, tr


def fn1(ctx, pat, pred=None, minimum=1):
    """the functions whose qualified name matches (exact or suffix), at least one"""
    fs = ctx.P.byname.get(pat)
    if not fs:
        fs = [f for q, v in ctx.P.byname.items() if q.endswith(pat) for f in v]
    fs = [f for f in fs if not f.get('implicit') and f.get('body') and (pred is None or pred(f))]
    if len(fs) < minimum:
        raise AnalysisError('%s: function %s not found (anchor lost)' % (ctx.prop, pat))
    return fs[0] if minimum == 1 else fs
