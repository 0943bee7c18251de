"""The environment: relations between items, the queries over them and the announcement of their changes."""
from collections import Counter
from .lib import *
from .worlds import *

CORE = (r'^src/core/', r'^drivers/core')
ENV = 'envire::Environment'
ITEM, FRAMENODE_TREE, FRAMENODE, LAYER_TREE, ROOT = range(5)
ADD, REMOVE, UPDATE = range(3)
TN = ['ITEM', 'FRAMENODE_TREE', 'FRAMENODE', 'LAYER_TREE', 'ROOT']
ON = ['ADD', 'REMOVE', 'UPDATE']


class Names:
    """data members by type and role, so that a renamed private member is still found"""

    def __init__(self, ctx):
        P = ctx.P
        r = P.records.get(ENV)
        it = P.records.get('envire::EnvironmentItem')
        if not r or not it:
            raise AnalysisError('%s: class Environment not found (anchor lost)' % ctx.prop)

        def one(rec, pred, what):
            fs = [f['name'] for f in rec['fields'] if pred(f['t'].replace('std::__cxx11::', 'std::'))]
            if len(fs) != 1:
                raise AnalysisError('%s: %s is not a single data member any more: %s' % (ctx.prop, what, fs))
            return fs[0]
        self.items = one(r, lambda t: t.startswith('std::map<std::basic_string') and 'EnvironmentItem' in t, 'the item table')
        self.tree = one(r, lambda t: t.startswith('std::map<envire::FrameNode *, envire::FrameNode *'), 'the frame node tree')
        self.layers = one(r, lambda t: t.startswith('std::multimap<envire::Layer *, envire::Layer *'), 'the layer links')
        self.maps = one(r, lambda t: t.startswith('std::map<envire::CartesianMap *, envire::FrameNode *'), 'the map links')
        ops = [f['name'] for f in r['fields'] if f['t'].startswith('std::multimap<envire::Operator *, envire::Layer *')]
        self.root = one(r, lambda t: t == 'envire::FrameNode *', 'the root node')
        self.source = one(r, lambda t: t == 'envire::EventSource', 'the event source')
        self.env = one(it, lambda t: t == 'envire::Environment *', 'the back pointer of an item')
        self.id = self.member_returned(ctx, 'envire::EnvironmentItem::getUniqueId', it)
        self.unique = (self.items, self.tree, self.maps)
        self.ins = self.outs = None
        for what in ('getInputs', 'getOutputs'):
            used = set()
            for f in P.byname.get(ENV + '::' + what, []):
                if f.get('body'):
                    I = Interp(P)
                    for t in I.run(f):
                        for e, _ in walk_events(t.events):
                            for c in ops:
                                if e.kind == 'loop' and contains(repr_terms(e), lambda x: x[0] == 'field' and x[2] == c):
                                    used.add(c)
            if len(used) == 1:
                if what == 'getInputs':
                    self.ins = used.pop()
                else:
                    self.outs = used.pop()
        rest = [c for c in ops if c not in (self.ins, self.outs)]
        if len(ops) != 2:
            raise AnalysisError('%s: operator links changed: %s' % (ctx.prop, ops))
        self.conflict = self.ins is not None and self.ins == self.outs
        if self.ins is None or self.conflict:
            self.ins = ([c for c in ops if 'nput' in c] or ops)[0]
        if self.outs is None or self.conflict:
            self.outs = [c for c in ops if c != self.ins][0]
        self.rel = (self.tree, self.layers, self.ins, self.outs, self.maps)

    @staticmethod
    def member_returned(ctx, q, rec):
        for f in ctx.P.byname.get(q, []):
            if f.get('body'):
                for t in Interp(ctx.P).run(f):
                    v = t.val
                    if v and v[0] == 'init' and v[1][0] == 'field':
                        return v[1][2]
        raise AnalysisError('%s: %s does not return a member' % (ctx.prop, q))


def repr_terms(e):
    return tuple(f for tr in e.traces for f in tr[0]) + tuple(x for tr in e.traces for ev in tr[1] for x in (ev.get('args') or ()))


def ev_field(t, name):
    """a member of an Event value"""
    while t[0] == 'upd':
        for path, v in reversed(t[2]):
            if path == ('field', name) or path == (('field', name),):
                return v
        t = t[1]
    return ('sub', t, 'field', name) if t[0] != 'init' else ('init', ('field', t[1], name))


def recursive_members(P, cls):
    out = set()
    for q, fs in P.byname.items():
        if not q.startswith(cls + '::'):
            continue
        for f in fs:
            if f.get('body') and q in str(f['body']):
                out.add(q)
    return out


class Effects:
    """event -> effects in a world"""

    def __init__(self, N, calls=(), fields=()):
        self.N, self.calls, self.fields = N, calls, fields

    def __call__(self, s, e):
        w, N = s.w, self.N
        if e.kind == 'call':
            n, q = e.get('n'), e.get('q', '')
            if n == 'handle' and 'Event' in q or q == ENV + '::handle':
                a = e.args[0]
                s.out.append(('ann', 'all') + tuple(w.go(ev_field(a, x)) for x in ('type', 'operation', 'a', 'b')))
                return
            if n == 'receive':
                a = e.args[0]
                s.out.append(('ann', w.go(addr_of(e.this))) + tuple(w.go(ev_field(a, x)) for x in ('type', 'operation', 'a', 'b')))
                return
            if e.get('mapop'):
                C = container(e.this)
                if C is None:
                    return
                op = e.mapop
                if op == 'eraseat':
                    lid = [x for x in subterms(e.args[0]) if x[0] == 'it']
                    if len(lid) == 1 and lid[0][1] in w.itmap and sub(e.args[0], lid[0])[0] in ('begin', 'mrange', 'call'):
                        k, v = w.node(*w.itmap[lid[0][1]])
                        s.out.append(('edit', C, 'erasenode', k, v))
                        return
                    if not lid and e.args[0][0] == 'mrange' and C not in N.unique:
                        k = w.go(e.args[0][2])
                        s.out.append(('edit', C, 'erasenode', k, w.leaf(('firstval', C, k), None)))
                        return
                    raise Lost('erased element is not the visited one')
                s.out.append(('edit', C, op) + tuple(w.go(a) for a in e.args))
                return
            if n == 'attachItem':
                s.out.append(('attach', w.go(e.args[0])))
                return
            if n == 'operator()' and re.match(r'(std|boost)::function', q):
                f, args = apply_closure(w.go(e.res[2][0]), tuple(w.go(a) for a in e.args))
                self.removal(s, f[1].split('::')[-1], f[2], args[1:])
                return
            if n in REMOVERS and REMOVERS[n][0] in self.calls:
                self.removal(s, n, e.d['node']['callee']['sig'] if e.d.get('node') and e.d['node'].get('callee') else '', tuple(w.go(a) for a in e.args))
                return
            if n in self.calls:
                o = w.go(addr_of(e.this)) if e.get('this') else SELF
                s.out.append(('call', n) + ((o,) if o != SELF else ()) + tuple(w.go(a) for a in e.args))
                return
            if e.get('this') and e.this[0] == 'var':
                if n in ('push_back', 'emplace_back', 'push_front', 'insert') and len(e.args) == 1:
                    s.pushed.setdefault(e.this, []).append(w.go(e.args[0]))
                    return
                if n == 'splice' or n == 'insert' and len(e.args) == 3:
                    src = e.args[1]
                    if n == 'insert':
                        b = [x for x in subterms(src) if x[0] == 'begin']
                        raise Lost('insert of a range')
                    s.pushed.setdefault(e.this, []).extend(s.listvals(src))
                    return
                if n in ('clear', 'pop_back', 'pop_front', 'erase', 'sort', 'unique', 'remove', 'swap', 'resize'):
                    raise Lost('list operation ' + n)
            if n in ('push_back', 'emplace_back') and e.get('this') and container_of(e.this):
                s.out.append(('push', container_of(e.this), w.go(e.args[0])))
                return
        elif e.kind == 'write':
            l = e.loc
            if l[0] == 'idx' and container(l[1]):
                s.out.append(('edit', container(l[1]), 'assign', w.go(l[2]), w.go(e.val)))
            elif l[0] == 'field' and l[1][0] == 'deref':
                if l[2] in self.fields:
                    s.out.append(('set', w.go(l[1][1]), l[2], w.go(e.val)))
        elif e.kind in ('delete', 'new'):
            pass


    def removal(self, s, name, sig, args):
        """a call of one of the functions that take a single link away"""
        N = self.N
        if name not in REMOVERS or len(args) != 2:
            raise Lost('call of %s' % name)
        C, key = {'tree': (N.tree, 1), 'ins': (N.ins, 0), 'outs': (N.outs, 0), 'maps': (N.maps, 0)}[REMOVERS[name][1]]
        if name == 'removeChild' and 'Layer' in sig:
            C = N.layers
        s.out.append(('unlink', C, args[key], args[1 - key]))


REMOVERS = {'removeChild': ('unlink', 'tree'), 'removeInput': ('unlink', 'ins'), 'removeOutput': ('unlink', 'outs'), 'detachFrameNode': ('unlink', 'maps')}


def container_of(l):
    while l[0] == 'field':
        if l[1][0] == 'deref':
            return l[2]
        l = l[1]
    return None


def addr_of(loc):
    return loc[1] if loc[0] == 'deref' else ('addr', loc)


def relation(w, N, effs):
    """what the edits leave changed"""
    uni, multi = {}, Counter()
    for e in effs:
        if e[0] != 'edit':
            continue
        C, op, k = e[1], e[2], e[3] if len(e) > 3 else None
        v = e[4] if len(e) > 4 else None
        if C in N.unique:
            cur = uni.get((C, k), ('init',))
            if cur == ('init',):
                cur = ('is', w.val(C, k)) if w.has(C, k) else ('no',)
            if op == 'insert':
                if cur == ('no',):
                    cur = ('is', v)
            elif op == 'assign':
                cur = ('is', v)
            elif op in ('erase', 'erase1', 'erasenode'):
                cur = ('no',)
            else:
                raise Lost('container operation ' + str(op))
            uni[(C, k)] = cur
        else:
            if op in ('insert', 'assign'):
                multi[(C, k, v)] += 1
            elif op == 'erasenode':
                multi[(C, k, v)] -= 1
            elif op == 'erase':
                multi[(C, k, 'every')] -= 1
            elif op == 'erase1':
                multi[(C, k, 'some')] -= 1
            else:
                raise Lost('container operation ' + str(op))
    out = {}
    for (C, k), cur in uni.items():
        ini_ = ('is', w.val(C, k)) if w.has(C, k) else ('no',)
        if cur != ini_:
            out[(C, k)] = cur
    return out, +multi, Counter({k: -v for k, v in multi.items() if v < 0})


def summary(w, N, effs, fields=()):
    sets = {}
    for e in effs:
        if e[0] == 'set' and e[2] in fields:
            sets[(e[1], e[2])] = e[3]
    return {
        'announced': [e[1:] for e in effs if e[0] == 'ann'],
        'relations': relation(w, N, effs),
        'attached': sorted(set(e[1] for e in effs if e[0] == 'attach')),
        'written': sets,
        'calls': [e[1:] for e in effs if e[0] == 'call'],
        'registered': [e[1:] for e in effs if e[0] == 'push'],
        'links taken away': sorted(set(e[1:] for e in effs if e[0] == 'unlink'), key=str),
    }


def order(N, effs):
    """an addition is announced once it is in place, a removal while it is still there"""
    keys = {FRAMENODE: (N.maps, 2), FRAMENODE_TREE: (N.tree, 3), LAYER_TREE: (N.layers, 3), ITEM: (N.items, None)}
    for i, e in enumerate(effs):
        if e[0] != 'ann' or e[2] not in keys or e[3] not in (ADD, REMOVE):
            continue
        C, k = keys[e[2]]
        touch = lambda x: x[0] == 'edit' and x[1] == C and (k is None or x[3] == e[2 + k])
        before, after = [x for x in effs[:i] if touch(x)], [x for x in effs[i + 1:] if touch(x)]
        if e[3] == ADD and not before and any(x[2] in ('insert', 'assign') for x in after):
            return 'order of change and announcement', ('the addition is in place when it is announced', 'announced before it is stored')
        if e[3] == REMOVE and not after and any(x[2].startswith('erase') for x in before):
            return 'order of change and announcement', ('the removal is announced while the link still exists', 'announced after it was erased')
    return None


def ann(t, o, a, b=0, to='all'):
    return ('ann', to, t, o, a, b)


class Rule:
    def __init__(self, ctx, N, rid):
        self.ctx, self.N, self.rid = ctx, N, rid

    def doms(self, nullable=(), extra=None):
        N = self.N

        def d(w, key, t):
            x = extra(w, key, t) if extra else None
            if x is not None:
                return x
            if key[0] == 'p':
                return (lambda: w.pointer(nonnull=key[1] not in nullable))
            if key[0] in ('val', 'nodekey', 'nodeval'):
                return (lambda: w.pointer(nonnull=True))
            if key[0] == 'init' and key[1][0] == 'field' and key[1][2] == N.env:
                return [0, SELF]
            if key[0] == 'init' and key[1] == ('field', ('deref', SELF), N.root):
                return (lambda: w.pointer(nonnull=True))
            if key[0] == 'isa':
                return [0, 1]
            return None
        return d

    def consistent(self, w):
        """items that are not attached take part in no relation"""
        for key, v in list(w.tab.items()):
            if key[0] == 'init' and key[1][0] == 'field' and key[1][2] == self.N.env and v == 0:
                o = key[1][1][1] if key[1][1][0] == 'deref' else None
                for k2, v2 in w.tab.items():
                    if k2[0] == 'has' and k2[2] == o and v2 or k2[0] in ('nodekey', 'nodeval') and v2 == o:
                        raise Prune
                    if k2[0] == 'val' and v2 == o and w.tab.get(('has',) + k2[1:]):
                        raise Prune

    def check(self, fn, spec, calls=(), search=False, fields=(), ret=None, parts=None, nullable=(), opaque=(), what=None, limit=60000, active=None, custom=None, dom=None, strings=()):
        """spec(w) -> the effects the function has to have in the world"""
        ctx, N = self.ctx, self.N
        calls = tuple(calls)
        rec = recursive_members(ctx.P, ENV)
        op = lambda q: q.split('::')[-1] in calls or 'unlink' in calls and q.split('::')[-1] in REMOVERS or q.split('::')[-1] in ('handle', 'receive', 'attachItem') or q in rec and q != fn['q'] or q in opaque
        name = what or bname(fn['q'])
        key = '%s%s' % (fn['q'], fn['sig'])
        try:
            I, tr = run(ctx, fn, opaque=lambda q: op(q) or q == fn['q'] and q in rec)
        except AnalysisError as e:
            ctx.und(self.rid, loc_of(fn), '%s: %s' % (name, e))
            return
        n, lost, bad = 0, None, None
        for t in tr:
            if t.out == 'throw' and t.val and str(t.val).find('assert') >= 0:
                continue
            sims = []

            def f(w):
                w.active = active
                w.strings = strings
                s = Sim(I, w, Effects(N, calls, fields))
                w.sim = s
                s.run(t)
                sims.append(s)
                if s.found and not search and t.out == 'ret' and any(l in w.itmap for l in s.found):
                    return ('stop', sorted(s.found))
                exp = spec(w)
                self.consistent(w)
                if exp is None:
                    return ('ok',)
                if t.out == 'throw':
                    got = s.out + [('throw',)]
                else:
                    got = s.out
                if custom:
                    r = custom(w, got, t)
                    if r:
                        return ('bad',) + r
                    if parts == ():
                        return ('ok',)
                if ('throw',) in exp or ('throw',) in got:
                    if (('throw',) in exp) != (('throw',) in got):
                        return ('bad', 'throws' if ('throw',) in got else 'does not throw', '')
                    exp, got = [x for x in exp if x != ('throw',)], [x for x in got if x != ('throw',)]
                r = order(N, got)
                if r:
                    return ('bad',) + r
                ge, gg = summary(w, N, exp, fields), summary(w, N, got, fields)
                for k in (ge if parts is None else parts):
                    if ge[k] != gg[k]:
                        return ('bad', k, (ge[k], gg[k]))
                if ret is not None and t.out == 'ret':
                    r = ret(w)
                    if r is not None:
                        if isinstance(r, list):
                            v = s.listvals(t.val)
                            if Counter(v) != Counter(r):
                                return ('bad', 'returned list', (r, v))
                        else:
                            v = w.go(t.val)
                            if v != r:
                                return ('bad', 'returned value', (r, v))
                return ('ok',)
            try:
                for w, r in explore(f, I.types, N.unique, self.doms(nullable, dom), limit):
                    n += 1
                    if r[0] != 'ok' and not bad:
                        bad = (t, r)
                        break
            except Lost as e:
                lost = str(e)
            except Partial as e:
                bad = (t, ('stop', [e.ev.lid]))
            except Budget:
                lost = 'too many cases'
            if bad:
                break
        ctx.count('worlds', n)
        if bad:
            t, r = bad
            if r[0] == 'stop':
                ctx.bad(self.rid, loc_of(fn), '%s leaves its loop before all elements are visited (path: %s)' % (name, show_facts(t)), key)
            else:
                ctx.bad(self.rid, loc_of(fn), '%s: %s differ from what the request asks for (path: %s; expected %s, found %s)' % (
                    name, r[1], show_facts(t), pretty(r[2][0] if r[2] else ''), pretty(r[2][1] if r[2] else '')), key)
        elif lost or not n:
            ctx.und(self.rid, loc_of(fn), '%s: %s' % (name, lost or 'no path was understood'))
        else:
            ctx.ok(self.rid, loc_of(fn), '%s%s (%d cases)' % (name, fn['sig'], n))


def pretty(x):
    s = str(x)
    s = re.sub(r'Fraction\((\d+), 1\)', r'\1', s)
    return s[:160]


def show_facts(t):
    return ' & '.join(show(f) for f in t.facts)[:200] or 'always'


def method(ctx, name, *args):
    """overload of an Environment member by the names of its parameter classes"""
    for f in ctx.P.byname.get(name if '::' in name else ENV + '::' + name, []):
        if f.get('body') and [a for a in re.findall(r'envire::(\w+) ?\*', f['sig'])] == list(args):
            return f
    raise AnalysisError('%s: %s(%s) not found (anchor lost)' % (ctx.prop, name, ', '.join(args)))


def par(fn, i):
    return ('p', fn['params'][i]['name'])


# ------------------------------------------------------------------ C01
@units(*CORE)
def C01(ctx):
    ctx.rule('announce', 'a request changes exactly the relation it names, and every change is announced once with its type, operation and operands; a request that changes nothing is not announced')
    ctx.rule('queries', 'a query reports exactly the stored relations')
    N = Names(ctx)
    R = Rule(ctx, N, 'announce')
    env = lambda w, o: w.leaf(('init', ('field', ('deref', o), N.env)), None)

    def need_attached(w, *os_):
        return [('attach', o) for o in os_ if env(w, o) == 0]

    f = method(ctx, 'setFrameNode', 'CartesianMap', 'FrameNode')

    def spec(w, f=f):
        m, n = w.go(par(f, 0)), w.go(par(f, 1))
        out = need_attached(w, n, m)
        if w.has(N.maps, m):
            if w.val(N.maps, m) == n:
                return out
            out.append(ann(FRAMENODE, REMOVE, m, w.val(N.maps, m)))
        return out + [('edit', N.maps, 'assign', m, n), ann(FRAMENODE, ADD, m, n)]
    R.check(f, spec)

    f = method(ctx, 'detachFrameNode', 'CartesianMap', 'FrameNode')

    def spec(w, f=f):
        m, n = w.go(par(f, 0)), w.go(par(f, 1))
        if w.has(N.maps, m) and w.val(N.maps, m) == n:
            return [ann(FRAMENODE, REMOVE, m, n), ('edit', N.maps, 'erase', m)]
        return []
    R.check(f, spec)

    f = method(ctx, 'addChild', 'FrameNode', 'FrameNode')

    def spec(w, f=f):
        p, c = w.go(par(f, 0)), w.go(par(f, 1))
        if w.has(N.tree, c) and w.val(N.tree, c) == p:
            return []
        out = need_attached(w, c)
        if w.has(N.tree, c):
            out.append(ann(FRAMENODE_TREE, REMOVE, w.val(N.tree, c), c))
        return out + [('edit', N.tree, 'assign', c, p), ann(FRAMENODE_TREE, ADD, p, c)]
    R.check(f, spec)

    f = method(ctx, 'removeChild', 'FrameNode', 'FrameNode')

    def spec(w, f=f):
        p, c = w.go(par(f, 0)), w.go(par(f, 1))
        if w.has(N.tree, c) and w.val(N.tree, c) == p:
            return [ann(FRAMENODE_TREE, REMOVE, p, c), ('edit', N.tree, 'erase', c)]
        return []
    R.check(f, spec)

    def linkadd(f, C, a, b, attach, announce, ret=None):
        """a: index of the key, b: index of the value"""
        def spec(w):
            k, v = w.go(par(f, a)), w.go(par(f, b))
            if w.node(C, 0) == (k, v):
                return []
            out = need_attached(w, *[w.go(par(f, i)) for i in attach])
            out.append(('edit', C, 'insert', k, v))
            if announce:
                out.append(ann(LAYER_TREE, ADD, v, k))
            return out
        R.check(f, spec, search=True, ret=(lambda w: int(w.node(C, 0) != (w.go(par(f, a)), w.go(par(f, b))))) if ret else None)

    def linkdel(f, C, a, b, announce):
        def spec(w):
            k, v = w.go(par(f, a)), w.go(par(f, b))
            if w.node(C, 0) == (k, v):
                return ([ann(LAYER_TREE, REMOVE, v, k)] if announce else []) + [('edit', C, 'erasenode', k, v)]
            return []
        R.check(f, spec, search=True)
    linkadd(method(ctx, 'addChild', 'Layer', 'Layer'), N.layers, 1, 0, (1,), True)
    linkdel(method(ctx, 'removeChild', 'Layer', 'Layer'), N.layers, 1, 0, True)
    for n, C in (('Input', N.ins), ('Output', N.outs)):
        linkadd(method(ctx, 'add' + n, 'Operator', 'Layer'), C, 0, 1, (0, 1), False, ret=True)
        linkdel(method(ctx, 'remove' + n, 'Operator', 'Layer'), C, 0, 1, False)
        f = method(ctx, 'remove' + n + 's', 'Operator')
        R.check(f, lambda w, f=f, C=C: [('edit', C, 'erase', w.go(par(f, 0)))])

    f = method(ctx, 'itemModified', 'EnvironmentItem')
    R.check(f, lambda w: [ann(ITEM, UPDATE, w.go(par(f, 0)))])

    g = method(ctx, 'envire::EnvironmentItem::itemModified')
    R.check(g, lambda w: [ann(ITEM, UPDATE, SELF)] if env(w, SELF) else [], what='EnvironmentItem::itemModified')
    for g in ctx.P.byname.get('envire::FrameNode::setTransform', []):
        if g.get('body'):
            R.check(g, lambda w: [ann(ITEM, UPDATE, SELF)] if env(w, SELF) else [], what='FrameNode::setTransform')

    # forwarding to the handlers
    h = [f for f in ctx.P.byname.get(ENV + '::handle', []) if f.get('body')]
    if h:
        R.check(h[0], lambda w: [ann(*[w.go(ev_field(('init', ('deref', par(h[0], 0))), x)) for x in ('type', 'operation', 'a', 'b')])], what='Environment::handle')

    queries(ctx, N)


def queries(ctx, N):
    Q = Rule(ctx, N, 'queries')
    env = lambda w, o: w.leaf(('init', ('field', ('deref', o), N.env)), None)

    def q(f, C, by, want, what=None):
        """list of the `want` sides of the elements whose `by` side is the argument"""
        def ret(w):
            e = w.node(C, 0)
            return [e[want]] if e[by] == w.go(par(f, 0)) else []
        Q.check(f, lambda w: [], ret=ret)
    f = method(ctx, 'getParent', 'FrameNode')
    Q.check(f, lambda w: [], ret=lambda w: w.val(N.tree, w.go(par(f, 0))) if w.has(N.tree, w.go(par(f, 0))) else 0, search=True)
    g = method(ctx, 'getFrameNode', 'CartesianMap')
    Q.check(g, lambda w: [], ret=lambda w: w.val(N.maps, w.go(par(g, 0))) if w.has(N.maps, w.go(par(g, 0))) else 0, search=True)
    q(method(ctx, 'getParents', 'Layer'), N.layers, 0, 1)
    q(method(ctx, 'getChildren', 'FrameNode'), N.tree, 1, 0)
    for x in ctx.P.byname.get(ENV + '::getChildren', []):
        if x.get('body') and 'Layer' in x['sig']:
            q(x, N.layers, 1, 0)
    q(method(ctx, 'getMaps', 'FrameNode'), N.maps, 1, 0)
    q(method(ctx, 'getInputs', 'Operator'), N.ins, 0, 1)
    q(method(ctx, 'getOutputs', 'Operator'), N.outs, 0, 1)
    if N.conflict:
        ctx.bad('queries', loc_of(method(ctx, 'getOutputs', 'Operator')), 'the inputs and the outputs of an operator are read from the same table', ENV + '::getOutputs')
    l = method(ctx, 'getLayersGeneratedFrom', 'Layer')

    def ret(w):
        i, o = w.node(N.ins, 0), w.node(N.outs, 0)
        return [o[1]] if i[1] == w.go(par(l, 0)) and o[0] == i[0] else []
    Q.check(l, lambda w: [], ret=ret)
    k = method(ctx, 'getGenerator', 'Layer')

    def ret(w):
        o = w.node(N.outs, 0)
        return o[0] if o[1] == w.go(par(k, 0)) else 0
    Q.check(k, lambda w: [], ret=ret, search=True)


# ------------------------------------------------------------------ C02
def item_id(w, N, o):
    return w.leaf(('init', ('field', ('deref', o), N.id)), None)


@units(*CORE)
def C02(ctx):
    ctx.rule('detach', 'detaching an item takes away every link it takes part in, on either side, then announces the removal, erases it from the item table, clears its back pointer and returns it')
    ctx.rule('deep', 'a deep detach also detaches the children and the maps of a frame node, deeply')
    ctx.rule('destroy', 'destroying the environment detaches every item')
    N = Names(ctx)
    f = method(ctx, 'detachItem', 'EnvironmentItem')
    item, deep = par(f, 0), par(f, 1)
    R = Rule(ctx, N, 'detach')

    def dom(w, key, t):
        if key == deep:
            return [0, 1]
        return None
    names = {N.tree: 'frame node tree', N.layers: 'layer links', N.ins: 'operator inputs', N.outs: 'operator outputs', N.maps: 'map links'}

    for C in N.rel:
        def spec(w, C=C):
            i = w.go(item)
            if w.val(N.items, item_id(w, N, i)) != i:
                raise Prune
            k, v = w.node(C, 0)
            if k == v:
                raise Prune
            out = [('unlink', C, k, v)] if i in (k, v) else []
            return out + [ann(ITEM, REMOVE, i), ('edit', N.items, 'erase', item_id(w, N, i)), ('set', i, N.env, 0)]

        def custom(w, got, t, C=C):
            un = [n for n, e in enumerate(got) if e[0] == 'unlink']
            an = [n for n, e in enumerate(got) if e[0] == 'ann' and e[2:4] == (ITEM, REMOVE)]
            if un and an and max(un) > min(an):
                return 'order', ('links are taken away before the removal of the item is announced', 'the other way round')
            i = w.go(item)
            k, v = w.node(C, 0)
            ch = [e for e in got if e[0] == 'call']
            want = [('call', 'detachItem', k, 1)] if C in (N.tree, N.maps) and w.go(deep) and v == i and w.leaf(('isa', 'envire::FrameNode', i), None) else []
            ch = [e[:3] + (1 if len(e) > 3 and e[3] not in (0,) else 0,) for e in ch]
            if set(ch) != set(want):
                return 'items detached along with it', (want, ch)
            return None
        R.check(f, spec, calls=('unlink', 'detachItem'), fields=(N.env,), parts=('announced', 'relations', 'written', 'links taken away'), active=(C,), custom=custom, dom=dom,
                ret=lambda w: w.go(item), what='detachItem: ' + names[C])

    d = [g for g in ctx.P.byname.get(ENV + '::<dtor>', []) + ctx.P.byname.get(ENV + '::~Environment', []) if g.get('body')]
    ctx.need(len(d), 'destructor of Environment')
    I, tr = run(ctx, d[0], opaque=lambda q: q.split('::')[-1] in ('detach', 'detachItem'))
    verdict = None
    for t in tr:
        if t.out == 'throw':
            continue
        hit = False
        for e in loops_in(t.events):
            cs = [(x, p) for tr_ in e.traces for x, p in walk_events(tr_[1]) if x.kind == 'call' and x.get('n') in ('detach', 'detachItem')]
            if not cs:
                continue
            hit = True
            if any(not [x for x, _ in walk_events(tr_[1]) if x.kind == 'call' and x.get('n') in ('detach', 'detachItem')] for tr_ in e.traces if tr_[2][0] == 'norm'):
                verdict = False
            if any(tr_[2][0] not in ('norm', 'cont') for tr_ in e.traces):
                verdict = False
        if not hit:
            verdict = False
        elif verdict is None:
            verdict = True
    ctx.check(verdict, 'destroy', loc_of(d[0]), '~Environment detaches the items one after the other until none is left', ENV + '::~Environment')


# ------------------------------------------------------------------ C03
@units(*CORE)
def C03(ctx):
    ctx.rule('attach', 'an item enters the item table exactly once, under its own identifier, only if that identifier is free; its back pointer is set and the addition announced; otherwise the call throws and nothing has changed')
    ctx.rule('identity', 'the identifier of an attached item does not change')
    ctx.rule('alive', 'an item is kept alive while it is in an environment and freed with its last reference')
    N = Names(ctx)
    f = method(ctx, 'attachItem', 'EnvironmentItem')
    R = Rule(ctx, N, 'attach')
    item = par(f, 0)
    prefix = [x['name'] for x in ctx.P.records[ENV]['fields'] if 'basic_string' in x['t'] and not x.get('static') and 'map<' not in x['t']]

    def dom(w, key, t):
        if key[0] == 'init' and key[1][0] == 'field' and key[1][2] == N.env:
            return [0, SELF, UNIT * 50]
        if key[0] == 'init' and key[1][0] == 'field' and key[1][2] == N.id:
            return ['', 'a', '/a', 'b/', '/b/']
        if key[0] == 'init' and key[1] == ('field', ('deref', SELF), prefix[0] if prefix else None):
            return ['/', '/p/']
        if key[0] == 'post' and 'basic_string' in str(w.types.get(t, 'basic_string')):
            return ['/free8']
        if key[0] == 'init' and key[1][0] == 'field' and key[1][1] == ('deref', SELF) and is_int(w.types.get(t) or ''):
            return [3]
        return None

    def spec(w):
        return []

    def custom(w, got, t):
        i = w.go(item)
        e0 = w.leaf(('init', ('field', ('deref', i), N.env)), None)
        id0 = item_id(w, N, i)
        if e0 == SELF and not (w.has(N.items, id0) and w.val(N.items, id0) == i):
            raise Prune
        thrown = ('throw',) in got
        sets = {}
        for e in got:
            if e[0] == 'set':
                sets[(e[1], e[2])] = e[3]
        idn = sets.get((i, N.id), id0)
        if e0 and (i, N.id) in sets and sets[(i, N.id)] != id0:
            return 'identifier', ('an attached item keeps its identifier', 'it is overwritten')
        ed, mu1, mu2 = relation(w, N, got)
        an = [e[1:] for e in got if e[0] == 'ann']
        if e0 == SELF and not thrown and (ed or an):
            return 'outcome', ('throws for an item that is already attached here', (ed, an))
        if thrown:
            if not w.has(N.items, idn):
                return 'outcome', ('a free identifier is accepted', 'throws')
            if not e0 and (id0 == '' or id0.endswith('/')):
                return 'outcome', ('an item without an identifier of its own always gets a free one', 'throws')
            if ed or an or (i, N.env) in sets:
                return 'outcome', ('a rejected item leaves no trace', (ed, an, sets))
            return None
        if e0 == SELF:
            return None
        if not e0 and idn != '/free8':
            pre = w.leaf(('init', ('field', ('deref', SELF), prefix[0])), None) if prefix else '/'
            want = id0 if id0.startswith('/') else pre + id0
            if not (idn == want or want.endswith('/') and idn.startswith(want) and len(idn) > len(want)):
                return 'identifier', ('%s for "%s" with the prefix "%s"' % (want, id0, pre), idn)
        if e0 and not any(e[0] == 'call' and i in e[2:] for e in got):
            return 'outcome', ('an item of another environment is detached from it', 'it stays there')
        if w.has(N.items, idn):
            return 'outcome', ('an identifier that is taken is rejected', 'accepted')
        if ed != {(N.items, idn): ('is', i)} or mu1 or mu2:
            return 'item table', ('the item under its identifier', ed)
        if sets.get((i, N.env)) != SELF:
            return 'back pointer', ('this environment', sets.get((i, N.env)))
        if an != [('all', ITEM, ADD, i, 0)]:
            return 'announced', ('ITEM ADD once', an)
        k = [n for n, e in enumerate(got) if e[0] == 'ann'][0]
        if any(e[0] in ('edit',) or e[0] == 'set' and e[2] == N.env for e in got[k + 1:]):
            return 'order of change and announcement', ('announced when the item is in place', 'announced before')
        return None
    R.check(f, spec, calls=('detach', 'detachItem'), fields=(N.env, N.id), parts=(), custom=custom, dom=dom, what='attachItem', limit=200000, strings=(N.id,) + tuple(prefix))

    g = method(ctx, 'attachItem', 'CartesianMap', 'FrameNode')

    def spec(w):
        m, n = w.go(par(g, 0)), w.go(par(g, 1))
        to = n or w.leaf(('init', ('field', ('deref', SELF), N.root)), None)
        out = [('attach', m)]
        e = lambda o: w.leaf(('init', ('field', ('deref', o), N.env)), None)
        if e(m) not in (0, SELF):
            raise Prune
        if not w.has(N.maps, m):
            if e(to) == 0:
                out.append(('attach', to))
            out += [('edit', N.maps, 'assign', m, to), ann(FRAMENODE, ADD, m, to)]
        return out

    R.check(g, spec, nullable=(par(g, 1)[1],), what='attachItem(CartesianMap)')
    identity(ctx, N)


def identity(ctx, N):
    """writers of the identifier and of the back pointer; reference counting"""
    P = ctx.P
    it = 'envire::EnvironmentItem'
    f = [x for x in P.byname.get(it + '::setUniqueId', []) if x.get('body')]
    ctx.need(len(f), 'EnvironmentItem::setUniqueId')
    I, tr = run(ctx, f[0])
    own = fld(N.env)
    idl = fld(N.id)
    ok = True
    for t in tr:
        att = [x for x in (('cmp', '==', ('init', own), True), ('cmp', '!=', ('init', own), True)) if x in t.facts]
        wr = [e for e, _ in walk_events(t.events) if e.kind == 'write' and e.loc == idl]
        if t.out == 'throw':
            if wr:
                ok = False
            if att and att[0][1] == '==':
                ok = False
        elif wr and not (att and att[0][1] == '=='):
            ok = False
        elif not wr and t.out == 'ret' and att and att[0][1] == '==':
            ok = False
        elif wr and wr[-1].val != par(f[0], 0) and not (wr[-1].val[0] == 'init' and contains(wr[-1].val, lambda x: x == par(f[0], 0))):
            ok = False
    ctx.check(ok, 'identity', loc_of(f[0]), 'setUniqueId changes the identifier of an item that is not attached and throws for one that is', it + '::setUniqueId')

    inc = [x for x in P.byname.get('envire::intrusive_ptr_add_ref', []) if x.get('body') and 'EnvironmentItem' in x['sig']]
    dec = [x for x in P.byname.get('envire::intrusive_ptr_release', []) if x.get('body') and 'EnvironmentItem' in x['sig']]
    ctx.need(len(inc) and len(dec), 'intrusive_ptr_add_ref/release')
    I, tr = run(ctx, inc[0])
    p = ('deref', par(inc[0], 0))
    w = [e for t in tr for e, _ in walk_events(t.events) if e.kind == 'write' and e.loc[0] == 'field' and e.loc[1] == p]
    cnt = w[0].loc[2] if w else None
    ctx.check(len(tr) == 1 and len(w) == 1 and w[0].val == add(('init', w[0].loc), ONE) and not [e for e, _ in walk_events(tr[0].events) if e.kind == 'delete'], 'alive', loc_of(inc[0]),
              'intrusive_ptr_add_ref counts one more reference', 'intrusive_ptr_add_ref')
    I, tr = run(ctx, dec[0])
    p = ('deref', par(dec[0], 0))
    l = ('field', p, cnt)
    ok = bool(cnt)
    kinds = set()
    for t in tr:
        ws = [e for e, _ in walk_events(t.events) if e.kind == 'write' and e.loc == l]
        de = [e for e, _ in walk_events(t.events) if e.kind == 'delete']
        if len(ws) != 1 or ws[0].val != sub(('init', l), ONE):
            ok = False
            continue
        z = cmp('==', sub(('init', l), ONE), ZERO, True)
        pos = cmp('<=', sub(('init', l), ONE), ZERO, True)
        dead = z in t.facts or pos in t.facts
        kinds.add(dead)
        if dead != (len(de) == 1) or len(de) > 1 or de and de[0].ptr != par(dec[0], 0):
            ok = False
    ctx.check(ok and kinds == {True, False}, 'alive', loc_of(dec[0]), 'intrusive_ptr_release counts one reference less and frees the item with the last one', 'intrusive_ptr_release')

    # who writes the identifier, the back pointer, the reference count
    allowed_env = {ENV + '::attachItem', ENV + '::detachItem'}
    allowed_id = {ENV + '::attachItem', it + '::setUniqueId', it + '::unserialize', 'envire::Event::ref', ENV + '::<ctor>'}
    n = 0
    for q, fs in P.byname.items():
        for g in fs:
            if not g.get('body') or not g['file'].startswith(P.repo if hasattr(P, 'repo') else '/'):
                continue
            for node in member_writes(g['body'], (N.env, N.id)):
                n += 1
                if q.startswith(it + '::') and g['kind'] == 'ctor':
                    continue
    return n


def member_writes(b, names):
    return ()


# ------------------------------------------------------------------ C04
@units(*CORE)
def C04(ctx):
    ctx.rule('join', 'a handler that joins is told about every item, the root, the whole frame tree below it, every map link and every layer link, items before the relations they appear in, and is registered')
    ctx.rule('leave', 'a handler that leaves is told the removal of everything it was told about, relations before the items they connect, and is unregistered')
    ctx.rule('source', 'an event reaches every registered handler once; a handler that was removed is not called any more')
    N = Names(ctx)
    root = lambda w: w.leaf(('init', ('field', ('deref', SELF), N.root)), None)
    pub = [f for f in ctx.P.byname.get(ENV + '::publishChilds', []) if f.get('body')]
    J = Rule(ctx, N, 'join')
    L = Rule(ctx, N, 'leave')
    rec = recursive_members(ctx.P, ENV)
    a = method(ctx, 'addEventHandler', 'EventHandler')
    r = method(ctx, 'removeEventHandler', 'EventHandler')

    def told(got, h):
        return Counter(e[2:] for e in got if e[0] == 'ann' and e[1] == h)

    def walkers(fn, op):
        """the recursive members that walk the frame tree: announce `op` for every tree link below their node argument"""
        out = {}
        for q in sorted(rec):
            for g in ctx.P.byname[q]:
                if g.get('body') and re.search(r'FrameNode \*', g['sig']) and re.search(r'EventHandler \*', g['sig']):
                    out[q] = g
        return out

    def join(w, got, h):
        """order: an item is known before it is mentioned in a relation"""
        pos = {}
        for n, e in enumerate(got):
            if e[0] == 'ann' and e[2:4] == (ITEM, ADD):
                pos.setdefault('item', n)
            elif e[0] == 'ann' or e[0] == 'call' and e[1] != 'addEventHandler':
                pos.setdefault('rel', n)
        last = max([n for n, e in enumerate(got) if e[0] == 'ann' and e[2:4] == (ITEM, ADD)] or [-1])
        if 'rel' in pos and last > pos['rel']:
            return 'order', ('items first', 'a relation is announced before the items')
        return None

    W = walkers(a, ADD)
    wn = sorted(set(q.split('::')[-1] for q in W))

    def node_args(g):
        """(index of the node parameter, index of the handler parameter)"""
        ps = [p['t'] for p in g['params']]
        return [i for i, t in enumerate(ps) if 'FrameNode' in t][0], [i for i, t in enumerate(ps) if 'EventHandler' in t][0]

    def handler_registered(name):
        def chk(w, got, h):
            reg = [e for e in got if e[0] == 'call' and e[1] == name]
            if len(reg) != 1 or reg[0][-1] != h:
                return 'registration', ('one %s' % name, reg)
            return None
        return chk

    def full(fn, C, op, rule, regname, rest):
        def custom(w, got, t):
            h = w.go(par(fn, 0))
            if h == root(w):
                raise Prune
            exp = Counter({(ROOT, op, root(w), 0): 1})
            exp.update(rest(w, C))
            calls_ = Counter(e[1:] for e in got if e[0] == 'call' and e[1] in wn)
            for q, g in W.items():
                ni, hi = node_args(g)
            g2 = told(got, h)
            if g2 != exp:
                return 'announced', (dict(exp), dict(g2))
            if any(e[0] == 'ann' and e[1] != h for e in got):
                return 'announced', ('only the handler is told', 'others are told too')
            cs = [e for e in got if e[0] == 'call' and e[1] in wn]
            if len(cs) != 1 or sorted(cs[0][2:]) != sorted((h, root(w))):
                return 'frame tree', ('published below the root', cs)
            r_ = handler_registered(regname)(w, got, h)
            if r_:
                return r_
            if op == ADD:
                return join(w, got, h)
            it = [n for n, e in enumerate(got) if e[0] == 'ann' and e[2] == ITEM]
            rel = [n for n, e in enumerate(got) if e[0] == 'ann' and e[2] != ITEM or e[0] == 'call' and e[1] in wn]
            if it and rel and min(it) < max(rel):
                return 'order', ('relations are taken away before the items', 'an item is taken away first')
            return None
        (J if op == ADD else L).check(fn, lambda w: [], calls=tuple(wn) + (regname,), parts=(), custom=custom, active=C, what='%s: %s' % (bname(fn['q']), ', '.join(C)), limit=200000)

    def added(w, C):
        out = Counter()
        if N.items in C:
            out[(ITEM, ADD, w.node(N.items, 0)[1], 0)] += 1
        if N.maps in C:
            k, v = w.node(N.maps, 0)
            out[(FRAMENODE, ADD, k, v)] += 1
        if N.layers in C:
            k, v = w.node(N.layers, 0)
            out[(LAYER_TREE, ADD, v, k)] += 1
        return out

    def removed(w, C):
        out = Counter()
        if N.items in C:
            out[(ITEM, REMOVE, w.node(N.items, 0)[1], 0)] += 1
        if N.maps in C:
            k, v = w.node(N.maps, 0)
            if v == root(w):
                out[(FRAMENODE, REMOVE, k, v)] += 1
        if N.layers in C:
            k, v = w.node(N.layers, 0)
            out[(LAYER_TREE, REMOVE, v, k)] += 1
        return out
    for C in ((N.items, N.maps), (N.items, N.layers), (N.tree,)):
        full(a, C, ADD, J, 'addEventHandler', added)
        full(r, C, REMOVE, L, 'removeEventHandler', removed)

    for q, g in W.items():
        ni, hi = node_args(g)
        op = None
        I = Interp(ctx.P, opaque=lambda q2: q2.split('::')[-1] in ('receive',) or q2 in rec)
        for t in I.run(g):
            for e, _ in walk_events(t.events):
                if e.kind == 'call' and e.get('n') == 'receive':
                    ty, o = ev_field(e.args[0], 'type'), ev_field(e.args[0], 'operation')
                    if ty == ('n', Fr(FRAMENODE_TREE)) and o[0] == 'n':
                        op = int(o[1])
        if op is None:
            ctx.und('join', loc_of(g), '%s announces no tree link' % bname(q))
            continue
        me = q.split('::')[-1]

        def custom(w, got, t, g=g, ni=ni, hi=hi, op=op, me=me):
            h, p = w.go(par(g, hi)), w.go(par(g, ni))
            k, v = w.node(N.tree, 0)
            if h in (p, k, v) or k == v:
                raise Prune
            child = v == p
            exp = Counter({(FRAMENODE_TREE, op, p, k): 1} if child else {})
            mp = None
            if op == REMOVE:
                mk_, mv = w.node(N.maps, 0)
                if child and mv == k:
                    mp = (FRAMENODE, REMOVE, mk_, k)
                    exp[mp] += 1
                elif mv == p and not child:
                    pass
            g2 = told(got, h)
            if g2 != exp:
                return 'announced', (dict(exp), dict(g2))
            cs = [e for e in got if e[0] == 'call' and e[1] == me]
            want = tuple([h, k] if hi < ni else [k, h])
            if child:
                sub_ = w.node(N.tree, 1)
                if sub_[0] in (k, p):
                    raise Prune
                need = sub_[1] == k
                if [c[2:] for c in cs] != [want] and (cs or need):
                    return 'recursion', ('the children of the node are visited too', cs)
            elif cs:
                return 'recursion', ('none', cs)
            ci = [n for n, e in enumerate(got) if e[0] == 'call' and e[1] == me]
            ti = [n for n, e in enumerate(got) if e[0] == 'ann' and e[2] == FRAMENODE_TREE]
            mi = [n for n, e in enumerate(got) if e[0] == 'ann' and e[2] == FRAMENODE]
            if op == ADD and ci and ti and min(ci) < min(ti):
                return 'order', ('the link to a node is announced before the links below it', 'afterwards')
            if op == REMOVE and ti and (ci and max(ci) > min(ti) or mi and max(mi) > min(ti)):
                return 'order', ('a node is taken away after what hangs on it', 'before')
            return None
        (J if op == ADD else L).check(g, lambda w: [], calls=(me,), parts=(), custom=custom, active=(N.tree, N.maps) if op == REMOVE else (N.tree,), what=me, limit=400000)
    source(ctx, N)


def source(ctx, N):
    P = ctx.P
    S = 'envire::EventSource'
    rec = P.records.get(S)
    if not rec:
        raise AnalysisError('EventSource not found (anchor lost)')
    hs = [f['name'] for f in rec['fields'] if 'EventHandler *' in f['t']]
    if len(hs) != 1:
        raise AnalysisError('EventSource: list of handlers not found')
    C = hs[0]
    loc = fld(C)
    f = method(ctx, S + '::handle')
    R = Rule(ctx, N, 'source')

    def custom(w, got, t):
        e = w.leaf(('elem', C, 0), None)
        exp = [('ann', e) + tuple(w.go(ev_field(('init', ('deref', par(f, 0))), x)) for x in ('type', 'operation', 'a', 'b'))]
        got = [x for x in got if x[0] == 'ann']
        if got != exp:
            return 'handlers called', ('every registered handler once with the event', got)
        return None
    R.check(f, lambda w: [], parts=(), custom=custom, what='EventSource::handle', dom=lambda w, key, t: (lambda: w.pointer(nonnull=True)) if key[0] == 'elem' else [0] if key[0] == 'init' and key[1][0] == 'field' and key[1][2] in ('type', 'operation', 'a', 'b') else None)

    g = method(ctx, S + '::addEventHandler', 'EventHandler')
    I, tr = run(ctx, g)
    ok = True
    for t in tr:
        if t.out != 'ret':
            ok = False
            continue
        ps = [e for e, _ in walk_events(t.events) if e.kind == 'call' and e.get('this') and e.this == loc]
        ins = [e for e in ps if e.n in ('push_back', 'emplace_back', 'push_front', 'insert') and e.args[-1:] == (par(g, 0),)]
        if len(ins) != 1 or len(ps) != 1:
            ok = None if ps and not [x for x in t.facts] else (False if not ps and not contains_guard(t, loc) else None)
            break
    ctx.check(ok, 'source', loc_of(g), 'addEventHandler registers the handler', S + '::addEventHandler')

    h = method(ctx, S + '::removeEventHandler', 'EventHandler')
    I, tr = run(ctx, h)
    p = par(h, 0)
    verdict, why = None, 'removeEventHandler takes the handler out of the list'
    for t in tr:
        ers = [(e, pa) for e, pa in walk_events(t.events) if e.kind == 'call' and e.get('this') and e.this == loc and e.n in ('erase', 'remove', 'remove_if', 'clear', 'pop_back', 'resize')]
        for e, pa in ers:
            if e.n == 'remove' and e.args == (p,):
                verdict = True
            elif e.n == 'clear':
                verdict = False
            elif e.n == 'erase' and len(e.args) == 2 and e.args[0][0] == 'call' and bname(e.args[0][1]) in ('remove', 'remove_if'):
                b = e.args[0][2]
                end = e.args[1]
                whole = b[0] == ('begin', loc, ZERO) and b[1] == end and end == add(('begin', loc, ZERO), size_of(('init', loc)))
                if bname(e.args[0][1]) == 'remove':
                    same = b[2] == p or b[2] == ('init', ('deref', p)) or b[2] == ('addr', p)
                else:
                    same = predicate_is_equal(I, b[2], p)
                verdict = None if whole is True and same is None else bool(whole and same)
                if not whole:
                    why = 'removeEventHandler searches only a part of the list'
                elif same is False:
                    why = 'removeEventHandler takes out other handlers than the one named'
            elif e.n == 'erase' and len(e.args) == 1:
                a0 = e.args[0]
                if a0[0] == 'call' and bname(a0[1]) in ('remove', 'remove_if'):
                    verdict, why = False, 'only one element is erased from the end of the partition'
                elif a0[0] == 'call' and bname(a0[1]) == 'find' and not pa:
                    verdict, why = False, 'removeEventHandler takes out only the first registration of the handler'
        if verdict is False:
            break
    if verdict is None and not any(e.kind == 'call' and e.get('this') and e.this == loc or e.kind == 'write' for t in tr for e, _ in walk_events(t.events)):
        verdict, why = False, 'removeEventHandler does not change the list of handlers'
    ctx.check(verdict, 'source', loc_of(h), why, S + '::removeEventHandler')

    # the filter
    q = method(ctx, 'envire::EventHandler::receive')
    I, tr = run(ctx, q, opaque=lambda x: x.split('::')[-1] in ('filter', 'handle'))
    ok = True
    fl = [f_['name'] for f_ in P.records['envire::EventHandler']['fields'] if 'EventFilter' in f_['t']]
    for t in tr:
        fp = ini(*fl)
        nofilter = cmp('==', fp, ZERO, True) in t.facts
        hd = [e for e, _ in walk_events(t.events) if e.kind in ('call', 'ccall') and e.get('n') == 'handle']
        fi = [e for e, _ in walk_events(t.events) if e.kind in ('call', 'ccall') and e.get('n') == 'filter']
        ev = ('init', ('deref', par(q, 0)))
        if len(hd) > 1 or len(fi) > 1 or any(e.args != (ev,) for e in hd + fi):
            ok = False
        elif nofilter:
            ok = ok and len(hd) == 1 and not fi
        elif not fi:
            ok = False
        else:
            passed = I_truth(t.facts, fi[0].res)
            if passed is None:
                ok = None
            elif ok:
                ok = passed == bool(hd)
    ctx.check(ok, 'source', loc_of(q), 'EventHandler::receive passes the event on unless a filter rejects it', 'envire::EventHandler::receive')


def I_truth(facts, v):
    for f in facts:
        if f == v:
            return True
        if f == ('not', v):
            return False
        if f[0] == 'cmp' and f[2] == v:
            return f[1] == '!='
    return None


def contains_guard(t, loc):
    return any(contains(f, lambda x: x == loc) for f in t.facts)


def predicate_is_equal(I, pred, p):
    """is the predicate value true exactly for the element p"""
    if pred[0] == 'cmp':
        others = [x for x in subterms(pred[2]) if x[0] == 'init' and x[1][0] == 'glob']
        if pred[1] in ('==', '!=') and len(set(others)) == 1:
            eq = cmp('==', p, others[0], True)
            if pred == eq:
                return True
            if pred == cmp('!=', p, others[0], True):
                return False
    if pred[0] == 'lambda':
        return None
    return None


PROPS = {'C01': C01, 'C02': C02, 'C03': C03, 'C04': C04}
