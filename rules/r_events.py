"""Events: dispatch, application to another environment, merging in queues, conversion to binary events."""
from .lib import *
from .worlds import Lost, Prune
from .sim import Eval, Choose, product
from .r_env import CORE, ENV, ev_field, method, par, ITEM, FRAMENODE_TREE, FRAMENODE, LAYER_TREE, ROOT, ADD, REMOVE, UPDATE, TN, ON

EV = 'envire::Event'
DISP = 'envire::EventDispatcher'
QUEUE = 'envire::EventQueue'
SYNC = 'envire::SynchronizationEventHandler'
TYPES, OPS = range(5), range(3)
LEGAL = [(t, o) for t in TYPES for o in OPS if o != UPDATE or t == ITEM]


def body_of(ctx, q, pred=None):
    fs = [f for f in ctx.P.byname.get(q, []) if f.get('body') and (pred is None or pred(f))]
    if not fs:
        raise AnalysisError('%s: %s not found (anchor lost)' % (ctx.prop, q))
    return fs[0]


def decide(ctx, rid, fn, inputs, leaf, hook, want, opaque=(), what=None, final=None, free=None, describe=str):
    """for every abstract input: the effects (and results) of the path taken are the wanted ones

    leaf(x, E, t), hook(x, E, e), want(x) -> list of effects, final(x, E, I, trace) -> extra effects"""
    name = what or bname(fn['q'])
    key = fn['q'] + fn['sig']
    op = opaque if callable(opaque) else lambda q: q.split('::')[-1] in opaque
    try:
        I, tr = run(ctx, fn, opaque=op)
    except AnalysisError as e:
        ctx.und(rid, loc_of(fn), '%s: %s' % (name, e))
        return None
    n = 0
    for x in inputs:
        work, seen = [{}], 0
        while work:
            chosen = work.pop()
            seen += 1
            if seen > 200:
                ctx.und(rid, loc_of(fn), '%s: too many open values' % name)
                return None
            try:
                hit, lost = None, None
                for t in tr:
                    E = Eval(I, lambda E, u: leaf(x, E, u), lambda E, e: hook(x, E, e))
                    E.trace, E.chosen = t, chosen
                    E.free = (lambda E, u: free(x, E, u)) if free else None
                    try:
                        if not E.run(t):
                            continue
                        got = E.out + (final(x, E, I, t) if final else [])
                        if t.out == 'throw':
                            got = got + [('throw',)]
                        hit = got
                        break
                    except Prune:
                        continue
                    except Lost as e:
                        lost = str(e)
            except Choose as c:
                work += [dict(chosen, **{}) | {c.t: v} for v in c.dom]
                continue
            if hit is None:
                ctx.und(rid, loc_of(fn), '%s: %s' % (name, lost or 'no path for %s' % (describe(x),)))
                return None
            w = want(x)
            if w is None:
                continue
            n += 1
            if w != hit:
                ctx.bad(rid, loc_of(fn), '%s: for %s%s expected %s, found %s' % (name, describe(x), ''.join(', %s = %s' % (show(k)[:60], v) for k, v in chosen.items()), pretty(w), pretty(hit)), key)
                return False
    ctx.count('abstract inputs', n)
    if n:
        ctx.ok(rid, loc_of(fn), '%s%s (%d abstract inputs)' % (name, fn['sig'], n))
    return True


def pretty(x):
    return re.sub(r'Fraction\((-?\d+), 1\)', r'\1', str(x))[:220]


def sigclasses(e):
    c = (e.d.get('node') or {}).get('callee') or {}
    return tuple(re.findall(r'envire::(\w+) ?\*', c.get('sig', '')))


def is_param(t, fn, i):
    return t == par(fn, i)


def event_of(fn, i):
    """the Event a reference parameter designates"""
    return ('deref', par(fn, i))


# ------------------------------------------------------------------ C05
TABLE = {
    (ITEM, ADD): ('itemAttached', ('EnvironmentItem',), 'A'),
    (ITEM, REMOVE): ('itemDetached', ('EnvironmentItem',), 'A'),
    (ITEM, UPDATE): ('itemModified', ('EnvironmentItem',), 'A'),
    (FRAMENODE_TREE, ADD): ('childAdded', ('FrameNode', 'FrameNode'), 'AB'),
    (FRAMENODE_TREE, REMOVE): ('childRemoved', ('FrameNode', 'FrameNode'), 'AB'),
    (LAYER_TREE, ADD): ('childAdded', ('Layer', 'Layer'), 'AB'),
    (LAYER_TREE, REMOVE): ('childRemoved', ('Layer', 'Layer'), 'AB'),
    (FRAMENODE, ADD): ('frameNodeSet', ('CartesianMap', 'FrameNode'), 'AB'),
    (FRAMENODE, REMOVE): ('frameNodeDetached', ('CartesianMap', 'FrameNode'), 'AB'),
    (ROOT, ADD): ('setRootNode', ('FrameNode',), 'A'),
    (ROOT, REMOVE): ('removeRootNode', ('FrameNode',), 'A'),
}


@units(*CORE)
def C05(ctx):
    ctx.rule('dispatch', 'every combination of type and operation calls the callback that belongs to it, with the operands in order; combinations without a meaning throw')
    ctx.rule('apply', 'applying an event performs the operation it names, on the items of the target environment that have the identifiers of the event, and nothing if they are missing')
    ctx.rule('binary', 'a binary event is applied as the event it was made from')
    f = body_of(ctx, DISP + '::dispatch')
    cb = set(v[0] for v in TABLE.values())

    def leaf(x, E, t):
        if t[0] == 'p':
            i = [p['name'] for p in f['params']].index(t[1])
            return (x[0], x[1], 'A', 'B', 'D')[i]
        if t[0] in ('dyncast', 'call') and t[0] == 'dyncast' or t[0] == 'call' and t[1] == 'dyncast':
            return E.ev((t[2] if t[0] == 'call' else t[1:])[-1])
        return None

    def hook(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') in cb:
            to = E.ev(e.this[1]) if e.get('this') and e.this[0] == 'deref' else None
            E.out.append((e.n, sigclasses(e), to) + tuple(E.ev(a) for a in e.args))

    def want(x):
        if x not in TABLE:
            return [('throw',)]
        n, cl, ab = TABLE[x]
        return [(n, cl, 'D') + tuple(ab)]
    names = lambda x: '%s %s' % (ON[x[1]], TN[x[0]])
    decide(ctx, 'dispatch', f, [(t, o) for t in TYPES for o in OPS], leaf, hook, want, opaque=cb, describe=names)

    # a listener forwards what it is told
    g = body_of(ctx, 'envire::EventListener::handle')
    fields = {'type': 'T', 'operation': 'O', 'a': 'A', 'b': 'B'}

    def leaf2(x, E, t):
        if t[0] == 'init' and t[1][0] == 'field' and t[1][1] == event_of(g, 0) and t[1][2] in fields:
            return fields[t[1][2]]
        if t == ('this',) or t == ('addr', THIS):
            return 'self'
        return None

    def hook2(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'dispatch':
            E.out.append(('dispatch',) + tuple(E.ev(a) for a in e.args))
    decide(ctx, 'dispatch', g, [0], leaf2, hook2, lambda x: [('dispatch', 'T', 'O', 'A', 'B', 'self')], opaque=('dispatch',), what='EventListener::handle')

    apply_(ctx)
    binary(ctx)


OPNAMES = {'set', 'itemModified', 'attachItem', 'detachItem', 'addChild', 'removeChild', 'setFrameNode', 'detachFrameNode'}


def apply_(ctx):
    a = body_of(ctx, EV + '::apply')
    from .r_env import Names
    N = Names(ctx)
    envp = par(a, 0)

    def ident(t):
        """which of the two identifiers"""
        if t == ini('id_a'):
            return 'A'
        if t == ini('id_b'):
            return 'B'
        return None

    def leaf(x, E, t):
        ty, op, ha, hb, root = x
        if t == ini('type'):
            return ty
        if t == ini('operation'):
            return op
        if t == ini('a'):
            return 'new'
        if t == ini('b'):
            return 'newb'
        if t[0] in ('has', 'mcount') and contains(t[1], lambda y: y[0] == 'field' and y[2] == N.items):
            return {'A': ha, 'B': hb, None: None}[ident(t[2])]
        if t[0] == 'init' and t[1][0] == 'idx' and t[1][1] == ('field', ('deref', envp), N.items):
            i = ident(t[1][2])
            return {'A': 'itemA', 'B': 'itemB', None: None}[i]
        if t[0] == 'init' and t[1] == ('field', ('deref', envp), N.root):
            return 'itemA' if root else 'root'
        if t == envp:
            return 'env'
        if t[0] == 'init' and t[1][0] == 'field' and t[1][2] == N.env and t[1][1][0] == 'deref' and E.ev(t[1][1][1]) in ('itemA', 'itemB', 'root'):
            return 'env'
        if t[0] == 'dyncast' or t[0] == 'call' and t[1] == 'dyncast':
            return E.ev((t[2] if t[0] == 'call' else t[1:])[-1])
        return None

    def hook(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') in OPNAMES:
            c = sigclasses(e)
            to = E.ev(e.this[1]) if e.get('this') and e.this[0] == 'deref' else None
            args = tuple(E.ev(v) for v in e.args)
            if e.n == 'set':
                E.out.append(('set', to) + args)
            else:
                if e.n == 'detachItem' and len(args) == 2 and args[1] == 0:
                    args = args[:1]
                if to != 'env':
                    raise Lost('operation on another environment')
                E.out.append((e.n,) + ((c[0],) if e.n in ('addChild', 'removeChild') else ()) + args)

    def want(x):
        ty, op, ha, hb, root = x
        if ty == ITEM and op in (ADD, UPDATE):
            return [('set', 'itemA', 'new'), ('itemModified', 'itemA')] if ha else [('attachItem', 'new')]
        if ty == ITEM:
            return [('detachItem', 'itemA')] if ha and not root else []
        if op == UPDATE:
            return [('throw',)]
        if ty == ROOT or not (ha and hb):
            return []
        n = {(FRAMENODE_TREE, ADD): ('addChild', 'FrameNode'), (FRAMENODE_TREE, REMOVE): ('removeChild', 'FrameNode'),
             (LAYER_TREE, ADD): ('addChild', 'Layer'), (LAYER_TREE, REMOVE): ('removeChild', 'Layer'),
             (FRAMENODE, ADD): ('setFrameNode',), (FRAMENODE, REMOVE): ('detachFrameNode',)}[(ty, op)]
        return [n + ('itemA', 'itemB')]
    inputs = [x for x in product(TYPES, OPS, (0, 1), (0, 1), (0, 1)) if x[2] or not x[4]]
    RELATION = ('getFrameNode', 'getParent', 'getParents', 'getChildren', 'getMaps', 'hasParent', 'isAttached', 'getRootNode', 'getItem', 'getEnvironment')
    classes = ('Environment', 'EnvironmentItem', 'FrameNode', 'Layer', 'CartesianMap', 'Map', 'Operator')

    def op(q):
        q = re.sub(r'<.*?>', '', q).split('::')
        if len(q) < 3 or q[0] != 'envire' or q[1] not in classes:
            return False
        if q[1] == 'Environment' and q[-1] in OPNAMES:
            return True
        # what else the items may be asked for must not matter
        return q[-1] not in RELATION and bool(re.match(r'(is|has|get|count|find)[A-Z]', q[-1]))

    def free(x, E, t):
        if t[0] == 'call' and op(t[1] if isinstance(t[1], str) else ''):
            return [0, 1]
        return None
    decide(ctx, 'apply', a, inputs, leaf, hook, want, opaque=op, free=free, what='Event::apply',
           describe=lambda x: '%s %s (a %s, b %s%s)' % (ON[x[1]], TN[x[0]], 'known' if x[2] else 'unknown', 'known' if x[3] else 'unknown', ', root' if x[4] else ''))

    p = body_of(ctx, 'envire::EventProcessor::process')

    def hook2(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'apply':
            E.out.append(('apply', e.this == event_of(p, 0), e.args == (ini(*[q['name'] for q in ctx.P.records['envire::EventProcessor']['fields'] if 'Environment' in q['t']]),)))
    decide(ctx, 'apply', p, [0], lambda x, E, t: None, hook2, lambda x: [('apply', True, True)], opaque=('apply',), what='EventProcessor::process')


def binary(ctx):
    f = body_of(ctx, 'envire::BinarySerialization::applyEvent')
    pe = [i for i, p in enumerate(f['params']) if 'Environment *' in p['t']]
    pb = [i for i, p in enumerate(f['params']) if 'BinaryEvent' in p['t']]
    if not pe or not pb:
        raise AnalysisError('applyEvent: parameters changed (anchor lost)')
    be = ('deref', par(f, pb[0]))

    def leaf(x, E, t):
        if t[0] == 'init' and t[1][0] == 'field' and t[1][1] == be:
            return {'type': x[0], 'operation': x[1], 'id_a': 'idA', 'id_b': 'idB'}.get(t[1][2])
        if t[0] == 'call' and bname(t[1]) == 'unserializeBinaryEvent':
            return 'item'
        if t == par(f, pe[0]):
            return 'env'
        return None

    def hook(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'apply':
            v = e.thisv
            E.out.append(('apply',) + tuple(E.ev(ev_field(v, n)) for n in ('type', 'operation', 'a', 'b', 'id_a', 'id_b')) + tuple(E.ev(a) for a in e.args))
    decide(ctx, 'binary', f, [(t, o) for t in TYPES for o in OPS], leaf, hook,
           lambda x: [('apply', x[0], x[1], 'item' if x[0] == ITEM and x[1] in (ADD, UPDATE) else 0, 0, 'idA', 'idB', 'env')], opaque=('apply', 'unserializeBinaryEvent'),
           what='applyEvent', describe=lambda x: '%s %s' % (ON[x[1]], TN[x[0]]))

    g = body_of(ctx, 'envire::BinarySerialization::applyEvents')
    ev = [i for i, p in enumerate(g['params']) if 'vector' in p['t']][0]
    lst = ('deref', par(g, ev))

    def leaf2(x, E, t):
        return list_leaf(x, E, t, lst)

    def hook2(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'applyEvent':
            E.out.append(('applyEvent',) + tuple(E.ev(a) for a in e.args[1:]))
    decide(ctx, 'binary', g, [0, 1, 2, 3], leaf2, hook2, lambda n: [('applyEvent', 'e%d' % i) for i in range(n)], opaque=('applyEvent', 'cleanUp'), what='applyEvents', describe=lambda n: '%d events' % n)
    h = body_of(ctx, ENV + '::applyEvents')

    def hook3(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'applyEvents':
            E.out.append(('applyEvents',) + tuple(e.args[i] in (('this',), ('addr', THIS)) if i == 0 else e.args[i] == ('init', ('deref', par(h, 0))) for i in range(len(e.args))))
    decide(ctx, 'binary', h, [0], lambda x, E, t: None, hook3, lambda x: [('applyEvents', True, True)], opaque=lambda q: q.endswith('BinarySerialization::applyEvents'), what='Environment::applyEvents')


def list_leaf(n, E, t, lst):
    """leaves of a list with n elements e0, e1, ..."""
    if t[0] == 'call' and bname(t[1]) in ('size', 'count') and len(t[2]) == 1 and t[2][0] == ('init', lst):
        return n
    if t[0] == 'init' and t[1][0] == 'idx' and t[1][1] == lst:
        return 'e%d' % E.ev(t[1][2])
    if t[0] == 'init' and t[1][0] == 'deref':
        v = E.ev(t[1][1])
        if isinstance(v, (int, Fr)):
            return 'e%d' % v
    if t[0] == 'begin' and t[1] == lst:
        return 0
    return None


# ------------------------------------------------------------------ C06
@units(*CORE)
def C06(ctx):
    ctx.rule('merge', 'a new event makes exactly those queued events obsolete whose effect it repeats, reverts or supersedes')
    ctx.rule('reference', 'a queued event carries identifiers and, where content is needed, the item or its copy')
    ctx.rule('queue', 'queued events are compared one by one; obsolete ones leave the queue, the new one enters at its end unless it was cancelled; a flush processes all in order and empties the queue')
    ctx.rule('lock', 'the queue is only touched with its mutex held, and the mutex is not taken twice')
    ctx.rule('binary', 'every event leaves the handler as one binary event with its type, operation and identifiers, together with the content where there is any')
    merge(ctx)
    ref(ctx)
    queue(ctx)
    sync(ctx)
    locks(ctx)


def merge(ctx):
    f = body_of(ctx, EV + '::merge')
    o = event_of(f, 0)

    def leaf(x, E, t):
        t1, o1, t2, o2, ea, eb = x
        if t[0] == 'init' and t[1][0] == 'field':
            own, n = t[1][1] == THIS, t[1][2]
            if t[1][1] in (THIS, o):
                return {'type': t1 if own else t2, 'operation': o1 if own else o2,
                        'id_a': 'a' if own or ea else 'a2', 'id_b': 'b' if own or eb else 'b2'}.get(n)
        return None

    def want(x):
        t1, o1, t2, o2, ea, eb = x
        if t1 != t2 or not ea or not eb:
            return [0]
        if o1 == o2:
            return [1]
        if {o1, o2} == {ADD, REMOVE}:
            return [1 if t1 == ITEM else 2]
        if (o1, o2) == (REMOVE, UPDATE):
            return [1]
        return [0]
    inputs = [(a[0], a[1], b[0], b[1], ea, eb) for a in LEGAL for b in LEGAL for ea in (0, 1) for eb in (0, 1)]
    decide(ctx, 'merge', f, inputs, leaf, lambda x, E, e: None, want, final=lambda x, E, I, t: [int(E.ev(t.val))] if t.out == 'ret' else [], what='Event::merge',
           describe=lambda x: '%s %s after %s %s (%s)' % (ON[x[1]], TN[x[0]], ON[x[3]], TN[x[2]], 'same items' if x[4] and x[5] else 'other items'))


def ref_leaf(x, t, base, E):
    """leaves over an event at location `base`"""
    ty, op, a, b, clone = x
    if t[0] == 'init' and t[1][0] == 'field':
        if t[1][1] == base:
            return {'type': ty, 'operation': op, 'a': 'a' if a else 0, 'b': 'b' if b else 0, 'id_a': 'old_a', 'id_b': 'old_b'}.get(t[1][2])
        if t[1][1][0] == 'deref' and t[1][2] == 'unique_id' or t[1][1][0] == 'deref' and 'id' in t[1][2]:
            v = E.ev(t[1][1][1])
            return 'id of %s' % v
    if t[0] == 'call' and bname(t[1]) == 'clone':
        return 'copy'
    return None


def refd(x):
    """type, operation, a, b, id_a, id_b after ref"""
    ty, op, a, b, clone = x
    ids = ('id of a' if a else 'old_a', 'id of b' if b else 'old_b')
    if ty == ITEM and op in (ADD, UPDATE):
        return (ty, op, 'copy' if clone else 'a', 0) + ids
    return (ty, op, 0, 0) + ids


REFS = [(t, o, a, b, c) for t, o in LEGAL for a in (0, 1) for b in (0, 1) for c in (0, 1) if not (t == ITEM and o in (ADD, UPDATE) and not a)]


def ref(ctx):
    f = body_of(ctx, EV + '::ref')

    def leaf(x, E, t):
        if t == par(f, 0):
            return x[4]
        return ref_leaf(x, t, THIS, E)

    def hook(x, E, e):
        if e.kind == 'write' and e.loc[0] == 'field' and e.loc[1][0] == 'deref' and e.loc[1] != THIS:
            E.written = getattr(E, 'written', {})
            E.written[E.ev(e.loc[1][1])] = E.ev(e.val)

    def final(x, E, I, t):
        out = tuple(E.ev(I.load(t.st, fld(n))) for n in ('type', 'operation', 'a', 'b', 'id_a', 'id_b'))
        w = getattr(E, 'written', {})
        if x[0] == ITEM and x[1] in (ADD, UPDATE):
            return [out, w.get(out[2], 'id of ' + str(out[2]))]
        return [out]

    def want(x):
        r = refd(x)
        return [r] + ([r[4]] if x[0] == ITEM and x[1] in (ADD, UPDATE) else [])
    decide(ctx, 'reference', f, REFS, leaf, hook, want, final=final, opaque=('clone',), what='Event::ref',
           describe=lambda x: '%s %s%s' % (ON[x[1]], TN[x[0]], ' with copy' if x[4] else ''))


def queue(ctx):
    P = ctx.P
    rec = P.records.get(QUEUE)
    if not rec:
        raise AnalysisError('EventQueue not found (anchor lost)')
    qs = [f['name'] for f in rec['fields'] if re.match(r'std::(__cxx11::)?(list|vector|deque)<envire::Event', f['t'])]
    bs = [f['name'] for f in rec['fields'] if f['t'] == 'bool']
    if len(qs) != 1 or len(bs) != 1:
        raise AnalysisError('EventQueue: members changed: %s %s' % (qs, bs))
    Q, A = qs[0], bs[0]
    ql = fld(Q)
    f = body_of(ctx, QUEUE + '::handle')
    msg = event_of(f, 0)

    def is_queue(v):
        """the queue, or its value at some point of the loop"""
        while v[0] in ('post', 'lv') and isinstance(v[2], tuple) or v[0] == 'init':
            v = v[2] if v[0] != 'init' else v[1]
        if v[0] == 'poly':
            # what is left after some were erased: positions are counted in the original queue
            return contains(v, lambda y: y == ql) and not contains(v, lambda y: y[0] == 'call' and bname(str(y[1])) in ('push_back', 'push_front', 'insert', 'splice', 'swap', 'emplace_back'))
        return v == ql

    def leaf(x, E, t):
        ev, res = x
        if t == ini(A):
            return ev[4]
        if t[0] == 'call' and bname(t[1]) == 'merge':
            me, other = t[2]
            i = E.ev(other) if other != me else None
            if not isinstance(i, str) or not i.startswith('e'):
                raise Lost('merge with something else than a queued event')
            if tuple(E.ev(ev_field(me, n)) for n in ('type', 'operation', 'id_a', 'id_b')) != (ev[0], ev[1]) + refd(ev)[4:]:
                return (res[int(i[1:])] + 1) % 3    # merging another event may yield anything
            return res[int(i[1:])]
        if t[0] == 'call' and bname(t[1]) == 'erase':
            return E.ev(t[2][1]) + 1
        if t[0] == 'poly' and any(a[0] == 'begin' for m, _ in t[1] for a, _e in m):
            acc = 0
            for m, c in t[1]:
                y = c
                for a, e in m:
                    if a[0] == 'begin' and a[1] == ql:
                        v = 0
                    elif a[0] == 'call' and bname(a[1]) == 'size' and is_queue(a[2][0]):
                        v = len(res)
                    else:
                        v = E.ev(a)
                    if not isinstance(v, (int, Fr)):
                        raise Lost('position in the queue')
                    y *= v
                acc += y
            return acc
        if t[0] == 'begin' and t[1] == ql:
            return 0
        if t[0] == 'init' and t[1][0] == 'deref' and t[1] != msg:
            v = E.ev(t[1][1])
            if isinstance(v, (int, Fr)):
                return 'e%d' % v
        if t[0] in ('init', 'sub') and (t[1][0] == 'idx' if t[0] == 'init' else t[2] == 'idx'):
            b, i = (t[1][1], t[1][2]) if t[0] == 'init' else (t[1], t[3])
            if is_queue(b):
                return 'e%d' % E.ev(i)
        if t[0] == 'call' and bname(t[1]) == 'size' and is_queue(t[2][0]):
            return len(res)
        return ref_leaf(ev, t, msg, E)

    def hook(x, E, e):
        if e.kind not in ('call', 'ccall') or not e.get('this'):
            return
        if e.this == ql:
            if e.n == 'erase' and len(e.args) == 1:
                E.out.append(('erase', E.ev(e.args[0])))
            elif e.n in ('push_back', 'emplace_back', 'push_front'):
                v = e.args[0]
                E.out.append((e.n.replace('emplace', 'push'), tuple(E.ev(ev_field(v, n)) for n in ('type', 'operation', 'a', 'b', 'id_a', 'id_b'))))
            elif e.n == 'insert' and len(e.args) == 2:
                v = e.args[1]
                E.out.append(('push_back' if E.ev(e.args[0]) == len(x[1]) else 'insert', tuple(E.ev(ev_field(v, n)) for n in ('type', 'operation', 'a', 'b', 'id_a', 'id_b'))))
            elif e.n in ('begin', 'end', 'size', 'empty', 'cbegin', 'cend'):
                pass
            else:
                raise Lost('queue operation ' + e.n)

    def want(x):
        ev, res = x
        out = [('erase', i) for i, r in enumerate(res) if r]
        if 2 not in res:
            out.append(('push_back', refd(ev)))
        return out
    EVS = [(ITEM, ADD, 1, 0, 0), (ITEM, ADD, 1, 0, 1), (ITEM, REMOVE, 1, 0, 0), (ITEM, UPDATE, 1, 0, 1), (FRAMENODE_TREE, ADD, 1, 1, 0), (LAYER_TREE, REMOVE, 1, 1, 1)]
    depth = 4 if ctx.tier == 'thorough' else 3
    inputs = [(ev, r) for ev in EVS for n in range(depth + 1) for r in product(*[(0, 1, 2)] * n) if n < depth or ev == EVS[0]]
    rn = ('kept', 'superseded', 'cancelling')
    decide(ctx, 'queue', f, inputs, leaf, hook, want, opaque=('merge', 'clone'), what='EventQueue::handle', describe=lambda x: '%s %s with the queue [%s]' % (ON[x[0][1]], TN[x[0][0]], ', '.join(rn[i] for i in x[1])))

    g = body_of(ctx, QUEUE + '::flush')

    def hook2(x, E, e):
        if e.kind in ('call', 'ccall') and e.get('n') == 'process':
            E.out.append(('process',) + tuple(E.ev(a) for a in e.args))
        elif e.kind == 'call' and e.get('this') == ql:
            if e.n == 'clear':
                E.out.append('clear')
            elif e.n not in ('begin', 'end', 'size', 'empty', 'cbegin', 'cend'):
                raise Lost('queue operation ' + e.n)
    decide(ctx, 'queue', g, [0, 1, 2, 3], lambda n, E, t: list_leaf(n, E, t, ql), hook2, lambda n: [('process', 'e%d' % i) for i in range(n)] + ['clear'], opaque=('process',),
           what='EventQueue::flush', describe=lambda n: '%d queued events' % n)


def sync(ctx):
    P = ctx.P
    rec = P.records.get(SYNC)
    if not rec:
        raise AnalysisError('SynchronizationEventHandler not found (anchor lost)')
    buf = [f['name'] for f in rec['fields'] if re.match(r'std::vector<envire::BinaryEvent', f['t'])]
    if len(buf) != 1:
        raise AnalysisError('SynchronizationEventHandler: buffer of binary events not found')
    bl = fld(buf[0])
    uq = setter_field(ctx, SYNC + '::useEventQueue') or 'm_useEventQueue'
    cu = setter_field(ctx, SYNC + '::useContextUpdates', 'bool') or 'm_useContextUpdates'
    qf = [f['name'] for f in P.records[QUEUE]['fields'] if re.match(r'std::(__cxx11::)?(list|vector|deque)<envire::Event', f['t'])][0]
    Q = QUEUE

    # handle
    f = body_of(ctx, SYNC + '::handle', lambda f: 'Event &' in f['sig'] and 'vector' not in f['sig'])
    op = lambda q: q in (Q + '::handle', Q + '::flush') or q.split('::')[-1] in ('flush', 'process') or q.split('::')[-1] == 'handle' and q != f['q']

    def classify(E, e):
        if e.kind not in ('call', 'ccall'):
            return
        if e.get('this') and e.this == bl and e.n == 'clear':
            E.out.append('clear buffer')
        elif e.n == 'handle' and e.q == Q + '::handle':
            E.out.append(('queue', e.args == (('init', event_of(f, 0)),)))
        elif e.n == 'handle' and e.args and e.argl and e.argl[0] == bl:
            E.out.append('deliver')
        elif e.n == 'handle':
            E.out.append('handle ?')
        elif e.n == 'flush':
            E.out.append('flush' if e.q != Q + '::flush' or e.d.get('virt') else 'flush queue')
        elif e.n == 'process':
            E.out.append(('process', e.args == (('init', event_of(f, 0)),)))

    def leaf(x, E, t):
        if t == ini(uq):
            return x[0]
        if t[0] == 'call' and bname(t[1]) == 'size' and t[2][0] == ini(qf):
            return x[1]
        return None

    def want(x):
        if x[0]:
            return [('queue', True)]
        return (['flush'] if x[1] else []) + [('process', True), 'deliver', 'clear buffer']
    decide(ctx, 'binary', f, list(product((0, 1), (0, 1, 2))), leaf, lambda x, E, e: classify(E, e), want, opaque=op, what='SynchronizationEventHandler::handle',
           describe=lambda x: '%s, %d events pending' % ('queueing' if x[0] else 'not queueing', x[1]))

    # flush, popEvents
    g = body_of(ctx, SYNC + '::flush')
    decide(ctx, 'binary', g, [0], lambda x, E, t: None, lambda x, E, e: classify(E, e), lambda x: ['flush queue', 'deliver', 'clear buffer'],
           opaque=lambda q: q in (Q + '::flush',) or q.split('::')[-1] == 'handle', what='SynchronizationEventHandler::flush')
    h = body_of(ctx, 'envire::SynchronizationEventQueue::popEvents')
    out = ('deref', par(h, 0))

    def hook(x, E, e):
        if e.kind == 'call' and e.n == 'flush':
            E.out.append('flush queue' if not e.d.get('virt') or e.q == Q + '::flush' else 'flush')
        elif e.kind == 'call' and e.n == 'swap' and ({e.get('this')} | set(e.argl or ())) - {None} == {out, bl}:
            E.out += ['hand over', 'clear']
        elif e.kind == 'write' and e.loc == out and e.val == ('init', bl):
            E.out.append('hand over')
        elif e.kind == 'call' and e.n == 'clear' and e.get('this') == bl:
            if E.out[-1:] != ['clear']:
                E.out.append('clear')
    decide(ctx, 'binary', h, [0], lambda x, E, t: None, hook, lambda x: ['flush queue', 'hand over', 'clear'], opaque=lambda q: q.split('::')[-1] == 'flush', what='SynchronizationEventQueue::popEvents')
    c = [k for k in ctx.P.byname.get('envire::SynchronizationEventQueue::<ctor>', []) if k.get('body') and not k.get('implicit')]
    if c:
        I, tr = run(ctx, c[0])
        v = set(I.load(t.st, fld(uq)) for t in tr)
        ctx.check(v == {ONE}, 'binary', loc_of(c[0]), 'a SynchronizationEventQueue queues from the beginning', 'SynchronizationEventQueue')

    # addBinaryEvent
    k = body_of(ctx, SYNC + '::addBinaryEvent')
    m = event_of(k, 0)

    def leaf2(x, E, t):
        if t == ('init', bl):
            return 'buffer'
        return ref_leaf(x, t, m, E)

    def hook2(x, E, e):
        if e.kind != 'call':
            return
        if e.get('this') == bl and e.n in ('push_back', 'emplace_back'):
            if e.n == 'emplace_back' and len(e.args) != 1:
                raise Lost('emplace_back')
            E.out.append(('push',) + tuple(E.ev(ev_field(e.args[0], n)) for n in ('type', 'operation', 'id_a', 'id_b')))
        elif e.n == 'serializeBinaryEvent':
            t_ = e.argl[1] if e.get('argl') else None
            into = 'last' if t_ and t_[0] == 'mref' and t_[1] == 'back' and t_[2] == bl else 'other'
            E.out.append(('content', E.ev(e.args[0]), into))

    def want2(x):
        ty, op_, a, b, _ = x
        o = [('push', ty, op_, 'id of a' if a else 'old_a', 'id of b' if b else 'old_b')]
        if ty == ITEM and op_ in (ADD, UPDATE):
            o.append(('content', 'a', 'last'))
        return o
    decide(ctx, 'binary', k, [x for x in REFS if not x[4]], leaf2, hook2, want2, opaque=('serializeBinaryEvent', 'now'), what='addBinaryEvent', describe=lambda x: '%s %s' % (ON[x[1]], TN[x[0]]))

    # process
    p = body_of(ctx, SYNC + '::process')
    pm = event_of(p, 0)

    def leaf3(x, E, t):
        ty, op_, known, ctxu, depth = x
        if t == ini(cu):
            return ctxu
        if t == ('init', pm):
            return 'message'
        if t[0] == 'init' and t[1][0] == 'field' and t[1][1] == pm:
            return {'type': ty, 'operation': op_, 'a': (0, 'M', 'C')[known], 'b': 0, 'id_a': 'idM', 'id_b': ''}.get(t[1][2])
        if t[0] in ('has', 'mcount'):
            return 1 if 'Map' not in str(t) else 1
        if t[0] == 'init' and t[1][0] == 'idx':
            return 'F0' if contains(t[1][1], lambda y: y[0] == 'field' and 'artesian' in y[2]) else 'M'
        if t[0] == 'dyncast' or t[0] == 'call' and t[1] == 'dyncast':
            return E.ev((t[2] if t[0] == 'call' else t[1:])[-1])
        def obj(o):
            return E.ev(o[1][1]) if o[0] == 'init' and o[1][0] == 'deref' else E.ev(o)
        if t[0] == 'call' and bname(t[1]) == 'getFrameNode':
            # a copy in the queue belongs to no environment
            return 'F0' if obj(t[2][0]) != 'C' else 0
        if t[0] == 'call' and bname(t[1]) == 'getItem':
            return 'M'
        if t[0] == 'call' and bname(t[1]) == 'isAttached':
            return int(obj(t[2][0]) != 'C')
        if t[0] == 'call' and bname(t[1]) == 'getParent':
            v = obj(t[2][0])
            n = int(v[1:]) + 1
            return 'F%d' % n if n < depth else 0
        if t[0] == 'init' and t[1][0] == 'field' and t[1][2] == 'env':
            return 'env' if t[1][1][0] != 'deref' or E.ev(t[1][1][1]) != 'C' else 0
        return None

    def hook3(x, E, e):
        if e.kind == 'call' and e.n == 'addBinaryEvent':
            a = e.args[0]
            if a == ('init', pm):
                E.out.append('message')
            else:
                E.out.append(tuple('M' if v == 'C' else v for v in (E.ev(ev_field(a, n)) for n in ('type', 'operation', 'a', 'b'))))

    def want3(x):
        ty, op_, known, ctxu, depth = x
        o = ['message']
        if ctxu and ty == ITEM and op_ in (ADD, UPDATE):
            for i in range(depth):
                o.append((ITEM, UPDATE, 'F%d' % i, 0))
                if i:
                    o.append((FRAMENODE_TREE, ADD, 'F%d' % i, 'F%d' % (i - 1)))
            o.append((FRAMENODE, ADD, 'M', 'F0'))
        return o
    inputs = [(t, o, kn, cx, d) for t, o in LEGAL for kn in (0, 1, 2) for cx in (0, 1) for d in (1, 2, 3)]
    decide(ctx, 'binary', p, inputs, leaf3, hook3, want3, opaque=lambda q: q.split('::')[-1] in ('addBinaryEvent', 'getParent', 'getItem', 'getFrameNode', 'isAttached'), what='SynchronizationEventHandler::process',
           describe=lambda x: '%s %s%s' % (ON[x[1]], TN[x[0]], ' with context' if x[3] else '') + (' (queued copy)' if x[2] == 2 else ''))

    # pullEvents
    u = body_of(ctx, ENV + '::pullEvents')
    sq = [f_['name'] for f_ in P.records[ENV]['fields'] if 'SynchronizationEventQueue' in f_['t']]
    if sq:
        allp = [i for i, q in enumerate(u['params']) if q['t'] == 'bool'][0]
        evp = [i for i, q in enumerate(u['params']) if 'vector' in q['t']][0]

        def leaf4(x, E, t):
            if t == ini(sq[0]):
                return 'Q' if x[0] else 0
            if t == par(u, allp):
                return x[1]
            if t[0] == 'addr' and t[1][0] == 'heap':
                return 'new Q'
            return None

        def hook4(x, E, e):
            if e.kind == 'call' and e.n in ('addEventHandler', 'removeEventHandler'):
                own = e.q.startswith(ENV)
                E.out.append(('%s%s' % (e.n, '' if own else ' silently'), E.ev(e.args[0])))
            elif e.kind == 'call' and e.n == 'popEvents':
                E.out.append(('pop', E.ev(e.this[1]) if e.this[0] == 'deref' else 'new Q', e.argl[0] == ('deref', par(u, evp))))

        def want4(x):
            if not x[0]:
                return [('addEventHandler', 'new Q'), ('pop', 'new Q', True)]
            if x[1]:
                return [('removeEventHandler silently', 'Q'), ('addEventHandler', 'Q'), ('pop', 'Q', True)]
            return [('pop', 'Q', True)]
        decide(ctx, 'binary', u, list(product((0, 1), (0, 1))), leaf4, hook4, want4, opaque=lambda q: q.split('::')[-1] in ('addEventHandler', 'removeEventHandler', 'popEvents'), what='pullEvents',
               describe=lambda x: '%s, %s' % ('second call' if x[0] else 'first call', 'all' if x[1] else 'new events'))


def setter_field(ctx, q, type_=None):
    """the member a setter stores its argument in"""
    for f in ctx.P.byname.get(q, []):
        if f.get('body'):
            I, tr = run(ctx, f)
            ws = [e.loc[2] for t in tr for e, _ in walk_events(t.events) if e.kind == 'write' and e.loc[0] == 'field' and e.loc[1] == THIS]
            cls = q.rsplit('::', 1)[0]
            ty = {x['name']: x['t'] for x in ctx.P.records[cls]['fields']}
            ws = [w for w in ws if type_ is None or ty.get(w) == type_]
            if len(set(ws)) == 1:
                return ws[0]
    return None


# ------------------------------------------------------------------ locks
GUARDS = r'^(boost|std)::(lock_guard|unique_lock|scoped_lock|recursive_mutex::scoped_lock|mutex::scoped_lock)\b'


def locks(ctx):
    """scopes in which the queue is touched, by the scoping of the guard objects"""
    P = ctx.P
    rec = P.records[QUEUE]
    mus = [f['name'] for f in rec['fields'] if re.search(r'::(recursive_)?mutex\b', f['t']) and '<' not in f['t']]
    if not mus:
        ctx.bad('lock', 'src/core/EventHandler.hpp', 'the event queue has no mutex any more', QUEUE + '::mutex')
        return
    M = mus[0]
    recursive = any('recursive' in f['t'] for f in rec['fields'] if f['name'] == M)
    qf = [f['name'] for f in rec['fields'] if re.match(r'std::(__cxx11::)?(list|vector|deque)<envire::Event', f['t'])][0]
    family = [c for c in P.records if c == QUEUE or QUEUE in P.bases(c)]
    funcs = [f for c in family for q, fs in P.byname.items() if q.rsplit('::', 1)[0] == c for f in fs if f.get('body') and f['kind'] == 'method']
    info = {}
    for f in funcs:
        touch, takes, calls_ = [], [], []

        def member(n, name):
            return isinstance(n, dict) and n.get('k') == 'member' and n.get('name') == name

        def walk(n, held):
            """held: number of guards alive; returns the number alive after the node (declarations extend to the end of the block)"""
            if isinstance(n, list):
                for x in n:
                    held = walk(x, held)
                return held
            if not isinstance(n, dict):
                return held
            k = n.get('k')
            if k == 'lambda':
                return held
            if k in ('block', 'for', 'while', 'do', 'if', 'foreach', 'switch'):
                h = held
                for key in ('init', 'cond', 'range', 'var', 'c', 'e', 'a', 'b', 'inc', 'body', 'stmts', 'then', 'else'):
                    pass
                for key, v in n.items():
                    if isinstance(v, (dict, list)):
                        h = walk(v, h)
                return held if k == 'block' or h >= held and k != 'block' and not manual_change(n) else h
            if k == 'decl' or k == 'declstmt' or 'decls' in n:
                h = held
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        h = walk(v, h)
                for d in (n.get('decls') or n.get('d') or ([n] if n.get('t') else [])):
                    if isinstance(d, dict) and re.match(GUARDS, d.get('t', '')) and mentions(d, M):
                        takes.append((d.get('l') or n.get('l'), h))
                        h += 1
                return h
            if k == 'member' and n.get('name') == qf:
                touch.append((n.get('l'), held))
            if k == 'mcall':
                c = n.get('callee') or {}
                if member(n.get('obj'), M):
                    if c.get('n') == 'lock':
                        takes.append((n.get('l'), held))
                        return held + 1
                    if c.get('n') == 'unlock':
                        return held - 1
                if isinstance(n.get('obj'), dict) and n['obj'].get('k') == 'this':
                    calls_.append((c.get('q', ''), c.get('sig', ''), n.get('l'), held, bool(c.get('virt')) and not n.get('nonvirt')))
            h = held
            for v in n.values():
                if isinstance(v, (dict, list)):
                    h = walk(v, h)
            return h
        walk(f['body'], 0)
        info[f['q'] + f['sig']] = (f, touch, takes, calls_)

    def targets(q, sig, virt):
        if not virt:
            return [q + sig]
        n = q.split('::')[-1]
        return [k for k in info if k.split('(')[0].split('::')[-1] == n and info[k][0]['sig'] == sig]
    # functions of the class only entered with the mutex held
    callers = {}
    for k, (f, touch, takes, cs) in info.items():
        for q, sig, l, held, virt in cs:
            for t in targets(q, sig, virt):
                callers.setdefault(t, []).append((k, held))
    entered = set()
    ch = True
    while ch:
        ch = False
        for k in info:
            if k not in entered and callers.get(k) and info[k][0].get('access') != 0 and all(h > 0 or c in entered for c, h in callers[k]):
                entered.add(k)
                ch = True
    n = 0
    for k, (f, touch, takes, cs) in info.items():
        if not touch:
            continue
        n += 1
        open_ = [l for l, h in touch if h <= 0]
        ctx.check(not open_ or k in entered, 'lock', loc_of(f), '%s touches the event queue%s' % (bname(f['q']), ' without its mutex at line %s' % open_[0] if open_ and k not in entered else ' with its mutex held'), f['q'] + f['sig'])
    ctx.need(n, 'functions that use the event queue', 2)

    # no second acquisition through the same object
    def acquires(k, seen):
        if k in seen or k not in info:
            return None
        seen.add(k)
        f, touch, takes, cs = info[k]
        if takes:
            return bname(f['q'])
        for q, sig, l, held, virt in cs:
            for t in targets(q, sig, virt):
                r = acquires(t, seen)
                if r:
                    return bname(f['q']) + ' -> ' + r
        return None
    bad = None
    for k, (f, touch, takes, cs) in info.items():
        if any(h > 0 for _, h in takes):
            bad = (f, '%s takes the mutex a second time' % bname(f['q']))
        for q, sig, l, held, virt in cs:
            if held > 0 or k in entered:
                for t in targets(q, sig, virt):
                    r = acquires(t, set())
                    if r and not recursive:
                        bad = (f, '%s calls %s with the mutex held' % (bname(f['q']), r))
    if bad:
        ctx.bad('lock', loc_of(bad[0]), bad[1], bad[0]['q'] + ':deadlock')
    else:
        ctx.ok('lock', 'src/core/EventHandler.cpp', 'no function of the queue takes the mutex while it holds it (%d functions)' % len(info))


def mentions(n, name):
    if isinstance(n, dict):
        return n.get('k') == 'member' and n.get('name') == name or any(mentions(v, name) for v in n.values())
    if isinstance(n, list):
        return any(mentions(v, name) for v in n)
    return False


def manual_change(n):
    return False


PROPS = {'C05': C05, 'C06': C06}
