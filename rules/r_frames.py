"""Frame tree: transforms along the tree, access to frame nodes."""
from .lib import *
from .worlds import Lost, Prune
from .sim import Eval, product
from .r_env import CORE, ENV
from .r_events import decide, body_of, setter_field

FN = 'envire::FrameNode'
TWU = 'envire::TransformWithUncertainty'


def short_name(q):
    return re.sub(r'<.*?>', '', q).split('::')[-1]


# words over the transforms of the nodes: T(i) takes node i to its parent
def wmul(a, b):
    a, b = list(a), list(b)
    while a and b and a[-1][0] == b[0][0] and a[-1][1] == -b[0][1]:
        a.pop()
        b.pop(0)
    return tuple(a + b)


def winv(a):
    return tuple((i, -s) for i, s in reversed(a))


def wshow(w):
    return ' * '.join('T%d%s' % (i, '' if s > 0 else '^-1') for i, s in w) or 'identity'


def objof(E, o):
    """the object a value of class type stands for"""
    return E.ev(o[1][1]) if o[0] == 'init' and o[1][0] == 'deref' else E.ev(o)


def forests(n):
    """all forests of n nodes as parent lists"""
    def go(ps):
        if len(ps) == n:
            yield tuple(ps)
            return
        for p in [None] + list(range(len(ps))):
            yield from go(ps + [p])
    yield from go([])


def chain(par_, n):
    w = ()
    while par_[n] is not None:
        w = wmul(((n, 1),), w)
        n = par_[n]
    return w, n


def node(i):
    return ('node', i)


def word_leaf(par_, E, t):
    """nodes, their parents and transforms; products and inverses of transforms"""
    if t[0] == 'call':
        n = short_name(t[1])
        if n == 'getParent':
            o = objof(E, t[2][0])
            if not isinstance(o, tuple) or o[0] != 'node':
                raise Lost('parent of ' + str(o))
            p = par_[o[1]]
            return node(p) if p is not None else 0
        if n == 'getFrameNode':
            o = objof(E, t[2][0])
            return node(o[1])
        if n == 'Identity':
            return ('word', ())
        if n == 'inverse':
            v = E.ev(t[2][0])
            return ('word', winv(v[1])) if isinstance(v, tuple) and v[0] == 'word' else None
        if n in ('composition', 'operator*') and len(t[2]) == 2:
            a, b = E.ev(t[2][0]), E.ev(t[2][1])
            return ('word', wmul(a[1], b[1]))
        if n == 'compositionInv' and len(t[2]) == 2:
            a, b = E.ev(t[2][0]), E.ev(t[2][1])
            return ('word', wmul(a[1], winv(b[1])))
        if n == 'preCompositionInv' and len(t[2]) == 2:
            a, b = E.ev(t[2][0]), E.ev(t[2][1])
            return ('word', wmul(winv(b[1]), a[1]))
    if t[0] == 'mm':
        w = ()
        for x in t[1]:
            v = E.ev(x)
            if not isinstance(v, tuple) or v[0] != 'word':
                raise Lost('product with ' + show(x)[:40])
            w = wmul(w, v[1])
        return ('word', w)
    if t[0] == 'upd':
        for path, v in reversed(t[2]):
            if path in (('field', 'trans'), (('field', 'trans'),)):
                return E.ev(v)
    if t[0] == 'init' and t[1][0] == 'mref' and t[1][1] in ('getTransform', 'getTransformWithUncertainty') and not t[1][3]:
        l = t[1][2]
        return E.ev(('init', ('field', l, 'frame') if l[0] == 'deref' else l))
    if t[0] == 'init' and t[1][0] == 'field':
        l, names = t[1], []
        while l[0] == 'field':
            names.append(l[2])
            l = l[1]
        if 'frame' in names and names[0] in ('frame', 'trans') and l[0] == 'deref':
            o = E.ev(l[1])
            if isinstance(o, tuple) and o[0] == 'node':
                return ('word', ((o[1], 1),))
    if t[0] == 'sub' and t[2] == 'field' and t[3] == 'trans' and t[1][0] != 'upd':
        return E.ev(t[1])
    return None


@units(*CORE)
def C07(ctx):
    ctx.rule('transform', 'the relative transform takes coordinates of the first frame up to the common root and down to the second, and frames of different trees are an error')
    ctx.rule('node', 'a frame node knows its parent, its root and its transform, and announces a new transform once after storing it')
    P = ctx.P
    n = 5 if ctx.tier == 'thorough' else 4
    forest = [f for k in range(1, n + 1) for f in forests(k)]
    inputs = [(f, a, b) for f in forest for a in range(len(f)) for b in range(len(f)) if len(f) > 2 or True]
    # with isomorphic relabelings dropped the two frames and their chains still occur in every constellation
    found = 0
    op = ('getParent', 'operator*', 'inverse', 'composition', 'compositionInv', 'preCompositionInv')

    def opaque(q):
        s = short_name(q)
        return s in op and (q.startswith(TWU) or q == FN + '::getParent' or q.startswith(ENV + '::getParent'))

    def want(x):
        f, a, b = x
        wa, ra = chain(f, a)
        wb, rb = chain(f, b)
        if ra != rb:
            return [('throw',)]
        return [wshow(wmul(winv(wb), wa))]

    def final(x, E, I, t):
        if t.out == 'throw':
            return []
        v = E.ev(t.val)
        if not isinstance(v, tuple) or v[0] != 'word':
            raise Lost('result is no transform: ' + show(t.val)[:60])
        return [wshow(v[1])]
    describe = lambda x: 'frames %d and %d of the tree %s' % (x[1], x[2], ' '.join('%d->%s' % (i, p) for i, p in enumerate(x[0]) if p is not None) or 'without links')
    for q in (ENV + '::relativeTransform', ENV + '::relativeTransformWithUncertainty', FN + '::relativeTransform'):
        for f in P.byname.get(q, []):
            if not f.get('body'):
                continue
            found += 1
            own = q.startswith(FN)
            maps = not own and 'Map' in f['params'][0]['t']

            def leaf(x, E, t, f=f, own=own):
                fo, a, b = x
                if t[0] == 'p':
                    i = [p['name'] for p in f['params']].index(t[1])
                    return node(b if own else (a, b)[i])
                if t == ('this',):
                    return node(a) if own else 'env'
                if t[0] == 'init' and t[1][0] == 'field' and t[1][2] == 'env':
                    return 'env'
                return word_leaf(fo, E, t)
            decide(ctx, 'transform', f, inputs, leaf, lambda x, E, e: None, want, final=final, what=bname(q) + (' of maps' if maps else ''),
                   opaque=(lambda qq: opaque(qq) or qq.endswith('CartesianMap::getFrameNode')), describe=describe)
    ctx.need(found, 'relative transform functions', 3)

    # a frame node
    def fields(f, want_, what, leaf=None, inputs=(0,), final=None, hook=None, opaque_=(), describe=str, free=None):
        decide(ctx, 'node', f, list(inputs), leaf or (lambda x, E, t: None), hook or (lambda x, E, e: None), want_, final=final, opaque=opaque_, what=what, describe=describe, free=free)
    for f in P.byname.get(FN + '::getRoot', []):
        if f.get('body'):
            def leaf(x, E, t):
                fo, a = x
                if t == ('this',):
                    return node(a)
                if t[0] == 'init' and t[1][0] == 'field' and t[1][2] == 'env':
                    return 'env'
                return word_leaf(fo, E, t)
            fields(f, lambda x: [node(chain(x[0], x[1])[1])], 'FrameNode::getRoot', leaf, [(fo, a) for fo in forest for a in range(len(fo))],
                   final=lambda x, E, I, t: [E.ev(t.val)], opaque_=lambda q: short_name(q) == 'getParent', describe=lambda x: 'node %d of %s' % (x[1], x[0]))
    for f in P.byname.get(FN + '::isRoot', []):
        if f.get('body'):
            def leaf(x, E, t):
                if t == ('this',):
                    return node(x)
                if t[0] == 'init' and t[1][0] == 'field' and t[1][2] == 'env':
                    return 'env'
                return word_leaf((None, 0), E, t)
            fields(f, lambda x: [int(x == 0)], 'FrameNode::isRoot', leaf, [0, 1], final=lambda x, E, I, t: [E.ev(t.val)], opaque_=lambda q: short_name(q) == 'getParent', describe=lambda x: ('a root', 'a child')[x])
    for f in P.byname.get(FN + '::getParent', []):
        if f.get('body'):
            def leaf(x, E, t):
                if t == ('this',):
                    return 'this'
                if t[0] == 'call' and short_name(t[1]) == 'getParent':
                    a = [E.ev(y) for y in t[2][1:]] or [objof(E, t[2][0])]
                    if a != ['this']:
                        raise Lost('parent of another node')
                    return 'parent' if x else 0
                return None
            fields(f, lambda x: ['parent' if x else 0], 'FrameNode::getParent', leaf, [0, 1], final=lambda x, E, I, t: [E.ev(t.val)], opaque_=lambda q: q == ENV + '::getParent')
    frame = setter_frame(ctx)
    for f in P.byname.get(FN + '::setTransform', []):
        if not f.get('body'):
            continue
        unc = 'Uncertainty' in f['params'][0]['t']

        def leaf(x, E, t):
            if t[0] == 'init' and t[1] == fld('env'):
                return 'env' if x else 0
            return None

        def hook(x, E, e):
            if e.kind in ('call', 'ccall') and e.n == 'itemModified':
                E.out.append(('itemModified', e.args == (('this',),) and E.ev(e.this[1]) == 'env'))
            elif e.kind == 'write' and e.loc == fld(frame):
                E.out.append('store')

        def final(x, E, I, t, f=f, unc=unc):
            v = I.load(t.st, fld(frame))
            arg = ('init', ('deref', ('p', f['params'][0]['name'])))
            if unc:
                return ['given' if v == arg else 'other']
            return ['given' if part(I, t, v, 'trans') == arg and part(I, t, v, 'uncertain') == ZERO else 'other']
        fields(f, lambda x: ['store'] + ([('itemModified', True)] if x else []) + ['given'], 'FrameNode::setTransform', leaf, [0, 1], final=final, hook=hook, opaque_=('itemModified',), free=lambda x, E, t: (0, 1),
               describe=lambda x: ('an unattached node', 'an attached node')[x])
    for name, sub_ in (('getTransform', 'trans'), ('getTransformWithUncertainty', None)):
        for f in P.byname.get(FN + '::' + name, []):
            if f.get('body'):
                w = ini(frame, sub_) if sub_ else ini(frame)
                fields(f, lambda x: ['frame'], 'FrameNode::' + name, final=lambda x, E, I, t, w=w: ['frame' if I.rv(t.st, t.val) == w else show(t.val)])
    for f in P.byname.get(FN + '::<ctor>', []) + P.byname.get(FN + '::FrameNode', []):
        if not f.get('body') or f.get('copy') or any(FN in p['t'] or p['t'].startswith('const envire::FrameNode') for p in f['params']):
            continue

        def final(x, E, I, t, f=f):
            v = I.load(t.st, fld(frame))
            if not f['params']:
                return ['given' if part(I, t, v, 'trans')[0] == 'call' and bname(part(I, t, v, 'trans')[1]) == 'Identity' and part(I, t, v, 'uncertain') == ZERO else show(v)]
            arg = ('init', ('deref', ('p', f['params'][0]['name'])))
            if 'Uncertainty' in f['params'][0]['t']:
                return ['given' if v == arg else show(v)]
            return ['given' if part(I, t, v, 'trans') == arg and part(I, t, v, 'uncertain') == ZERO else show(v)]
        fields(f, lambda x: ['given'], 'FrameNode constructor', final=final)


def setter_frame(ctx):
    fs = [f['name'] for f in ctx.P.records[FN]['fields'] if 'Transform' in f['t']]
    if len(fs) != 1:
        raise AnalysisError('FrameNode: transform member changed (anchor lost)')
    return fs[0]


def part(I, t, v, name):
    return I.project(v, ('field', name))


PROPS = {'C07': C07}
