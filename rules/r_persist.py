"""Persistence: what an item saves is what the item created from the saved document holds."""
from .lib import *
from .worlds import Lost, Prune
from .sim import Eval, Choose
from .r_events import body_of

SER = 'envire::Serialization'
HANDLERS = (SER, 'envire::FileSerialization', 'envire::BinarySerialization')
PAIRS = {'writeMap': 'readMap', 'writePly': 'readPly', 'writeScan': 'readScan', 'writeGridData': 'readGridData'}
READERS = {v: k for k, v in PAIRS.items()}

# the keys of the scene format: class -> keys found in every document of an item of that class
def inputs(P, ch):
    n = (P.enums.get('envire::SimpleTraversability::INPUT_DATA') or {}).get('INPUT_COUNT', 0)
    if any(isinstance(k, tuple) and (k[0] == 'equal' and v or k[0] == 'input_bands' and k[-1] == 'size' and not v) for k, v in ch.items()):
        return
    for i in range(int(n)):
        yield 'input%d' % i
        yield 'input%d_band' % i


KEYS = {
    'envire::EnvironmentItem': ('id', 'label'),
    'envire::Layer': ('immutable',),
    'envire::FrameNode': ('transform',),
    'envire::GridBase': ('cellSizeX', 'cellSizeY', 'scalex', 'scaley', 'offsetx', 'offsety'),
    'envire::MLSGrid': ('hasCellColor', 'updateModel', 'gapSize', 'thickness'),
    'envire::Pointcloud': ('sensor_origin',),
    'envire::TraversabilityGrid': ('drivabilityClassCount', 'map_count'),
    'envire::GridFloatToMLS': ('band_name',),
    'envire::ScanMeshing': ('maxEdgeLength', 'remissionScaleFactor', 'minRange'),
    'envire::SimpleTraversability': ('maximum_slope', 'class_count', 'ground_clearance', 'min_width', 'obstacle_clearance', 'output_band', inputs),
}
# content that goes to a binary stream: class -> writers that have to be used
STREAMS = {'envire::MLSGrid': 'writeMap', 'envire::LaserScan': 'writeScan', 'envire::TriMesh': 'writePly'}


def opaque(q):
    c, _, n = q.rpartition('::')
    return any(q.startswith(h + '::') for h in HANDLERS) or bname(q) in PAIRS or bname(q) in READERS or \
        bname(q) in ('readText', 'fileExists', 'lexical_cast')


def stroot(q):
    m = re.match(r'.*?<(.*)>$', q)
    return m.group(1) if m else ''


INTS = ('bool', 'char', 'short', 'int', 'long', 'unsigned', 'size_t')


def numkind(t):
    t = t.replace('const ', '')
    if not t:
        return 'own'
    if 'string' in t:
        return 'string'
    if 'double' in t or 'float' in t:
        return 'real'
    if t == 'bool':
        return 'bool'
    if any(w in t for w in INTS):
        return 'int'
    return 'other'


def convertible(w, r):
    return w == r or {w, r} <= {'own', 'string'} or (w, r) in (('int', 'real'), ('bool', 'int'), ('bool', 'real')) or 'other' in (w, r) \
        or r == 'string' or r == 'own'


def cat(parts):
    out = []
    for p in parts:
        for x in (p[1] if isinstance(p, tuple) and p and p[0] == 'str' else (p,)):
            if isinstance(x, int) or isinstance(x, Fr):
                x = str(x)
            if out and isinstance(x, str) and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
    return ('str', tuple(out))


def text(v):
    if isinstance(v, tuple) and v and v[0] == 'str':
        return ''.join(x if isinstance(x, str) else '<%s>' % '.'.join(map(str, x[1:][0] if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple) else x)) for x in v[1])
    if isinstance(v, tuple) and v and v[0] == 'val':
        return 'the value of ' + '.'.join(map(str, v[1]))
    return str(v)


class Side(Eval):
    """evaluation of one direction; root: location of the item"""

    def __init__(self, I, root, doc, chosen, writing, indom):
        Eval.__init__(self, I, self.leafs, self.effect)
        self.cls = ('str', (('val', ('class name',)),))
        self.root, self.doc, self.chosen_, self.writing, self.indom = root, doc, chosen, writing, indom
        self.virtual = lambda n: None
        self.mem = {}
        self.sizes = {}
        self.absent, self.log = [], []
        self.infacts = set()

    # -- helpers
    def path(self, loc):
        acc = []
        while loc != self.root:
            if loc[0] == 'field':
                acc.append(loc[2]); loc = loc[1]
            elif loc[0] == 'idx':
                v = self.ev(loc[2])
                acc.append(int(v) if isinstance(v, (int, Fr)) else v); loc = loc[1]
            elif loc[0] == 'deref' and self.root == THIS and loc == ('deref', ('this',)):
                break
            else:
                return None
        return tuple(reversed(acc))

    def pick(self, key, dom):
        if key not in self.chosen_:
            raise Choose(key, dom)
        return self.chosen_[key]

    def member(self, p):
        """value of a member at the beginning"""
        if not self.writing:
            return ('fresh', p)
        if p == ('unique_id',):
            return ('str', ('/', ('val', p)))
        if p in self.indom or p in self.chosen_:
            return self.pick(p, self.indom.get(p))
        if len(p) == 3 and p[0] == 'data_map' and p[2] == 'first':
            return ('str', ('band%d' % p[1],))
        if len(p) == 3 and p[0] == 'data_map' and p[2] == 'second':
            return ('band', p[1])
        return ('val', p)

    def length(self, p):
        if self.writing:
            return self.pick(p + ('size',), (0, 1, 2))
        return self.sizes.get(p, 0)

    def leafs(self, _, t):
        k = t[0]
        if k == 's':
            return ('str', (t[1],) if t[1] else ())
        if k == 'init':
            l = t[1]
            if l[0] == 'mref':
                return self.mref(l)
            if l[0] == 'glob' and l[1].endswith('::className'):
                return self.cls
            p = self.path(l)
            if p is None:
                if l == ('deref', ('p', 'so')):
                    return ('so',)
                return None
            if not self.writing:
                return self.mem.get(p, ('fresh', p))
            return self.member(p)
        if k == 'sub' and t[2] == 'field' and t[1] == ('s', ''):
            return ('str', ())
        if k == 'sub' and t[2] == 'idx':
            b = self.ev(t[1])
            i = self.ev(t[3])
            if isinstance(b, tuple) and b and b[0] == 'str':
                if i == 0 and b[1] and isinstance(b[1][0], str):
                    return ord(b[1][0][0])
                if not b[1]:
                    return 0
                return self.pick(('first character of', b), (47, 65))
            if isinstance(b, tuple) and b and b[0] == 'list':
                if not (0 <= i < len(b[1])):
                    raise Lost('index outside')
                return b[1][int(i)]
            return None
        if k == 'cat':
            return cat([self.ev(x) for x in t[1]])
        if k == 'mut' and t[1] == 'push_back':
            b = self.ev(t[2])
            if b == ('str', ()):
                b = ('list', ())
            if isinstance(b, tuple) and b[0] == 'list':
                return ('list', b[1] + (self.ev(t[3][0]),))
            return None
        if k == 'f' and t[1] == 'zero' and t[2] and t[2][0][0] == 's' and 'vector' in t[2][0][1]:
            return ('list', ())
        if k == 'obj' and 'vector' in str(t[1]):
            return ('list', ())
        if k == 'begin':
            return 1000000 + 1000 * (hash(t[1]) % 1000)
        if k == 'dyncast':
            if t[2] == ('p', 'so'):
                return self.pick('written to files', (0, 1)) if bname(t[1]) == 'FileSerialization' else None
            v = self.ev(t[2])
            if isinstance(v, tuple) and v[0] == 'band':
                return self.pick(('band', v[1], t[1]), (0, 1))
            return None
        if k == 'out':
            c = t[1]
            if c[0] == 'call' and self.isread(c[1]):
                return self.get(c, default=True)
            return None
        if k == 'call':
            return self.callv(t)
        if k == 'mref':
            return self.mref(t)
        return None

    def isread(self, q):
        return any(q.startswith(h + '::read') for h in HANDLERS)

    def callv(self, t):
        q, n = t[1], bname(t[1])
        if n == 'size' and len(t[2]) == 1:
            a = t[2][0]
            if a[0] == 'init':
                p = self.path(a[1])
                if p is not None:
                    return self.length(p)
            if a[0] in ('lv', 'post') and a not in self.env:
                p = self.path_of(a[2])
                if p is not None:
                    return self.length(p)
            v = self.ev(a)
            if isinstance(v, tuple) and v and v[0] == 'list':
                return len(v[1])
            if isinstance(v, tuple) and v and v[0] == 'str':
                return sum(len(x) if isinstance(x, str) else 3 for x in v[1])
            return None
        if n == 'empty' and len(t[2]) == 1:
            a = t[2][0]
            v = self.ev(a)
            if isinstance(v, tuple) and v and v[0] == 'str':
                return int(not v[1])
            if isinstance(v, tuple) and v and v[0] == 'list':
                return int(not v[1])
            return None
        if n == 'find' and len(t[2]) == 3 and t[2][1][0] == 'poly':
            for m, c in t[2][1][1]:
                for a, e in m:
                    if a[0] == 'call' and bname(a[1]) == 'size':
                        lst, x = self.ev(a[2][0]), self.ev(t[2][2])
                        if lst == ('str', ()):
                            lst = ('list', ())
                        if isinstance(lst, tuple) and lst[0] == 'list':
                            i = lst[1].index(x) if x in lst[1] else len(lst[1])
                            return self.ev(t[2][0]) + i
            return None
        if n == 'lexical_cast':
            v = self.ev(t[2][0])
            return cat([v]) if isinstance(v, (int, Fr)) else v
        if q == SER + '::hasKey':
            return int(self.key(t[2][1]) in self.doc['keys'])
        if self.isread(q):
            return self.get(t, default=len(t[2]) == 2)
        if n == 'fileExists':
            return int(any(self.ev(a) in self.doc['streams'] for a in t[2] if a[0] in ('cat', 's', 'init', 'call')))
        if n == 'getMapPath':
            return ('str', (('val', ('directory',)),))
        if n in READERS:
            return 1
        if n == 'getClassName':
            return self.cls
        if not t[2] or t[2][0] in (('init', THIS), ('init', ('deref', ('this',)))) or len(t[2]) == 1:
            v = self.virtual(n)
            if v is not None:
                return v
            if n == 'singleFile':
                return self.pick('single file', (0, 1))
        if n.startswith('operator==') or n == 'compare':
            a, b = self.ev(t[2][0]), self.ev(t[2][1])
            return int(a == b)
        return None

    def mref(self, l):
        n = bname(l[1])
        if n == 'getClassName':
            return self.cls
        if n in ('getBinaryOutputStream', 'getBinaryInputStream'):
            return ('stream', self.ev(l[3][0]))
        return None

    def key(self, t):
        v = self.ev(t)
        if not (isinstance(v, tuple) and v[0] == 'str'):
            raise Lost('key ' + show(t)[:60])
        return v

    def get(self, c, default):
        """default: the value wanted; otherwise whether there is one"""
        key = self.key(c[2][1])
        e = self.doc['keys'].get(key)
        kind = numkind(stroot(c[1]))
        if e is not None and convertible(e['kind'], kind):
            return e['value'] if default else 1
        if e is not None:
            self.log.append(('type', key, e['kind'], kind))
        if not default:
            return 0
        if len(c[2]) == 3:
            o = c[2][2]
            return self.ev(o) if o[0] != 'uninit' else ('unset',)
        return ('str', ()) if kind == 'string' else 0

    def ev(self, t):
        if t[0] == 'cmp' and t[1] in ('<', '<=') and t[2][0] != 'poly':
            v = self.ev(t[2])
            if isinstance(v, tuple) and v and v[0] == 'val':
                raise Choose(v[1], (0, 1))
        if t[0] == 'cmp' and t[1] in ('==', '!='):
            # comparison of strings and of values that are only compared
            p = t[2]
            if p[0] == 'poly' and len(p[1]) == 2:
                r = self.eqdiff(p)
                if r is not None:
                    return int(r == (t[1] == '=='))
            if p[0] == 'init':
                v = self.ev(p)
                if isinstance(v, tuple) and v and v[0] == 'val' and p[1][0] in ('field', 'idx') and v[1] not in (('unique_id',), ('label',)):
                    raise Choose(v[1], (0, 1))
            if p[0] == 'seq':
                return int((self.ev(p[1]) == self.ev(p[2])) == (t[1] == '=='))
        return Eval.ev(self, t)

    def compare(self, t):
        for m, c in t[1]:
            for a, e in m:
                v = self.ev(a)
                if isinstance(v, tuple) and v and v[0] == 'val':
                    raise Choose(v[1], (0, 1))
        return Eval.compare(self, t)

    def eqdiff(self, p):
        (m1, c1), (m2, c2) = p[1]
        if c1 + c2 == 0 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1:
            a, b = self.ev(m1[0][0]), self.ev(m2[0][0])
            if isinstance(a, tuple) or isinstance(b, tuple):
                if all(isinstance(x, tuple) and x[0] == 'str' and all(isinstance(y, str) for y in x[1]) for x in (a, b)):
                    return a == b
                return self.pick(('equal', a, b), (0, 1)) if a != b else True
        return None

    # -- effects
    def effect(self, _, e):
        if e.kind == 'write':
            p = self.path_of(e.loc)
            if p is not None:
                self.store(p, e.val)
            return
        if e.kind not in ('call', 'ccall'):
            return
        q, n = e.get('q') or '', bname(e.get('n') or '')
        if any(q.startswith(h + '::') for h in HANDLERS):
            if n == 'write':
                return self.put(e)
            if self.isread(q):
                key = self.key(e.args[0])
                self.log.append(('read', key, key in self.doc['keys'], e.res, e))
                return
            if n == 'getBinaryInputStream':
                nm = self.ev(e.args[0])
                self.log.append(('open', nm, nm in self.doc['streams'], e))
                return
        if n in PAIRS or n in READERS:
            names = []
            for a in e.args:
                try:
                    v = self.ev(a)
                except Lost:
                    continue
                if isinstance(v, tuple) and v[0] == 'stream':
                    names.append(v[1])
                elif isinstance(v, tuple) and v[0] == 'str' and any(x == ('val', ('directory',)) for x in v[1]):
                    names.append(v)
            extra = []
            for a in e.args:
                try:
                    v = self.ev(a)
                except Lost:
                    v = None
                if isinstance(v, tuple) and v and v[0] in ('list',) or isinstance(v, tuple) and v and v[0] == 'str' and v not in names:
                    extra.append(v)
            self.log.append(('stream', n, names[-1] if names else None, tuple(extra), e, dict(self.mem)))
            if n in PAIRS and names:
                self.doc['streams'][names[-1]] = (n, tuple(extra))
            return
        p = self.path_of(e.get('this')) if e.get('this') else None
        if p is not None and not self.writing:
            if n in ('resize',) and e.args:
                try:
                    self.sizes[p] = int(self.ev(e.args[0]))
                except (Lost, TypeError, ValueError):
                    self.sizes.pop(p, None)
                self.log.append(('touch', p, e))
            elif n == 'push_back':
                i = self.sizes.get(p, 0)
                self.store(p + (i,), e.args[0])
                self.sizes[p] = i + 1
                self.log.append(('touch', p, e))
            elif n in ('clear',):
                self.sizes[p] = 0
                self.log.append(('touch', p, e))

    def path_of(self, loc):
        try:
            return self.path(loc)
        except (Lost, TypeError, IndexError):
            return None

    def store(self, p, val):
        if self.writing:
            self.log.append(('changes', p))
            return
        if val[0] == 'upd':
            for q, v in val[2]:
                ks = (q,) if q and q[0] in ('field', 'idx') and isinstance(q[0], str) else q
                self.store(p + tuple(x[1] if x[0] == 'field' else x[1] for x in ks), v)
            return
        try:
            v = self.ev(val)
        except Lost as x:
            v = ('lost', str(x))
            if not contains(val, lambda y: y[0] in LOOPY + ('out', 'uninit', 'lvc') or y[0] == 'call' and self.isread(y[1])):
                v = ('fixed', show(val)[:60])
        self.mem[p] = v
        self.log.append(('touch', p, None))

    def put(self, e):
        key = self.key(e.args[0])
        o = None
        t = e.args[1]
        if t[0] == 'init':
            o = self.path_of(t[1])
        elif t[0] == 'call' and bname(t[1]) == 'size' and t[2][0][0] == 'init':
            o = self.path_of(t[2][0][1])
            o = o + ('size',) if o is not None else None
        try:
            v = self.ev(t)
        except Lost as x:
            v = ('lost', str(x))
        mentions = ()
        if o is None:
            # a value computed from one member: if it equals the member it has to come back
            ms = set()
            contains(t, lambda x: ms.add(x) if x[0] == 'init' and x[1][0] in ('field', 'idx') else None)
            ps = {self.path_of(m[1]) for m in ms}
            mentions = tuple(sorted((p for p in ps if p is not None), key=str))
            tops = [m for m in ms if not any(m is not n and m[1] in (n[1][1:2]) for n in ms)]
            if len(tops) == 1 and None not in ps:
                try:
                    if self.ev(tops[0]) == v:
                        o = self.path_of(tops[0][1])
                except Lost:
                    pass
        self.doc['keys'][key] = {'value': v, 'origin': o, 'kind': numkind(stroot(e.q)), 'ev': e, 'mentions': mentions}


LOOPY = ('post', 'it', 'itx', 'lv', 'last', 'sum')


def follow(I, traces, make, first=True):
    """evaluate the trace the input takes; several may stay possible only through exceptions not decided by values"""
    got = []
    for t in traces:
        if t.out not in ('ret', None) and t.out[0] != 'ret' and t.out != 'ret':
            pass
        s = make()
        try:
            pre = [f for f in t.facts if not contains(f, lambda x: x[0] in LOOPY)]
            if not all(s.ev(f) for f in pre):
                continue
        except Lost:
            pass
        if s.run(t):
            got.append((t, s))
    return got


def describe(ch):
    out = []
    for k, v in ch.items():
        out.append('%s=%s' % ('.'.join(map(str, k)) if isinstance(k, tuple) else k, v))
    return ', '.join(out)[:160] or 'any values'


def method_of(P, cls, name):
    """the definition of a virtual function taking only the serialization"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        fs = [f for f in P.byname.get(c + '::' + name, []) if f.get('body') and 'Serialization' in f['sig']]
        one = [f for f in fs if len(f['params']) == 1]
        if one or fs:
            return (one or fs)[0]
        r = P.records.get(c)
        todo += list(r['bases']) if r else []
    return None


def factpaths(I, traces, root):
    """members the control flow depends on"""
    out = set()

    def look(x):
        if x[0] == 'init' and isinstance(x[1], tuple):
            l, acc = x[1], []
            while isinstance(l, tuple) and l[0] == 'field':
                acc.append(l[2]); l = l[1]
            if l == root and acc:
                out.add(tuple(reversed(acc)))
        return False

    def go(facts, evs):
        for f in facts:
            contains(f, look)
        for e in evs:
            if e.kind == 'loop':
                for tr in e.traces:
                    go(tr[0], tr[1])
    for t in traces:
        go(t.facts, t.events)
    return {p for p in out if p not in (('unique_id',), ('data_map',))}


def reader_effects(ctx, fn, memo):
    """members a reader of binary content mentions, and members it sets (the functions of its own class included)"""
    k = (fn['q'], fn['sig'])
    if k in memo:
        return memo[k]
    P = ctx.P
    uses, sets = set(), set()
    memo[k] = (uses, sets)
    own = classes_of(P, fn['q'])
    seen, todo = set(), [fn]

    def member(n):
        """path of a member of *this"""
        acc = []
        while isinstance(n, dict):
            if n.get('k') == 'member':
                acc.append(n['name']); n = n['e']
            elif n.get('k') == 'this':
                return tuple(reversed(acc)) if acc else None
            elif n.get('k') in ('icast', 'upcast', 'paren', 'decay'):
                n = n.get('e')
            elif n.get('k') in ('index', 'deref', 'opcall', 'mcall'):
                acc = []
                n = n.get('e') or n.get('obj') or n.get('a') or (n.get('args') or [None])[0]
            else:
                return None
        return None

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        if not isinstance(n, dict):
            return
        kd = n.get('k')
        if kd == 'member':
            m = member(n)
            if m:
                uses.add(m)
        if kd in ('assign', 'binop', 'bin', 'compound') and '=' in str(n.get('op', '')) and n.get('op') not in ('==', '!=', '<=', '>='):
            m = member(n.get('a') or n.get('l_') or n.get('lhs'))
            if m:
                sets.add(m)
        c = n.get('callee')
        if isinstance(c, dict):
            if kd == 'mcall' and not c.get('const'):
                m = member(n.get('obj'))
                if m:
                    sets.add(m)
            f = P.funcs.get((c.get('q'), c.get('sig')))
            if f is not None and f.get('body') and c.get('q', '').rpartition('::')[0] in own and id(f) not in seen:
                seen.add(id(f)); todo.append(f)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v)
    while todo:
        walk(todo.pop().get('body'))
    return memo[k]


def classes_of(P, q):
    c = q.rpartition('::')[0]
    return [c] + P.bases(c)


def s01(ctx):
    P = ctx.P
    ctx.rule('S01.roundtrip', 'every member an item saves holds the saved value in the item created from the document')
    ctx.rule('S01.keys', 'the documents hold the keys of the scene format for the class of the item')
    ctx.rule('S01.reads', 'an item reads no key unconditionally that its class does not save')
    ctx.rule('S01.streams', 'the binary streams written are the ones read, under the same names and by the matching reader, after what the reader needs was restored')
    ctx.rule('S01.const', 'saving an item does not change it')
    made = sorted(q for q in P.byname if q.startswith('envire::createItem<'))
    if len(made) < 10:
        raise AnalysisError('S01: createItem instances not found (anchor lost)')
    groups = {}
    for q in made:
        cls = q[len('envire::createItem<'):-1]
        ser, uns = method_of(P, cls, 'serialize'), method_of(P, cls, 'unserialize')
        if ser is None or uns is None:
            continue
        groups.setdefault((ser['q'], ser['sig'], uns['q'], uns['sig']), []).append(cls)
    memo, cache = {}, {}
    for (sq, ss, uq, us), clss in sorted(groups.items()):
        for n, cls in enumerate(sorted(clss)):
            # grids of several element types share the code; one instance per code is evaluated, the rest by name
            roundtrip(ctx, P, cls, memo, cache)


def constant(P, cls, name, memo):
    """value of a member function without arguments if it is the same constant for all items of the class"""
    k = ('constant', cls, name)
    if k not in memo:
        memo[k] = None
        todo = [cls]
        while todo:
            c = todo.pop(0)
            fs = [f for f in P.byname.get(c + '::' + name, []) if f.get('body') and not f['params']]
            if fs:
                I = Interp(P)
                t = I.run(fs[0])
                v = I.rv(t[0].st, t[0].val) if len(t) == 1 and t[0].val else None
                if v and v[0] == 'n':
                    memo[k] = v[1]
                break
            r = P.records.get(c)
            todo += list(r['bases']) if r else []
    return memo[k]


def classname(ctx, P, cls, memo):
    k = ('class name', cls)
    if k not in memo:
        memo[k] = ('str', (('val', ('class name',)),))
        for c in [cls] + P.bases(cls):
            fs = [f for f in P.byname.get(c + '::getClassName', []) if f.get('body')]
            if fs:
                I = Interp(P)
                t = I.run(fs[0])
                v = I.rv(t[0].st, t[0].val) if len(t) == 1 else None
                if v and v[0] == 's':
                    memo[k] = ('str', (v[1],))
                break
    return memo[k]


def roundtrip(ctx, P, cls, memo, cache):
    fn = P.byname['envire::createItem<%s>' % cls][0]
    ser = method_of(P, cls, 'serialize')
    where = P.rel(ser['file']) + ':' + str(ser['l']) if hasattr(P, 'rel') else ser['file']
    kn = lambda r: 'S01:%s:%s' % (cls, r)
    try:
        if (ser['q'], ser['sig']) not in cache:
            cache[(ser['q'], ser['sig'])] = run(ctx, ser, opaque=opaque)
        I1, w = cache[(ser['q'], ser['sig'])]
        I2, r = run(ctx, fn, opaque=opaque)
    except Exception as x:
        if isinstance(x, AnalysisError):
            raise
        ctx.und('S01.roundtrip', cls, 'not analysed: %s' % str(x)[:80])
        return
    root2 = None
    for e in r[0].events:
        if e.kind == 'new':
            root2 = e.get('loc') or e.get('this')
            break
    if root2 is None and r[0].val and r[0].val[0] == 'addr':
        root2 = r[0].val[1]
    dom = {p: (0, 1) for p in factpaths(I1, w, THIS)}
    bad, und, n = {}, [], 0
    todo = [{}]
    while todo:
        ch = todo.pop()
        try:
            res = one(ctx, P, cls, I1, w, I2, r, root2, ch, dom, memo)
        except Choose as c:
            todo += [dict(ch, **{}) | {c.t: v} for v in c.dom]
            if len(todo) > 400:
                und.append('too many cases'); break
            continue
        except Prune:
            continue
        except Lost as x:
            und.append(str(x)[:90])
            continue
        n += 1
        for k, v in res.items():
            bad.setdefault(k, (v, describe(ch)))
    ctx.count('cases', n)
    ctx.count('classes')
    for rid in ('S01.roundtrip', 'S01.keys', 'S01.reads', 'S01.streams', 'S01.const'):
        mine = [(k, v) for k, v in bad.items() if k[0] == rid]
        for k, (v, c) in mine:
            ctx.bad(rid, where, '%s: %s (case: %s)' % (cls, v, c), kn(':'.join(map(str, k[1:]))))
        if not mine:
            if n and not und:
                ctx.ok(rid, where, cls)
            elif not n:
                ctx.und(rid, cls, '; '.join(sorted(set(und)))[:150] or 'no case evaluated')
            else:
                ctx.und(rid, cls, 'some cases not evaluated: ' + '; '.join(sorted(set(und)))[:150])


def one(ctx, P, cls, I1, w, I2, r, root2, ch, dom, memo):
    base = {'keys': {}, 'streams': {}}
    docs = []

    def mk1():
        d = {'keys': {}, 'streams': {}}
        s = Side(I1, THIS, d, ch, True, dom)
        s.docd = d
        s.cls = classname(ctx, P, cls, memo)
        s.virtual = lambda n: constant(P, cls, n, memo)
        return s
    got = follow(I1, w, mk1)
    got = [g for g in got if g[0].out[0] == 'ret' or g[0].out == 'ret']
    if len(got) != 1:
        raise Lost('%d executions of serialize remain' % len(got))
    s1 = got[0][1]
    doc = s1.docd
    res = {}
    for x in s1.log:
        if x[0] == 'changes' and x[1]:
            res[('S01.const', x[1][0])] = 'serialize changes the member %s' % '.'.join(map(str, x[1]))

    def mk2():
        s = Side(I2, root2, doc, ch, False, {})
        s.cls = s1.cls
        s.virtual = s1.virtual
        return s
    got = follow(I2, r, mk2)
    normal = [g for g in got if g[0].out[0] == 'ret' or g[0].out == 'ret']
    if not normal:
        if got:
            res[('S01.roundtrip', 'throw')] = 'unserialize fails on the document serialize wrote'
            return res
        raise Lost('no execution of unserialize remains')
    # streams that exist are opened successfully: executions that recover from missing streams do not apply
    def misses(s):
        return sum(1 for x in s.log if x[0] == 'open' and not x[2])
    opened = lambda s: [x[1] for x in s.log if x[0] == 'open']
    best = min(normal, key=lambda g: (misses(g[1]), len(opened(g[1]))))
    t, s2 = best
    # keys of the format
    for c in [cls] + P.bases(cls):
        for k in KEYS.get(c, ()):
            if callable(k):
                for x in k(P, ch):
                    if ('str', (x,)) not in doc['keys']:
                        res[('S01.keys', x)] = 'the key "%s" is not saved' % x
            elif ('str', (k,)) not in doc['keys']:
                res[('S01.keys', k)] = 'the key "%s" is not saved' % k
    seen = {}
    for c in [cls] + P.bases(cls):
        for k in KEYS.get(c, ()):
            o = doc['keys'].get(('str', (k,)), {}).get('origin') if not callable(k) else None
            if o and o in seen:
                res[('S01.keys', k)] = 'the same member %s is saved under "%s" and "%s"' % ('.'.join(map(str, o)), seen[o], k)
            elif o:
                seen[o] = k
    # members
    for key, e in doc['keys'].items():
        o, v = e['origin'], e['value']
        if isinstance(v, tuple) and v and v[0] == 'lost':
            continue
        if o is None:
            continue
        if o[-1] == 'size':
            have = s2.sizes.get(o[:-1])
            if have is None:
                have = max([p[len(o) - 1] + 1 for p in s2.mem if len(p) >= len(o) and p[:len(o) - 1] == o[:-1] and isinstance(p[len(o) - 1], int)], default=0)
        else:
            have = s2.mem.get(o, ('fresh', o))
        if isinstance(have, tuple) and have and have[0] == 'lost':
            raise Lost('restored value of %s: %s' % ('.'.join(map(str, o)), have[1]))
        if have != v and not (o[0] == 'data_map'):
            why = [x for x in s2.log if x[0] == 'type' and x[1] == key]
            res[('S01.roundtrip', '.'.join(str(x) for x in o if not isinstance(x, int)))] = 'the member %s saved under "%s" is %s after loading, not %s%s' % (
                '.'.join(map(str, o)), text(key), 'what the constructor left' if isinstance(have, tuple) and have and have[0] == 'fresh' else text(have), text(v),
                ' (written as %s, read as %s)' % (why[0][2], why[0][3]) if why else '')
    # members saved through an expression, and restored from its value
    for key, e in doc['keys'].items():
        for p in e['mentions']:
            have = s2.mem.get(p)
            if have is None or isinstance(have, tuple) and have and have[0] in ('lost', 'fresh') or have != e['value']:
                continue
            want = s1.member(p)
            if have != want:
                res[('S01.roundtrip', '.'.join(str(x) for x in p if not isinstance(x, int)))] = 'the member %s saved under "%s" is %s after loading, not %s' % (
                    '.'.join(map(str, p)), text(key), text(have), text(want))
    for p, v in s2.mem.items():
        if isinstance(v, tuple) and v and v[0] == 'val' and v[1] != p and v[1] in [e['origin'] for e in doc['keys'].values()]:
            res.setdefault(('S01.roundtrip', '.'.join(str(x) for x in p if not isinstance(x, int))), 'the member %s holds %s after loading' % ('.'.join(map(str, p)), text(v)))
    # the flow of the decisions: members that decide what is saved must come back as well
    for p in dom:
        if p in ch and p not in [e['origin'] for e in doc['keys'].values()]:
            have = s2.mem.get(p)
            if have is None or isinstance(have, tuple):
                continue
            if have != ch[p]:
                res[('S01.roundtrip', '.'.join(map(str, p)))] = 'the member %s is %s after loading, not %s' % ('.'.join(map(str, p)), text(have), ch[p])
    # reads
    facts = set()
    for f in t.facts:
        contains(f, lambda x: facts.add(x) if x[0] == 'call' else None)

    def infacts(evs):
        for e in evs:
            if e.kind == 'loop':
                for tr in e.traces:
                    for f in tr[0]:
                        contains(f, lambda x: facts.add(x) if x[0] == 'call' else None)
                    infacts(tr[1])
    infacts(t.events)
    for x in s2.log:
        if x[0] == 'read' and not x[2] and x[3] not in facts:
            res[('S01.reads', text(x[1]))] = 'reads the key "%s", which is not saved' % text(x[1])
    # streams
    ws = {x[2]: x for x in s1.log if x[0] == 'stream' and x[1] in PAIRS}
    rs = [x for x in s2.log if x[0] == 'stream' and x[1] in READERS]
    for x in s2.log:
        if x[0] == 'open' and not x[2]:
            res[('S01.streams', 'open')] = 'opens the stream %s, which is not written' % text(x[1])
    for x in rs:
        if x[2] is None:
            continue
        if x[2] not in ws:
            res[('S01.streams', 'name')] = '%s reads %s, which is not written' % (x[1], text(x[2]))
        elif PAIRS[ws[x[2]][1]] != x[1]:
            res[('S01.streams', 'pair')] = '%s was written by %s, read by %s' % (text(x[2]), ws[x[2]][1], x[1])
        elif x[1] in ('readGridData',) and ws[x[2]][3] != x[3]:
            res[('S01.streams', 'band')] = '%s holds %s, but is read as %s' % (text(x[2]), ws[x[2]][3], x[3])
    readn = [x[2] for x in rs]
    for nm in ws:
        if nm is not None and nm not in readn:
            res[('S01.streams', 'unread')] = '%s is written but not read' % text(nm)
    for c in [cls] + P.bases(cls):
        if c in STREAMS and STREAMS[c] not in [x[1] for x in ws.values()]:
            res[('S01.streams', 'content')] = 'the content is not written by %s' % STREAMS[c]
    bands = [k for k in ch if isinstance(k, tuple) and k[0] == 'band' and ch[k]]
    if 'envire::GridBase' in P.bases(cls) and cls != 'envire::MLSGrid' and 'envire::MLSGrid' not in P.bases(cls):
        names = set()
        for x in ws.values():
            for v in x[3]:
                names |= set(v[1]) if v[0] == 'list' else {v}
        want = {('str', ('band%d' % k[1],)) for k in bands}
        if names != want and want - names:
            res[('S01.streams', 'bands')] = 'the band %s is not written' % sorted(text(x) for x in want - names)[0]
    # what the reader needs
    for i, x in enumerate(s2.log):
        if x[0] != 'stream' or x[1] not in READERS:
            continue
        q = x[4].get('q')
        fns = [f for f in P.byname.get(q, []) if f.get('body')]
        for f in fns:
            uses, sets = reader_effects(ctx, f, memo)
            for e in doc['keys'].values():
                o = e['origin']
                if o and o in uses and o not in x[5] and o in s2.mem:
                    res[('S01.streams', 'order')] = '%s needs %s, which is restored afterwards' % (x[1], '.'.join(map(str, o)))
            for y in s2.log[i + 1:]:
                if y[0] == 'touch' and y[1] and any(y[1][:len(z)] == z for z in sets):
                    res[('S01.streams', 'overwritten')] = '%s sets %s, which is changed afterwards' % (x[1], '.'.join(map(str, y[1])))
    return res


import re
PROPS = {'S01': s01}
