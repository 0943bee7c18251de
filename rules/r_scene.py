"""Scene files: the document that is written for an environment, and the environment that is read from it.

libyaml and the thin wrapper around it are given by a model of documents (numbered nodes: scalars, sequences, mappings);
the summaries of the writing and of the reading function are evaluated on environments and documents.
"""
from .lib import *
from .worlds import Lost, Prune
from .sim import Eval, Choose
import re

FS = 'envire::FileSerialization'
ENV = ('env',)
NODE, CELL, ITEM, COPY = 10 ** 6, 1000, 10 ** 12, 2 * 10 ** 12
RELATIONS = {
    'frameNodeTree': ('child', 'parent'), 'layerTree': ('child', 'parent'),
    'operatorGraphInput': ('operator', 'layer'), 'operatorGraphOutput': ('operator', 'layer'),
    'cartesianMapGraph': ('map', 'node'),
}
HELP = ('getNode', 'getScalar', 'getScalarInMap', 'findNodeInMap', 'addNodeToMap', 'addScalar', 'addSequenceNode', 'addMapNode', 'addToSequence')


class Doc:
    """nodes are numbered from 1, the first one is the root"""

    def __init__(self):
        self.nodes = []

    def add(self, kind, val=None):
        self.nodes.append([kind, val if val is not None else []])
        return len(self.nodes)

    def node(self, i):
        if not isinstance(i, (int, Fr)) or not 1 <= i <= len(self.nodes):
            return None
        return self.nodes[int(i) - 1]

    def copy(self):
        d = Doc()
        d.nodes = [[k, list(v) if isinstance(v, list) else v] for k, v in self.nodes]
        return d

    def tree(self, i=1):
        n = self.node(i)
        if n is None:
            return None
        if n[0] == 'scalar':
            return n[1]
        if n[0] == 'seq':
            return [self.tree(x) for x in n[1]]
        return tuple((self.tree(k), self.tree(v)) for k, v in n[1])

    def load(self, t):
        """append a tree, return its number"""
        if isinstance(t, str):
            return self.add('scalar', t)
        if isinstance(t, list):
            i = self.add('seq')
            self.node(i)[1].extend([self.load(x) for x in t])
            return i
        i = self.add('map')
        self.node(i)[1].extend([(self.load(k), self.load(v)) for k, v in t])
        return i

    def find(self, m, key):
        n = self.node(m)
        if n is None or n[0] != 'map':
            raise Fault('looks up "%s" in something that is not a mapping' % (key,))
        r = 0
        for k, v in n[1]:
            if self.node(k)[1] == key:
                r = v
        return r

    def scalar(self, i):
        n = self.node(i)
        if n is None or n[0] != 'scalar':
            return None
        return n[1]


class Fault(Lost):
    """the code does something no document allows"""


class Thrown(Lost):
    pass


def integer(text, q):
    """the number lexical_cast<T, ...> makes of a text, None if it refuses"""
    m = re.search(r'lexical_cast<(const )?((unsigned |signed )?(long|int|short|char|unsigned)[a-z ]*)', q)
    if not m or not re.fullmatch(r'[+-]?\d+', text):
        return None
    t = m.group(2)
    b = 64 if 'long' in t else 16 if 'short' in t else 32
    lo, hi = (0, 2 ** b) if t.startswith('unsigned') else (-2 ** (b - 1), 2 ** (b - 1))
    return int(text) if lo <= int(text) < hi else None


def pure(v):
    return isinstance(v, (str, int, Fr))


class Run(Eval):
    """w: items {address: (id, class)}, relations {name: [(address, address)]}"""

    def __init__(self, I, P, doc, env=None, params=None):
        Eval.__init__(self, I, self.leafs, self.effect)
        self.P, self.doc = P, doc
        self.w = env or {'items': {}, 'relations': {}}
        self.new = {'items': {}, 'relations': {k: [] for k in RELATIONS}, 'root': None, 'last_id': None, 'attached': []}
        self.made = {}
        self.cur = 0
        self.params = params or {}
        self.log = []
        self.dumped = None
        self.fresh = 0
        self.gone = set()

    late = True

    def iteration(self, lid, keep):
        for k in [k for k in self.env if k[0] in ('call', 'mref') and k not in keep]:
            del self.env[k]

    def save(self):
        import copy
        return self.doc.copy(), self.cur, copy.deepcopy(self.new), dict(self.made), list(self.log), self.dumped, self.fresh

    def restore(self, m):
        self.doc, self.cur, self.new, self.made, self.log, self.dumped, self.fresh = m

    # ------------------------------------------------------------------ locations
    def at(self, l):
        k = l[0]
        if k == 'deref':
            if l[1] == ('this',):
                return (('this',), ())
            if l[1] == ('p', 'env'):
                return (ENV, ())
            if l[1][0] == 'p':
                return (('param', l[1][1]), ())
            return (self.ev(l[1]), ())
        if k == 'field':
            b, p = self.at(l[1])
            return (b, p + (l[2],))
        if k == 'idx':
            b, p = self.at(l[1])
            i = self.ev(l[2])
            if isinstance(b, int) and not p and isinstance(i, (int, Fr)):
                return (b + int(i), ())
            return (b, p + (i,))
        if k in ('heap', 'var', 'tmp'):
            return (l, ())
        raise Lost('location %s' % k)

    def load(self, l):
        if l[0] == 'mref':
            return self.call(l)
        b, p = self.at(l)
        if b == ENV:
            return self.world(p)
        if isinstance(b, tuple) and b[0] == 'param':
            return self.params.get(b[1]) if not p else None
        if b == ('this',):
            if p and p[-1] == 'current_node':
                return self.cur
            if p == ('yamlSerialization',):
                return ('yaml',)
            return None
        if b == ('yaml',):
            if p == ('current_node',):
                return self.cur
            return ('yaml',) + p
        if isinstance(b, (int, Fr)) and not isinstance(b, bool):
            return self.mem(int(b), p)
        if isinstance(b, tuple) and b and b[0] == 'heap':
            if p and p[0] in RELATIONS and len(p) == 1:
                return None
            if p and p[-1] == 'rootNode':
                return self.new['root']
            if p and p[-1] == 'last_id':
                return self.new['last_id']
        return None

    def mem(self, a, p):
        if a >= ITEM:
            it = self.w['items'].get(a) or self.made.get(a)
            if it is None:
                raise Lost('no item')
            if p == ('unique_id',):
                return it[0]
            return None
        n = self.doc.node(a // NODE)
        if n is None:
            raise Fault('dereferences a node that does not exist')
        c = a % NODE
        if c == 0:
            if p == ('type',):
                return {'scalar': 1, 'seq': 2, 'map': 3}[n[0]]
            base = a + CELL
            for kind, name in (('map', ('data', 'mapping', 'pairs')), ('seq', ('data', 'sequence', 'items'))):
                if p[:-1] == name:
                    if n[0] != kind:
                        raise Fault('reads a %s as a %s' % (n[0], kind))
                    return {'start': base, 'top': base + len(n[1])}.get(p[-1])
            if p[:2] == ('data', 'scalar'):
                if n[0] != 'scalar':
                    raise Fault('reads the text of a %s' % n[0])
                return {'value': n[1], 'length': len(n[1])}.get(p[-1])
            return None
        c -= CELL
        if not 0 <= c < len(n[1]) or n[0] == 'scalar':
            raise Fault('reads behind the end of a node')
        if n[0] == 'map':
            return {('key',): n[1][c][0], ('value',): n[1][c][1]}.get(p)
        return n[1][c] if not p else None

    def world(self, p):
        if not p:
            return None
        if p == ('rootNode',):
            return ([a for a, it in self.w['items'].items() if it[0] == '/0'] or [0])[0]
        if p[0] == 'items' and len(p) == 3:
            its = sorted(self.w['items'].items(), key=lambda x: x[1][0])
            if not 0 <= p[1] < len(its):
                raise Fault('reads past the end of the items')
            a, it = its[int(p[1])]
            return it[0] if p[2] == 'first' else a
        if p[0] in RELATIONS and len(p) == 3:
            l = self.w['relations'].get(p[0], [])
            if not 0 <= p[1] < len(l):
                raise Fault('reads past the end of %s' % p[0])
            l = l[int(p[1])]
            return l[0] if p[2] == 'first' else l[1]
        return None

    def count(self, t):
        if t[0] == 'init':
            try:
                b, p = self.at(t[1])
            except Lost:
                return None
            if b == ENV and p == ('items',):
                return len(self.w['items'])
            if b == ENV and p and p[0] in RELATIONS and len(p) == 1:
                return len(self.w['relations'].get(p[0], []))
        f = t[1][2] if t[0] == 'init' and t[1][0] == 'field' else t[3] if t[0] == 'sub' and t[2] == 'field' else None
        if f and any(x['name'] == f and 'fstream' in x['t'] for x in (self.P.records.get(FS) or {}).get('fields', ())):
            return 2
        v = self.ev(t)
        if isinstance(v, (str, tuple, list)):
            return len(v)
        return None

    # ------------------------------------------------------------------ values
    def leafs(self, _, t):
        k = t[0]
        if k == 's':
            return t[1]
        if k == 'addr':
            b, p = self.at(t[1])
            return b if isinstance(b, int) and not p else ('addr', b, p)
        if k == 'init':
            return self.load(t[1])
        if k == 'p':
            return self.params.get(t[1])
        if k == 'cat':
            return ''.join(str(self.ev(x)) for x in t[1])
        if k == 'sub' and t[2] == 'idx':
            b, i = self.ev(t[1]), self.ev(t[3])
            if isinstance(b, str):
                return ord(b[int(i)]) if 0 <= i < len(b) else 0
            return None
        if k == 'sub' and t[2] == 'field':
            if t[3] == 'current_node':
                return self.current(t[1])
            if t[3] == 'yamlSerialization':
                return ('yaml',)
        if k == 'dyncast':
            v = self.ev(t[2])
            return self.cast(t[1], v)
        if k in ('seq', 'ptr') and len(t) == 2:
            return self.ev(t[1])
        if k == 'has' and not self.after_effects:
            for name in RELATIONS:
                if contains(t[1], lambda x: x == ('field', name) or x[0] in ('field', 'sub') and x[-1] == name):
                    x = self.ev(t[2])
                    return int(x in [y[0] for y in self.new['relations'][name]])
            return None
        if k in ('call', 'mref'):
            return self.call(t)
        if k == 'f' and t[1] == 'zero':
            return 0
        return None

    def cast(self, cls, v):
        cls = cls.replace('*', '').replace('const', '').strip()
        if not v:
            return 0
        it = self.w['items'].get(v) or self.made.get(v)
        if it is None:
            raise Lost('cast of something else')
        return v if it[1] == cls or cls in self.P.bases(it[1]) else 0

    def current(self, obj):
        """the current node in a state of the wrapper"""
        while obj[0] == 'upd':
            for path, v in reversed(obj[2]):
                if path in (('field', 'current_node'), (('field', 'current_node'),)):
                    return self.ev(v)
            obj = obj[1]
        return self.cur

    def call(self, t):
        q, n, a = t[1], bname(t[1]), t[2]
        if t[0] == 'mref':
            if n == 'getClassName':
                b, p = self.at(t[2])
                return self.mem_class(b)
            a = t[3]
        if a and a[-1][0] == 'ver':
            a = a[:-1]
        if n in ('length', 'size') and len(a) == 1:
            return self.count(a[0])
        if n == 'empty' and len(a) == 1:
            c = self.count(a[0])
            return None if c is None else int(c == 0)
        if n in ('c_str', 'string', 'native', 'data') and len(a) == 1:
            return self.ev(a[0])
        if n in ('fopen',):
            return 77
        if n in ('yaml_document_initialize', 'yaml_parser_load', 'yaml_emitter_dump', 'yaml_parser_initialize', 'yaml_emitter_initialize', 'good', 'is_open'):
            return 1
        if n == 'yaml_document_get_root_node':
            return NODE if self.doc.nodes else 0
        if n == 'yaml_document_get_node':
            i = self.ev(a[1])
            return int(i) * NODE if self.doc.node(i) else 0
        if n == 'getClassName':
            return self.mem_class(self.ev(('addr', a[0][1])) if a[0][0] == 'init' else None)
        if n == 'fails':
            c = a[0]
            if c[0] == 'call' and bname(c[1]) == 'lexical_cast':
                return int(integer(str(self.ev(c[2][0])), c[1]) is None)
            return 0
        if n == 'lexical_cast':
            v = self.ev(a[0])
            if integer(str(v), q) is not None:
                return integer(str(v), q)
            return str(v) if 'string' in q else int(v) if re.fullmatch(r'[+-]?\d+', str(v)) else None
        if 'YAMLSerializationImpl' in q or n in HELP:
            if n == 'getNode':
                i = self.ev(a[-1])
                return int(i) * NODE if self.doc.node(i) else 0
            if n == 'getScalar':
                v = self.doc.scalar(self.ev(a[1]))
                if v is None:
                    raise Thrown('not a scalar')
                return v
            if n == 'findNodeInMap':
                m = self.ev(a[1]) if len(a) == 3 else self.current(a[0])
                return self.doc.find(m, self.ev(a[-1]))
            if n == 'getScalarInMap':
                v = self.doc.scalar(self.doc.find(self.current(a[0]), self.ev(a[1])))
                if v is None:
                    raise Thrown('key missing')
                return v
            return None
        if n == 'getItem' and len(a) == 2:
            i = self.ev(a[1])
            x = self.new['items'].get(i, 0)
            m = re.search(r'getItem<(.*)>$', q)
            return self.cast(m.group(1), x) if m else x
        if n == 'get' and len(a) == 1:
            return self.ev(a[0])
        if n in ('rfind', 'find_last_of') and len(a) >= 2:
            s, c = self.ev(a[0]), self.ev(a[1])
            c = chr(int(c)) if not isinstance(c, str) else c
            return str(s).rfind(c)
        if n in ('find', 'find_first_of') and len(a) >= 2 and isinstance(self.ev(a[0]), str):
            c = self.ev(a[1])
            c = chr(int(c)) if not isinstance(c, str) else c
            return self.ev(a[0]).find(c)
        if n == 'substr':
            s = self.ev(a[0])
            i = int(self.ev(a[1])) if len(a) > 1 else 0
            m = int(self.ev(a[2])) if len(a) > 2 else -1
            return s[i:] if m < 0 else s[i:i + m]
        if n == 'compare' or n.startswith('operator=='):
            return int(self.ev(a[0]) == self.ev(a[1])) if n != 'compare' else int(self.ev(a[0]) != self.ev(a[1]))
        return None

    def mem_class(self, a):
        it = self.w['items'].get(a) or self.made.get(a)
        if it is None:
            raise Lost('class of something else')
        return it[1]

    # ------------------------------------------------------------------ effects
    def effect(self, _, e):
        if e.kind == 'write':
            l = e.loc
            if l[0] == 'field' and l[2] == 'current_node':
                self.cur = self.ev(e.val)
                return
            if l[0] == 'field' and l[1][0] == 'heap' and l[2] in ('rootNode', 'last_id'):
                try:
                    v = self.ev(e.val)
                except Lost:
                    v = None
                self.new['root' if l[2] == 'rootNode' else 'last_id'] = v
            return
        if e.kind == 'delete':
            self.log.append(('delete', e))
            return
        if e.kind not in ('call', 'ccall'):
            return
        n, a = bname(e.n or ''), e.args
        r = e.get('res')
        d = self.doc
        if e.get('mapop'):
            l = e.get('this')
            if l and l[0] == 'field' and l[2] in RELATIONS:
                if e.mapop not in ('insert', 'assign') or l[1][0] != 'heap':
                    raise Lost('edit of a relation')
                x = (self.ev(a[0]), self.ev(a[1]))
                rel = self.new['relations'][l[2]]
                if 'multimap' in (e.q or '') or x[0] not in [y[0] for y in rel]:
                    rel.append(x)
                elif e.mapop == 'assign':
                    rel[:] = [y for y in rel if y[0] != x[0]] + [x]
            return
        if n == 'yaml_document_add_mapping' or n == 'addMapNode':
            self.env[r] = d.add('map')
        elif n in ('yaml_document_add_sequence', 'addSequenceNode'):
            self.env[r] = d.add('seq')
        elif n == 'addScalar':
            v = self.ev(a[0])
            self.env[r] = d.add('scalar', v if isinstance(v, str) else str(v) if isinstance(v, (int, Fr)) else ('text', v))
        elif n == 'yaml_document_add_scalar':
            v = self.ev(a[2])
            m = self.ev(a[3])
            if not isinstance(v, str) or not isinstance(m, (int, Fr)):
                raise Lost('scalar')
            self.env[r] = d.add('scalar', v[:int(m)] if m >= 0 else v)
        elif n == 'addToSequence' or n == 'yaml_document_append_sequence_item':
            s, v = self.ev(a[-2]), self.ev(a[-1])
            self.append(s, v, 'seq')
            self.env[r] = 1
        elif n == 'addNodeToMap':
            m = self.ev(a[0]) if len(a) == 3 else self.current(e.thisv) if e.get('thisv') else self.cur
            k = d.add('scalar', self.ev(a[-2]))
            self.append(m, (k, self.ev(a[-1])), 'map')
            self.env[r] = 1
        elif n == 'yaml_document_append_mapping_pair':
            self.append(self.ev(a[1]), (self.ev(a[2]), self.ev(a[3])), 'map')
            self.env[r] = 1
        elif n == 'serialize':
            b, p = self.at(e.this)
            it = self.w['items'].get(b)
            if it is None:
                raise Lost('serializes something else')
            k, v = d.add('scalar', 'id'), d.add('scalar', it[0])
            self.append(self.cur, (k, v), 'map')
            self.log.append(('serialize', it[0]))
        elif n == 'yaml_emitter_dump':
            self.dumped = d.copy()
            self.log.append(('dump', e))
        elif n == 'createObject':
            cls = self.ev(a[0])
            node = self.cur
            i = d.scalar(d.find(node, 'id')) if d.node(node) and d.node(node)[0] == 'map' else None
            if i is None:
                raise Fault('creates an item while no object node is current')
            self.fresh += 1
            x = COPY + self.fresh * NODE
            self.made[x] = (i, cls)
            if r is not None:
                self.env[r] = x
        elif n == 'attachItem' and e.get('this') and e.this[0] == 'heap':
            x = self.ev(a[0])
            if x in self.made:
                i = self.made[x][0]
                if i in self.new['items']:
                    raise Fault('attaches a second item "%s"' % i)
                self.new['items'][i] = x
                self.new['attached'].append(i)
        elif n in ('fclose', 'fopen', 'close', 'clear', 'yaml_document_delete', 'yaml_emitter_delete', 'yaml_parser_delete', 'detachItem', 'yaml_document_initialize',
                   'yaml_emitter_set_output_file', 'yaml_parser_set_input_file'):
            self.log.append((n, e))

    def append(self, i, v, kind):
        n = self.doc.node(i)
        if n is None or n[0] != kind:
            raise Fault('adds to a node that is no %s' % {'map': 'mapping', 'seq': 'sequence'}[kind])
        for x in (v if kind == 'map' else (v,)):
            if self.doc.node(x) is None:
                raise Lost('adds a node that was not created here')
        n[1].append(v)

def follow(I, traces, make):
    got, lost, fault = [], [], None
    for t in sorted(traces, key=lambda t: not ret(t)):
        if not ret(t) and got:
            break
        s = make()
        try:
            pre = []
            for f in t.facts:
                if not contains(f, lambda x: x[0] in ('post', 'it', 'itx', 'lv', 'last', 'sum')):
                    try:
                        if not s.holds([f]):
                            raise Prune()
                        pre.append(f)
                    except Lost:
                        pass
            s.events(t.events)
            s.after_effects = True
            try:
                if not s.holds([f for f in t.facts if f not in pre]):
                    continue
            except Lost as x:
                lost.append(str(x))
                continue
            got.append((t, s))
        except Prune:
            continue
        except Fault as x:
            fault = fault or x
        except Lost as x:
            lost.append(str(x))
    if not [g for g in got if ret(g[0])] and fault:
        raise fault
    return got, lost


def ret(t):
    return t.out == 'ret' or t.out[0] == 'ret'


def worlds():
    """environments: every relation empty, with one, and with several links that share ends"""
    it = {}

    def item(i, cls):
        a = ITEM + (len(it) + 1) * NODE
        it[a] = (i, 'envire::' + cls)
        return a
    root, f1, f2, f3 = item('/0', 'FrameNode'), item('/3', 'FrameNode'), item('/12', 'FrameNode'), item('/lab/7', 'FrameNode')
    l1, l2, l3 = item('/4', 'TriMesh'), item('/5', 'Pointcloud'), item('/map a', 'TriMesh')
    o1, o2 = item('/6', 'MergePointcloud'), item('/merge', 'MLSProjection')
    r = {
        'frameNodeTree': [(f1, root), (f2, f1), (f3, root)],
        'layerTree': [(l1, l2), (l1, l3), (l3, l2)],
        'operatorGraphInput': [(o1, l1), (o1, l2), (o2, l1)],
        'operatorGraphOutput': [(o1, l3), (o2, l2), (o2, l3)],
        'cartesianMapGraph': [(l1, f1), (l2, f1), (l3, root)],
    }
    yield 'only the root', {'items': {root: it[root]}, 'relations': {}}
    yield 'no links', {'items': dict(it), 'relations': {}}
    for k in r:
        yield 'one link in ' + k, {'items': dict(it), 'relations': {k: r[k][:1]}}
    yield 'all relations', {'items': dict(it), 'relations': r}
    it2 = {a: (i if i != '/12' else '/x', c) for a, (i, c) in it.items()}
    yield 'other identifiers', {'items': it2, 'relations': r}
    yield 'large numbers', {'items': {root: it[root], f1: ('/70000', it[f1][1]), l1: ('/4000000000', it[l1][1])}, 'relations': {}}


def rec(t):
    return dict(t) if isinstance(t, tuple) else {}


def s02(ctx):
    P = ctx.P
    ctx.rule('objects', 'every item is written as one object with its class, and read, created and attached once, before any link')
    ctx.rule('links', 'every link is written under its relation and comes back as the same link of the same relation')
    ctx.rule('format', 'the document has the structure of scene files: objects and links, types and keys of the links')
    ctx.rule('root', 'the item that was the root is the root again, and the root made for the new environment is gone')
    ctx.rule('ids', 'identifiers given out later are above all loaded ones')
    ctx.rule('finish', 'the document is written after it is complete; files, document, emitter and streams are closed exactly once')
    w, r = [body_of1(P, FS + '::' + n) for n in ('writeToFile', 'readFromFile')]
    op = lambda q: 'YAMLSerializationImpl::' in q and bname(q) in HELP or bname(q) in (
        'attachItem', 'detachItem', 'createObject', 'getItem', 'serialize')
    IW, tw = run(ctx, w, opaque=op)
    IR, tr = run(ctx, r, opaque=op, throwing={'lexical_cast': 'boost::bad_lexical_cast'}, max_traces=4000)
    where = lambda f: '%s:%s %s' % (f['file'], f['l'], f['q'])
    ww, wr = where(w), where(r)
    bad, und, n = {}, {}, {}
    for name, env in worlds():
        docs = [('a scene file', None)]
        for part, f in (('writer', lambda: writes(P, IW, tw, env, name, bad, ww, docs)), ('reader', lambda: [reads(P, IR, tr, env, name, bad, wr, *d) for d in docs])):
            try:
                f()
                n[part] = n.get(part, 0) + 1
            except Lost as x:
                und.setdefault(part, []).append('%s: %s' % (name, x))
    ctx.count('environments', max(n.values(), default=0))
    for rid, part in (('objects', 'writer'), ('objects', 'reader'), ('format', 'writer'), ('links', 'reader'), ('root', 'reader'), ('ids', 'reader'), ('finish', 'writer'), ('finish', 'reader')):
        where_ = ww if part == 'writer' else wr
        mine = [(k, v) for k, v in bad.items() if k[0] == rid and v[0] == where_]
        for (_, what), (_, text) in sorted(mine):
            ctx.bad(rid, where_, text, 'S02:%s:%s' % (rid, what))
        if not mine:
            if n.get(part) and not und.get(part):
                ctx.ok(rid, where_, part)
            else:
                ctx.und(rid, where_, '; '.join(sorted(set(und.get(part, []))))[:300] or 'nothing evaluated')


def body_of1(P, q):
    fs = [f for f in P.byname.get(q, []) if f.get('body')]
    if not fs:
        raise AnalysisError('%s not found (anchor lost)' % q)
    return fs[0]


def writes(P, IW, tw, env, name, bad, ww, docs):
    def put(rid, what, where, text):
        bad.setdefault((rid, what), (where, '%s (environment: %s)' % (text, name)))
    try:
        got, lost = follow(IW, tw, lambda: Run(IW, P, Doc(), env, {'path': 'PATH'}))
    except Fault as x:
        put('format', 'writer', ww, 'writing %s' % x)
        return
    got = [g for g in got if ret(g[0])]
    # the branches on the streams are about ofstreams only
    if not got:
        raise Lost('no execution of writeToFile remains: %s' % '; '.join(sorted(set(lost)))[:150])
    for t, s in got:
        doc = s.dumped
        if doc is None:
            put('finish', 'nodump', ww, 'the document is never written')
            return
        finish(s, put, ww, True)
    t, s = got[0]
    if len(s.doc.nodes) != len(doc.nodes) or s.doc.tree() != doc.tree():
        put('finish', 'early', ww, 'the document changes after it was written')
    tree = rec(doc.tree())
    ids = {a: i for a, (i, c) in env['items'].items()}
    objs, links = tree.get('objects'), tree.get('links')
    if not isinstance(objs, list) or not isinstance(links, list):
        put('format', 'sections', ww, 'the document has no sequence "%s"' % ('objects' if not isinstance(objs, list) else 'links'))
        return
    if [k for k, v in doc.tree()].index('objects') > [k for k, v in doc.tree()].index('links'):
        put('format', 'order', ww, 'links are written before the objects they refer to')
    want = sorted((c, i) for i, c in env['items'].values())
    have = sorted((rec(o).get('class', ''), rec(o).get('id', '')) for o in objs)
    if want != have:
        miss = [x for x in want if x not in have] or [x for x in have if x not in want] or want
        put('objects', 'written', ww, 'the objects written are not the items of the environment: %s %s' % miss[0])
    wl = link_docs(env)
    hl = sorted(tuple(sorted((str(x), str(y)) for x, y in rec(o).items())) for o in links)
    if wl != hl:
        miss = [x for x in wl if x not in hl]
        extra = [x for x in hl if x not in wl]
        put('format', 'link ' + (dict((miss or extra or wl)[0]).get('type', '?')), ww, 'a link is written as %s instead of %s' % (
            dict(extra[0]) if extra else 'nothing', dict(miss[0]) if miss else 'nothing'))
    docs.append(('the document written', doc))
    docs.reverse()


def link_docs(env):
    ids = {a: i for a, (i, c) in env['items'].items()}
    return sorted(tuple(sorted({'type': k, RELATIONS[k][0]: ids[a], RELATIONS[k][1]: ids[b]}.items())) for k, l in env['relations'].items() for a, b in l)


def reads(P, IR, tr, env, name, bad, wr, text, d):
    """reading back what was written, and reading the format as published"""
    def put(rid, what, where, text):
        bad.setdefault((rid, what), (where, '%s (environment: %s)' % (text, name)))
    ids = {a: i for a, (i, c) in env['items'].items()}
    if d is None:
        d = Doc()
        d.load((('objects', [(('class', c), ('id', i)) for i, c in sorted(env['items'].values())]), ('links', link_docs(env))))
    try:
        got, lost = follow(IR, tr, lambda: Run(IR, P, d.copy(), None, {'path': 'PATH'}))
    except Fault as x:
        put('links', 'reader', wr, 'reading %s %s' % (text, x))
        return
    except Thrown as x:
        put('links', 'reader', wr, 'reading %s fails: %s' % (text, x))
        return
    good = [g for g in got if ret(g[0])]
    if not good:
        if got and not lost:
            put('links', 'reader', wr, 'reading %s ends in an exception' % text)
            return
        raise Lost('no execution of readFromFile remains: %s' % '; '.join(sorted(set(lost)))[:150])
    for t, s in good:
        finish(s, put, wr, False)
    t, s = good[0]
    new = s.new
    back = {x: s.made[x][0] for x in s.made}
    want = sorted(env['items'].values())
    have = sorted(s.made[x] for i, x in new['items'].items())
    if want != have:
        miss = [x for x in want if x not in have] or [x for x in have if x not in want]
        put('objects', 'read', wr, 'the items after reading %s are not those written: %s %s' % ((text,) + miss[0]))
    for k in RELATIONS:
        a = sorted((ids[x], ids[y]) for x, y in env['relations'].get(k, []))
        b = sorted((str(back.get(x)), str(back.get(y))) for x, y in new['relations'][k])
        if a != b:
            miss = [x for x in a if x not in b]
            put('links', k, wr, 'after reading %s, %s %s' % (text, k, 'lacks the link %s -> %s' % miss[0] if miss else 'holds a link that was not written: %s -> %s' % [x for x in b if x not in a or a.count(x) != b.count(x)][0]))
    rt = new['root']
    if back.get(rt) != '/0':
        put('root', 'root', wr, 'the root after reading %s is %s, not the item "/0"' % (text, back.get(rt, 'not a loaded item')))
    det = [e for x, e in [y for y in s.log if y[0] == 'detachItem']]
    if not det:
        put('root', 'old', wr, 'the root of the new environment stays in it')
    top = max([int(i.rsplit('/', 1)[-1]) for i, c in env['items'].values() if i.rsplit('/', 1)[-1].isdigit()], default=0)
    v = new['last_id']
    if isinstance(v, (int, Fr)) and v <= top:
        put('ids', 'last_id', wr, 'after loading an item with the number %d the next identifier is %s' % (top, v))
    elif not isinstance(v, (int, Fr)):
        raise Lost('value of last_id')


def finish(s, put, where, writing):
    names = [x[0] for x in s.log]
    for n, what in (('fclose', 'the file'), ('yaml_document_delete', 'the document'), ('yaml_emitter_delete' if writing else 'yaml_parser_delete', 'the emitter' if writing else 'the parser')):
        k = names.count(n)
        if k != 1:
            put('finish', n, where, '%s is released %s' % (what, 'not at all' if not k else '%d times' % k))
    if writing and 'dump' in names:
        if 'fclose' in names and names.index('fclose') < names.index('dump'):
            put('finish', 'closed', where, 'the file is closed before the document is written')
        if 'yaml_emitter_delete' in names and 'fclose' in names and names.index('fclose') < names.index('yaml_emitter_delete'):
            put('finish', 'flush', where, 'the file is closed before the emitter is done with it')


PROPS = {'S02': s02}
