"""The texts and keys of scene files: a value written under a key is the value read from it.

The wrapper around libyaml is checked function by function against the model of documents of r_scene; the functions that
write and read a value are then evaluated one after the other on the document of that model.
"""
from .lib import *
from .worlds import Lost, Prune
from .r_scene import Run, Doc, Fault, Thrown, follow, ret, HELP, NODE
import re
import struct

YAML = 'envire::YAMLSerializationImpl'
SER = 'envire::Serialization'
INT = ('int', 'long', 'short', 'unsigned', 'size_t', 'int64_t', 'uint64_t', 'char', 'bool')
DIGITS = '0.12345678901234566'


class Num(tuple):
    """a floating point number, known by the shortest text that gives it back"""
    def __new__(cls, s):
        return tuple.__new__(cls, ('num', s))


def f32(s):
    return repr(struct.unpack('f', struct.pack('f', float(s)))[0])


def template(q):
    i = q.find('<')
    d, out = 0, []
    for ch in q[i + 1:] if i >= 0 else '':
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
            if d < 0:
                break
        out.append(ch)
    s = ''.join(out)
    d, cur, parts = 0, '', []
    for ch in s:
        d += (ch == '<') - (ch == '>')
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return [x for x in parts + [cur.strip()] if x]


class Codec(Run):
    """params: values by name; parameters that are written to end up in self.outv"""

    def __init__(self, I, P, doc, cur, params, sizes=None):
        Run.__init__(self, I, P, doc, None, params)
        self.cur = cur
        self.outv = {}
        self.bufs = {}
        self.sizes = sizes
        self.strings = {}

    def save(self):
        return Run.save(self), {k: dict(v) for k, v in self.outv.items()}, dict(self.bufs)

    def restore(self, m):
        Run.restore(self, m[0])
        self.outv, self.bufs = {k: dict(v) for k, v in m[1].items()}, dict(m[2])

    def load(self, l):
        b, p = self.at(l)
        if isinstance(b, tuple) and b and b[0] == 'param':
            if p in self.outv.get(b[1], {}):
                return self.outv[b[1]][p]
            v = self.params.get(b[1])
            p = self.path(p)
            if isinstance(v, dict):
                if not p:
                    return None
                x = v.get(p)
                if x is None and len(p) == 2 and all(isinstance(i, (int, Fr)) for i in p):
                    raise Fault('reads the element (%s, %s) of a matrix' % p)
                return x
            return v if not p else None
        if b == ('yaml',) and p and p[-1] == 'current_node':
            return self.cur
        return Run.load(self, l)

    def path(self, p):
        out = ()
        for x in p:
            if isinstance(x, tuple) and x and x[0] == 'view':
                continue
            if isinstance(x, tuple):
                out += tuple(x)
            else:
                out += (x,)
        return tuple(int(x) if isinstance(x, Fr) and x.denominator == 1 else x for x in out)

    def at(self, l):
        if l[0] == 'idx' and isinstance(l[2], tuple) and l[2] and l[2][0] == 'view':
            return self.at(l[1])
        if l[0] == 'idx' and len(l) > 3:
            b, p = self.at(l[1])
            return b, p + tuple(self.ev(x) for x in l[2:])
        return Run.at(self, l)

    def leafs(self, e, t):
        if t[0] in ('idiv', 'mod') and len(t) == 3:
            a, b = [self.ev(x) for x in t[1:]]
            if not b:
                raise Lost('division by zero')
            a, b = int(a), int(b)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if t[0] == 'idiv' else a - b * q
        if t[0] == 'call' and bname(t[1]) in ('rows', 'cols', 'size') and self.sizes and len(t[2]) == 1 and t[2][0][0] != 's':
            if self.matrix(t[2][0]):
                r, c = self.sizes
                return {'rows': r, 'cols': c, 'size': r * c}[bname(t[1])]
        if t[0] == 'mut' and len(t) == 4 and t[1] in ('swap', 'assign', 'operator=') and len(t[3]) == 1:
            return self.ev(t[3][0])
        if t[0] == 'mut' and t[1] == 'clear':
            return ''
        return Run.leafs(self, e, t)

    def matrix(self, t):
        """is the term (a state of) the matrix parameter"""
        return contains(t, lambda x: x[0] == 'deref' and x[1][0] == 'p' and isinstance(self.params.get(x[1][1]), dict))

    def domain(self, name):
        k = kind(self.types.get(name, ''))
        return [(i, j) for i in range(k[0]) for j in range(k[1])] if isinstance(k, tuple) else [()]

    def text(self, v):
        if isinstance(v, Num):
            return v[1]
        if isinstance(v, bool):
            return str(int(v))
        if isinstance(v, int) or isinstance(v, Fr) and v.denominator == 1:
            return str(int(v))
        return v if isinstance(v, str) else None

    def parse(self, s, t):
        t = t.replace('const ', '').strip()
        if 'string' in t:
            return s
        if 'double' in t or 'float' in t:
            try:
                x = repr(float(s))
            except ValueError:
                raise Thrown('"%s" is no number' % s)
            x = Num(f32(x) if 'float' in t else s if float(s) == float(x) and s.count('.') else x)
            return x
        if t == 'bool':
            if s not in ('0', '1'):
                raise Thrown('"%s" is no truth value' % s)
            return int(s)
        if any(w in INT for w in t.split()):
            if not re.fullmatch(r'[+-]?\d+', s):
                raise Thrown('"%s" is no integer' % s)
            return wrap(int(s), t)
        return None

    def call(self, t):
        q, n = t[1], bname(t[1])
        a = t[2] if t[0] == 'call' else t[3]
        if a and a[-1][0] == 'ver':
            a = a[:-1]
        if n == 'fails':
            c = a[0]
            try:
                return int(self.call(c) is None and False)
            except Thrown:
                return 1
        if n in ('rows', 'cols') and self.sizes:
            return self.sizes[n == 'cols']
        if n in ('find', 'rfind', 'find_first_of', 'find_last_of') and len(a) >= 2:
            v, c = self.ev(a[0]), self.ev(a[1])
            if isinstance(v, str):
                c = c if isinstance(c, str) else chr(int(c))
                i = v.find(c, int(self.ev(a[2])) if len(a) > 2 and n == 'find' else 0) if n in ('find', 'find_first_of') else v.rfind(c)
                return i % 2 ** 64
        if n in ('stod', 'strtod', 'atof', 'stof', 'stold', 'strtof'):
            v = self.ev(a[0])
            if isinstance(v, str):
                return self.parse(v, 'float' if n in ('stof', 'strtof') else 'double')
        if n in ('stoi', 'atoi', 'atol', 'stol', 'strtol', 'stoul', 'strtoul', 'stoll', 'atoll', 'strtoll', 'strtoull', 'stoull'):
            v = self.ev(a[0])
            m = re.match(r'\s*[+-]?\d+', v) if isinstance(v, str) else None
            if m:
                return wrap(int(m.group(0)), 'int' if n in ('stoi', 'atoi') else 'long')
            return 0
        if n == 'to_string':
            v = self.ev(a[0])
            return '%.6f' % float(v[1]) if isinstance(v, Num) else self.text(v)
        if n == 'lexical_cast':
            v = self.ev(a[0])
            tt = template(q)
            s = self.text(v)
            if s is None:
                return None
            if not tt or 'string' in tt[0]:
                return s if tt else None
            return self.parse(s, tt[0])
        r = Run.call(self, t)
        return r

    def effect(self, e_, e):
        if e.kind == 'write':
            try:
                b, p = self.at(e.loc)
            except Lost:
                b, p = None, ()
            if isinstance(b, tuple) and b and b[0] == 'param':
                v = self.ev(e.val)
                t = self.types.get(b[1], '')
                if isinstance(v, Num) and 'float' in t:
                    v = Num(f32(v[1]))
                elif isinstance(v, (int, Fr)) and not isinstance(v, bool):
                    v = wrap(int(v), t)
                self.outv.setdefault(b[1], {})[self.path(p)] = v
                return
            if e.loc[0] == 'heap':
                return
        if e.kind in ('call', 'ccall'):
            n, a = bname(e.n or ''), e.args
            if e.kind == 'call' and e.get('this') and e.this[0] in ('deref', 'idx', 'field'):
                b, p = self.at(e.this)
                if isinstance(b, tuple) and b and b[0] == 'param':
                    o = self.outv.setdefault(b[1], {})
                    p = self.path(p)
                    if n == 'clear':
                        o[p] = ''
                    elif n in ('swap', 'assign', 'operator=') and len(a) == 1:
                        o[p] = self.ev(a[0])
                    elif n in ('setZero', 'setIdentity', 'setConstant', 'fill', 'setOnes'):
                        for k in self.domain(b[1]):
                            o[k] = Num('1.0') if n == 'setOnes' or n == 'setIdentity' and k[0] == k[1] else Num('0.0')
                    elif n not in ('begin', 'end', 'data', 'operator()', 'operator[]', 'matrix', 'coeffRef'):
                        raise Lost('%s of a parameter' % n)
                    return
            if n == 'copy' and e.get('this') and len(a) >= 1:
                s = self.ev(e.thisv) if e.get('thisv') else self.load(e.this)
                l = a[0][1] if a[0][0] == 'addr' else None
                if l is None:
                    raise Lost('copy')
                c = int(self.ev(a[1])) if len(a) > 1 else len(s)
                o = int(self.ev(a[2])) if len(a) > 2 else 0
                self.bufs[self.at(l)] = s[o:o + c]
                return
            if n in ('memcpy', 'memmove', 'strncpy', 'strcpy') and a and a[0][0] == 'addr':
                s = self.ev(a[1])
                if isinstance(s, str):
                    self.bufs[self.at(a[0][1])] = s[:int(self.ev(a[2]))] if len(a) > 2 else s
                    return
            if n == 'addScalar':
                v = self.text(self.ev(a[0]))
                if v is None:
                    raise Lost('scalar')
                self.env[e.get('res')] = self.doc.add('scalar', v)
                return
            if n == 'yaml_document_add_scalar':
                v = self.ev(a[2])
                m = int(self.ev(a[3]))
                if isinstance(v, tuple) and v[:1] == ('addr',):
                    v = self.bufs.get((v[1], v[2]))
                if not isinstance(v, str):
                    raise Lost('scalar')
                if m > len(v):
                    raise Fault('writes %d characters of a text of %d' % (m, len(v)))
                r = e.get('res')
                self.env[r] = self.doc.add('scalar', v[:m] if m >= 0 else v)
                return
        Run.effect(self, e_, e)


def wrap(v, t):
    t = t.replace('const ', '').replace('&', '').strip()
    b = 64 if 'long' in t or '64' in t or 'size_t' in t else 32
    if 'short' in t:
        b = 16
    if 'char' in t:
        b = 8
    if t == 'bool':
        return int(bool(v))
    if 'double' in t or 'float' in t or 'string' in t:
        return v
    v &= (1 << b) - 1
    if not (t.startswith('unsigned') or t.startswith('size_t') or t.startswith('uint')) and v >> (b - 1):
        v -= 1 << b
    return v



def kind(t):
    t = t.replace('const ', '').replace('&', '').strip()
    if 'string' in t and 'map' not in t:
        return 'string'
    if 'Transform' in t:
        return (4, 4)
    m = re.match(r'Eigen::Matrix<double, (\d+), (\d+)', t)
    if m:
        return (int(m.group(1)), int(m.group(2)))
    if re.match(r'char ?\(?&?\)?\[', t) or re.match(r'char \*', t):
        return 'text'
    if t in ('double', 'float'):
        return t
    if t == 'bool' or all(w in INT or w == 'long' for w in t.split()):
        return 'int'
    return None


def values(t):
    k = kind(t)
    t = t.replace('const ', '').replace('&', '').strip()
    if k in ('string', 'text'):
        return ['', 'a text: with # marks', '12', "it's"]
    if k == 'double':
        return [Num(DIGITS), Num('-1.5'), Num('1e-30'), Num('123456789.125')]
    if k == 'float':
        return [Num(f32(DIGITS)), Num('-1.5')]
    if k == 'int':
        return sorted({wrap(v, t) for v in (0, 1, -3, 300, 70000, 5 * 10 ** 9, 2 ** 53 + 1)})
    if k:
        return [{(i, j): Num('%d.%d%s' % (i, j + 1, DIGITS[2:])) for i in range(k[0]) for j in range(k[1])}]
    return []


def base(types):
    """the key is the first parameter, the value the second"""
    return [p['name'] for p in types], [p['t'] for p in types]


def sheet():
    """a document whose current object already holds other keys"""
    d = Doc()
    d.load((('objects', [(('class', 'c'), ('other', 'x'), ('key2', 'y'), ('ke', 'z')), (('class', 'd'), ('key', 'of another object'))]), ('links', [])))
    cur = d.node(d.find(1, 'objects'))[1][0]
    return d, cur


def one(I, traces, P, doc, cur, params, types, sizes=None, throws=False):
    def make():
        r = Codec(I, P, doc.copy(), cur, params, sizes)
        r.types = types
        return r
    got, lost = follow(I, traces, make)
    if throws:
        return got, lost
    good = [g for g in got if ret(g[0])]
    if not good and lost:
        raise Lost(lost[0])
    return good, lost


def opq(q):
    return YAML + '::' in q and bname(q) in HELP


def s03(ctx):
    P = ctx.P
    ctx.rule('wrapper', 'the functions around libyaml look up and add exactly the nodes their callers mean')
    ctx.rule('values', 'a value written under a key is the value read from that key; other keys of the object stay')
    ctx.rule('missing', 'reading a key that is not there fails and leaves the variable alone; hasKey tells which keys are there')
    wrapper(ctx, P)
    pairs(ctx, P)


def where(f):
    return '%s:%s %s' % (f['file'], f['l'], f['q'])


def put_all(ctx, rid, f, bad, und, n, key):
    if bad:
        for what in sorted(bad):
            ctx.bad(rid, where(f), bad[what], 'S03:%s:%s:%s' % (rid, key, what))
    elif und or not n:
        ctx.und(rid, where(f), '; '.join(sorted(set(und)))[:300] or 'nothing evaluated')
    else:
        ctx.ok(rid, where(f), '%s on %d inputs' % (key, n))


def runs(ctx, f):
    try:
        return run(ctx, f, throwing={'lexical_cast': 'boost::bad_lexical_cast'}) if not f['q'].startswith(SER) else \
            run(ctx, f, opaque=opq, throwing={'lexical_cast': 'boost::bad_lexical_cast', 'getScalar': 'std::runtime_error', 'getScalarInMap': 'std::runtime_error'})
    except AnalysisError as x:
        return None, str(x)


def wrapper(ctx, P):
    fs = [f for q, l in P.byname.items() if q.startswith(YAML + '::') for f in l if f.get('body') and bname(q) in HELP]
    if not fs:
        return
    for f in fs:
        n = bname(f['q'])
        names, types = base(f['params'])
        tmap = dict(zip(names, types))
        I, tr = runs(ctx, f)
        bad, und, cnt = {}, [], 0
        key = n + ('<%s>' % ','.join(template(f['q']))[:40] if template(f['q']) else '') + '/%d' % len(names)
        if I is None:
            ctx.und('wrapper', where(f), tr)
            continue
        for d, cur, params, want in wcases(n, names, types):
            try:
                ref = d.copy()
                try:
                    wv = want(ref)
                except Thrown:
                    wv = 'throws'
                got, lost = one(I, tr, P, d, cur, params, tmap, throws=True)
                if not got and lost:
                    raise Lost(lost[0])
                for t, s in got:
                    v = 'throws' if not ret(t) else s.ev(t.val) if wv is not None else None
                    if v != wv:
                        bad['result'] = '%s(%s) gives %s instead of %s' % (n, show_params(params), shown(v), shown(wv))
                    elif s.doc.tree(cur) != ref.tree(cur) or s.doc.tree() != ref.tree():
                        bad['document'] = '%s(%s) leaves the document %s instead of %s' % (n, show_params(params), s.doc.tree(cur), ref.tree(cur))
                    cnt += 1
            except Fault as x:
                bad['fault'] = '%s(%s) %s' % (n, show_params(params), x)
            except Lost as x:
                und.append(str(x))
        put_all(ctx, 'wrapper', f, bad, und, cnt, key)


def show_params(p):
    return ', '.join('%s=%s' % (k, shown(v)) for k, v in sorted(p.items()) if not isinstance(v, dict))


def shown(v):
    return '"%s"' % v if isinstance(v, str) else v[1] if isinstance(v, Num) else str(v)


def thrown():
    raise Thrown('')


def wcases(n, names, types):
    """(document, current node, parameters, what the model does to its copy of the document)"""
    d, cur = sheet()
    objs = d.find(1, 'objects')
    other = d.node(objs)[1][1]
    if n == 'getNode':
        for i in (1, cur, objs):
            yield d, cur, {names[0]: i}, lambda r, i=i: i * NODE
        yield d, cur, {names[0]: 0}, lambda r: 0
        yield d, cur, {names[0]: len(d.nodes) + 1}, lambda r: 0
    elif n == 'getScalar':
        for i in (d.find(cur, 'other'), d.find(other, 'key')):
            yield d, cur, {names[0]: i}, lambda r, i=i: r.scalar(i)
        for i in (0, cur, objs):
            yield d, cur, {names[0]: i}, lambda r: thrown()
    elif n == 'getScalarInMap':
        for k in ('class', 'ke', 'key2'):
            yield d, cur, {names[0]: k}, lambda r, k=k: r.scalar(r.find(cur, k))
        yield d, cur, {names[0]: 'key'}, lambda r: thrown()
        yield d, other, {names[0]: 'key'}, lambda r: r.scalar(r.find(other, 'key'))
    elif n == 'findNodeInMap':
        for m in (cur, other):
            for k in ('class', 'ke', 'key', 'key2', 'absent'):
                if len(names) == 1:
                    yield d, m, {names[0]: k}, lambda r, m=m, k=k: r.find(m, k)
                else:
                    yield d, objs, {names[0]: m, names[1]: k}, lambda r, m=m, k=k: r.find(m, k)
    elif n == 'addNodeToMap':
        v = d.add('scalar', 'v')
        for m in (cur, other):
            for k in ('new', 'a longer key'):
                def want(r, m=m, k=k):
                    i = r.add('scalar', k)
                    r.node(m)[1].append((i, v))
                if len(names) == 2:
                    yield d, m, {names[0]: k, names[1]: v}, want
                else:
                    yield d, objs, {names[0]: m, names[1]: k, names[2]: v}, want
    elif n == 'addToSequence':
        v = d.add('scalar', 'v')
        for m in (objs, d.find(1, 'links')):
            yield d, cur, {names[0]: m, names[1]: v}, lambda r, m=m: r.node(m)[1].append(v)
    elif n in ('addSequenceNode', 'addMapNode'):
        yield d, cur, {x: 0 for x in names}, lambda r: r.add('seq' if n == 'addSequenceNode' else 'map')
    elif n == 'addScalar':
        for v in values(types[0]):
            s = v[1] if isinstance(v, Num) else v if isinstance(v, str) else str(v)
            p = {x: 1 for x in names}
            p[names[0]] = v
            if isinstance(v, dict):
                continue
            yield d, cur, p, lambda r, s=s: r.add('scalar', s)


def pairs(ctx, P):
    fs = lambda n: [f for q, l in P.byname.items() if q.startswith(SER + '::') and bname(q) == n for f in l if f.get('body')]
    ws, rs, hs = fs('write'), fs('read'), fs('hasKey')
    if not ws or not rs:
        raise AnalysisError('Serialization::write and read not found (anchor lost)')
    norm = lambda t: re.sub(r'\bconst |&', '', t).strip()
    done = {}
    for f in rs + ws + hs:
        done[id(f)] = runs(ctx, f)
    written = {}
    for f in ws:
        names, types = base(f['params'])
        I, tr = done[id(f)]
        if I is None:
            ctx.und('values', where(f), tr)
            continue
        t = norm(types[1])
        k = kind(types[1])
        sizes = k if isinstance(k, tuple) else None
        for v in values(types[1]):
            d, cur = sheet()
            written.setdefault(t if k != 'text' else 'string', []).append((f, v, attempt(I, tr, P, d, cur, {names[0]: 'key', names[1]: v}, dict(zip(names, types)), sizes)))
    for f in rs:
        names, types = base(f['params'])
        I, tr = done[id(f)]
        if I is None:
            ctx.und('values', where(f), tr)
            continue
        out = types[1] if len(types) > 1 else (template(f['q']) or [f['rt']])[0]
        t = norm(out)
        k = kind(out)
        sizes = k if isinstance(k, tuple) else None
        key = 'read(%s)%s' % ('string' if k == 'string' else t.split('<')[0], '' if len(types) > 1 else ' by value')
        bad, und, cnt = {}, [], 0
        same = written.get(t) or [x for tt, l in written.items() if kind(tt) == k and k == 'string' for x in l]
        if not same:
            # nothing writes this type: any value of the type may be in a document
            same = [(None, v, None) for v in values(out) if not isinstance(v, dict)]
        for wf, v, res in same:
            try:
                if res is None:
                    d, cur = sheet()
                    m = d.node(cur)[1]
                    m.append((d.add('scalar', 'key'), d.add('scalar', v[1] if isinstance(v, Num) else str(v))))
                elif isinstance(res, str):
                    raise Lost(res)
                elif isinstance(res, Fault):
                    bad['writes'] = 'writing %s %s' % (brief(v), res)
                    continue
                else:
                    d, cur = res
                ref, c0 = sheet()
                if [x for x in d.tree(cur) if x[0] != 'key'] != list(ref.tree(c0)):
                    bad['others'] = 'writing a value changes other keys of the object'
                if [x[0] for x in d.tree(cur)].count('key') != 1:
                    bad['key'] = 'a value is not written under its key'
                    continue
                par = {names[0]: 'key'}
                if len(names) > 1:
                    par[names[1]] = {} if sizes else 'before'
                got, lost = one(I, tr, P, d, cur, par, dict(zip(names, types)), sizes, throws=True)
                if not got:
                    raise Lost(lost[0] if lost else 'no execution')
                for tt, s in got:
                    if not ret(tt):
                        bad['throws'] = 'reading %s back fails' % brief(v)
                        continue
                    if len(names) == 1:
                        have = s.ev(tt.val)
                    else:
                        have = s.outv.get(names[1], {})
                        have = have if sizes else have.get(())
                        if tt.val is not None and f['rt'] == 'bool' and not s.ev(tt.val):
                            bad['result'] = 'reading %s succeeds and reports failure' % brief(v)
                    if not equal(have, v):
                        bad['value'] = 'written %s, read %s' % diff(v, have)
                    cnt += 1
            except Fault as x:
                bad['fault'] = 'reading %s back %s' % (brief(v), x)
            except Lost as x:
                und.append(str(x))
        put_all(ctx, 'values', f, bad, und, cnt, key)
        # a key that is not there
        if len(names) == 2:
            bad, und, cnt = {}, [], 0
            d, cur = sheet()
            try:
                got, lost = one(I, tr, P, d, cur, {names[0]: 'key', names[1]: {} if sizes else 'before'}, dict(zip(names, types)), sizes, throws=True)
                for tt, s in got:
                    if s.outv.get(names[1]):
                        bad['changes'] = 'reading a missing key changes the variable'
                    if ret(tt) and (f['rt'] != 'bool' or s.ev(tt.val)):
                        bad['succeeds'] = 'reading a missing key reports success'
                    cnt += 1
                if not got and lost:
                    und.append(lost[0])
            except Fault as x:
                if not sizes:
                    bad['fault'] = 'reading a missing key %s' % x
                else:
                    cnt += 1
            except Lost as x:
                und.append(str(x))
            if cnt or bad or und:
                put_all(ctx, 'missing', f, bad, und, cnt, key)
    for f in hs:
        names, types = base(f['params'])
        I, tr = done[id(f)]
        if I is None:
            ctx.und('missing', where(f), tr)
            continue
        bad, und, cnt = {}, [], 0
        for k, want in (('class', 1), ('key', 0), ('ke', 1), ('key2', 1), ('', 0)):
            d, cur = sheet()
            try:
                for tt, s in one(I, tr, P, d, cur, {names[0]: k}, {})[0]:
                    if bool(s.ev(tt.val)) != bool(want):
                        bad['result'] = 'hasKey("%s") is %s for an object %s that key' % (k, bool(s.ev(tt.val)), 'with' if want else 'without')
                    cnt += 1
            except Fault as x:
                bad['fault'] = 'hasKey %s' % x
            except Lost as x:
                und.append(str(x))
        put_all(ctx, 'missing', f, bad, und, cnt, 'hasKey')


def attempt(I, tr, P, d, cur, params, types, sizes):
    try:
        good, lost = one(I, tr, P, d, cur, params, types, sizes)
        if not good:
            return 'no execution of write'
        return good[0][1].doc, cur
    except Fault as x:
        return x
    except Lost as x:
        return str(x)


def brief(v):
    return 'a matrix' if isinstance(v, dict) else shown(v)


def equal(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return float(a[1]) == float(b[1])
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in b)
    return type(a) in (int, Fr, bool) and type(b) in (int, Fr, bool) and a == b or a == b


def diff(v, have):
    if isinstance(v, dict) and isinstance(have, dict):
        for k in sorted(v):
            if not equal(have.get(k), v[k]):
                return '%s at (%d, %d)' % ((shown(v[k]),) + k), shown(have.get(k))
    return shown(v) if not isinstance(v, dict) else 'a matrix', shown(have)


PROPS = {'S03': s03}
