"""Flow-sensitive abstract interpretation of the type-checked syntax trees.

Abstract values are canonical terms (value numbers); branches partition the
traces and contribute facts; loops are summarised by widening every location
their body can modify (induction variables and accumulators are recognised);
calls to functions whose bodies are known are analysed in context.  Nothing is
executed and no solver is involved.
"""
import re
from fractions import Fraction as Fr
from .terms import *
from .program import AnalysisError

SMART = ('boost::intrusive_ptr<', 'boost::shared_ptr<', 'boost::scoped_ptr<', 'std::auto_ptr<',
         'std::unique_ptr<', 'std::shared_ptr<', 'boost::scoped_array<', 'boost::shared_array<')
PURE = {'sqrt', 'exp', 'log', 'pow', 'fabs', 'abs', 'floor', 'ceil', 'round', 'rint', 'sin', 'cos', 'tan', 'atan',
        'atan2', 'acos', 'asin', 'max', 'min', 'isnan', 'isinf', 'isfinite', 'fmod', 'hypot', 'lround', 'trunc', 'isnormal'}
SIZEY = {'size', 'empty', 'num_elements', 'shape', 'rows', 'cols', 'length', 'capacity'}
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
        'unsigned char', 'long long', 'unsigned long long', 'bool', 'wchar_t'}
FLOATS = {'double', 'float', 'long double'}


def unq(t):
    t = t.strip()
    while True:
        n = t
        for q in ('const ', 'volatile '):
            if n.startswith(q):
                n = n[len(q):]
        if n.endswith('&&'):
            n = n[:-2].strip()
        if n.endswith('&'):
            n = n[:-1].strip()
        if n.endswith(' const'):
            n = n[:-6].strip()
        if n == t:
            return t
        t = n


def is_int(t):
    return unq(t) in INTS


def is_float(t):
    return unq(t) in FLOATS


def is_scalar(t):
    return is_int(t) or is_float(t)


LIMITS = {'bool': (0, 1)}
for _t, _b in (('char', 8), ('short', 16), ('int', 32), ('long', 64), ('long long', 64)):
    LIMITS[_t] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
    LIMITS['unsigned ' + _t] = (0, 2 ** _b - 1)
LIMITS['signed char'] = LIMITS['char']


def is_unsigned(t):
    t = unq(t)
    return t.startswith('unsigned') or t == 'bool'


def is_ptr(t):
    return unq(t).endswith('*') or unq(t).endswith('*const') or unq(t).endswith('* const')


def is_smart(t):
    t = unq(t)
    return any(t.startswith(s) for s in SMART)


# Eigen accessors that return views / expressions: no effect on the object
EIGEN_VIEW = {'row', 'col', 'block', 'segment', 'head', 'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'topLeftCorner',
              'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner', 'diagonal', 'linear', 'translation', 'affine', 'rotation', 'matrix', 'middleRows', 'middleCols', 'corner', 'vec', 'coeffs'}
EIGEN_PURE = {'transpose', 'inverse', 'array', 'cast', 'eval', 'adjoint', 'conjugate', 'real', 'sum', 'norm', 'squaredNorm', 'dot', 'cross', 'determinant', 'normalized', 'asDiagonal', 'trace', 'minCoeff', 'maxCoeff', 'mean', 'toRotationMatrix', 'derived', 'data'}


def template_args(t):
    """'X<A, B<C, D>>' -> ('X', ['A', 'B<C, D>'])"""
    i = t.find('<')
    if i < 0:
        return t, []
    args, depth, cur = [], 0, ''
    for ch in t[i + 1:t.rstrip().rfind('>')]:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return t[:i], args + [cur.strip()]


def eigen_dims(t):
    """(rows, columns) of an Eigen expression type with fixed size, (1, 1) for a number, None if unknown"""
    t = re.sub(r'^(const |volatile )+', '', t.strip()).rstrip('& ').strip()
    if not t.startswith('Eigen::'):
        return (1, 1) if re.match(r'(unsigned |long |signed )*(double|float|int|long|short|char)\b', t) else None
    n, a = template_args(t)
    n = n.split('::')[-1]
    try:
        if n in ('Matrix', 'Array'):
            return (int(a[1]), int(a[2]))
        if n == 'Block':
            return (int(a[1]), int(a[2]))
        if n == 'VectorBlock':
            d = eigen_dims(a[0])
            return (1, int(a[1])) if d and d[0] == 1 else (int(a[1]), 1)
        if n == 'Transpose':
            d = eigen_dims(a[0])
            return d and (d[1], d[0])
        if n == 'Product':
            x, y = eigen_dims(a[0]), eigen_dims(a[1])
            return x and y and (x[0], y[1])
        if n == 'CwiseNullaryOp':
            return eigen_dims(a[1])
        if n in ('CwiseUnaryOp', 'CwiseUnaryView'):
            return eigen_dims(a[1])
        if n == 'CwiseBinaryOp':
            return eigen_dims(a[1]) or eigen_dims(a[2])
        if n in ('CommaInitializer', 'Inverse', 'NoAlias', 'ArrayWrapper', 'MatrixWrapper', 'Map', 'Ref', 'MatrixBase', 'DenseBase'):
            return eigen_dims(a[0])
    except (ValueError, IndexError):
        pass
    return None


class LV:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Ev:
    __slots__ = ('kind', 'line', 'file', 'fn', 'stack', 'facts', 'd')

    def __init__(self, kind, line, file, fn, stack, facts, d):
        self.kind, self.line, self.file, self.fn, self.stack, self.facts, self.d = kind, line, file, fn, stack, facts, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def where(self):
        return '%s:%s' % (self.file.split('/repo/')[-1], self.line)

    def __repr__(self):
        return '%s@%s %s' % (self.kind, self.line, {k: (show(v) if isinstance(v, tuple) else v) for k, v in self.d.items() if k not in ('traces', 'alts')})


class EvL:
    __slots__ = ('prev', 'e', 'n')

    def __init__(self, prev, e):
        self.prev, self.e = prev, e
        self.n = (prev.n if prev else 0) + 1


def evlist(l, upto=None):
    out = []
    while l is not upto and l is not None:
        out.append(l.e)
        l = l.prev
    out.reverse()
    return out


def common(a, b):
    while a is not b:
        na, nb = (a.n if a else 0), (b.n if b else 0)
        if na >= nb:
            a = a.prev
        if nb >= na:
            b = b.prev
    return a


QUERY = {'deref', 'index', 'ccall', 'alt', 'enter', 'exit', 'uninit'}


def pure_events(evs):
    for e in evs:
        if e.kind in QUERY:
            if e.kind == 'alt' and not all(pure_events(a) for a in e.alts):
                return False
            continue
        if e.kind == 'loop':
            if e.get('pure'):
                continue
        return False
    return True


class State:
    __slots__ = ('mem', 'refs', 'facts', 'ev', 'n')

    def __init__(self, mem=None, refs=None, facts=(), ev=None, n=0):
        self.mem = mem if mem is not None else {}
        self.refs = refs if refs is not None else {}
        self.facts = facts
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), dict(self.refs), self.facts, self.ev)

    def with_fact(self, f):
        s = State(self.mem, self.refs, self.facts, self.ev)
        if f != TRUE and f not in s.facts:
            fs = f[1] if f[0] == 'and' else (f,)
            s.facts = s.facts + tuple(x for x in fs if x not in s.facts)
        return s


class Trace:
    """one partition of a function's behaviours"""

    def __init__(self, st, out, val):
        self.st, self.out, self.val = st, out, val
        self.events = evlist(st.ev)
        self.facts = st.facts

    def flat(self):
        return flatten(self.events)


def flatten(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for t in e.traces:
                for x in flatten(t[1]):
                    yield x
        elif e.kind == 'alt':
            for a in e.alts:
                for x in flatten(a):
                    yield x


class TooMany(AnalysisError):
    pass


NORM = ('norm',)
BREAK = ('break',)
CONT = ('cont',)


def parent(loc):
    return loc[1] if loc[0] in ('field', 'idx', 'mref') else None


def root(loc):
    while loc[0] in ('field', 'idx', 'mref'):
        loc = loc[2] if loc[0] == 'mref' else loc[1]
    return loc


def under(loc, anc):
    while True:
        if loc == anc:
            return True
        if loc[0] in ('field', 'idx'):
            loc = loc[1]
        elif loc[0] == 'mref':
            loc = loc[2]
        else:
            return False


class Interp:
    def __init__(self, prog, opaque=None, depth=6, max_traces=600, asserts='assume', this_class=None, inline=None,
                 throwing=None, ctor_defaults=True):
        self.P = prog
        self.opaque = opaque or (lambda q: False)
        self.inline = inline
        self.maxdepth = depth
        self.max_traces = max_traces
        self.asserts = asserts
        self.this_class = this_class
        self.nframe = 0
        self.nloop = 0
        self.nheap = 0
        self.ntmp = 0
        self.abrupt = []
        self.throwing = throwing or {}
        self.wlogs = []
        self.types = {}       # atom -> type
        self.stack = []       # call stack of fn dicts
        self.frames = []      # (frame id)
        self.parentframe = {}
        self.imprecise = []
        self.analysed = set()
        self.lambdas = {}
        self.loops = {}
        self.vtypes = {}
        self.steps = 0

    # ------------------------------------------------------------- helpers
    def nonneg(self, a):
        t = self.types.get(a)
        if t and is_unsigned(t):
            return True
        k = a[0]
        if k in ('it', 'itx', 'u', 'size'):
            return True
        if k == 'f' and a[1] in ('sqrt', 'fabs', 'abs', 'exp'):
            return True
        if k == 'call' and str(a[1]).split('::')[-1] in SIZEY:
            return True
        return False

    def F(self, facts, extra=()):
        return Facts(facts, self.nonneg, extra)

    def entails(self, st_or_facts, goal):
        facts = st_or_facts.facts if isinstance(st_or_facts, State) else st_or_facts
        return self.F(facts).entails(goal)

    def emit(self, st, kind, node, **d):
        f = self.stack[-1] if self.stack else None
        e = Ev(kind, node.get('l', 0) if node else 0, f['file'] if f else '', f['q'] if f else '',
               tuple(x['q'] for x in self.stack), st.facts, d)
        d['node'] = node
        st.ev = EvL(st.ev, e)
        return e

    # ------------------------------------------------------------- memory
    def deref(self, p):
        if p[0] == 'addr':
            return p[1]
        if p[0] == 'poly':
            # iterator / pointer arithmetic: base + offset
            base, off = None, ZERO
            for m, c in p[1]:
                if c == 1 and len(m) == 1 and m[0][1] == 1 and self.ptrlike(m[0][0]):
                    if base is not None:
                        return ('deref', p)
                    base = m[0][0]
                else:
                    off = add(off, frompoly({m: c}))
            if base is not None:
                b = self.deref(base)
                if base[0] == 'mrange':
                    return ('mnode', base[1], base[3], off)
                if base[0] == 'begin':
                    return ('idx', base[1], off)
                if b[0] == 'idx' and len(b) == 3 and base[0] == 'addr':
                    return ('idx', b[1], add(b[2], off))
                return ('idx', b, off)
        if p[0] == 'begin':
            return ('idx', p[1], ZERO)
        if p[0] == 'mit':
            return ('mnode', p[1], p[3])
        if p[0] == 'mrange':
            return ('mnode', p[1], p[3], ZERO)
        return ('deref', p)

    def mkfield(self, base, name):
        if base[0] == 'mnode':
            if name == 'first':
                return ('mkey', base[2])
            if name == 'second':
                return ('idx', base[1], base[2]) if len(base) == 3 else ('idx', base[1], ('nth', base[2], base[3]))
        return ('field', base, name)

    def ptrlike(self, a):
        if a[0] in ('begin', 'addr', 'heapptr', 'mrange'):
            return True
        t = self.types.get(a)
        if t and (is_ptr(t) or 'iterator' in t):
            return True
        return False

    def strip_content(self, v):
        while v[0] in ('upd', 'lvc', 'filled'):
            v = v[1]
        return v

    def project(self, v, acc):
        """value of sub-location acc=('field',name)|('idx',...) inside value v"""
        k = v[0]
        if k == 'upd':
            for a, x in v[2]:
                if a == acc:
                    return x
            return self.project(v[1], acc)
        if k == 'init':
            return ('init', (acc[0], v[1]) + acc[1:])
        if k == 'pair' and acc[0] == 'field':
            if acc[1] == 'first':
                return v[1]
            if acc[1] == 'second':
                return v[2]
        if k == 'ite':
            return ite(v[1], self.project(v[2], acc), self.project(v[3], acc))
        if k == 'filled' and acc[0] == 'idx':
            return v[2]
        if k == 'list' and acc[0] == 'idx' and len(acc) == 2 and acc[1][0] == 'n' and 0 <= acc[1][1] < len(v[1]):
            return v[1][int(acc[1][1])]
        if k == 'commainit' and acc[0] == 'idx' and len(acc) == 2 and acc[1][0] == 'n' and 0 <= acc[1][1] < len(v[2]):
            return v[2][int(acc[1][1])]
        return ('sub', v) + acc

    def load(self, st, loc, whole=True):
        if loc[0] == 'mkey':
            return loc[1]
        if loc in st.mem:
            v = st.mem[loc]
        else:
            p = parent(loc)
            path = []
            l = loc
            v = None
            while True:
                if l in st.mem:
                    v = st.mem[l]
                    break
                if l[0] in ('field', 'idx'):
                    path.append((l[0],) + l[2:])
                    l = l[1]
                else:
                    break
            if v is None:
                if l[0] == 'glob':
                    g = self.global_const(l[1])
                    if g is not None and not path:
                        return g
                v = ('init', loc)
                path = []
            for acc in reversed(path):
                v = self.project(v, acc)
        if whole:
            subs = []
            for k in st.mem:
                if k[0] in ('field', 'idx') and k[1] == loc:
                    subs.append(((k[0],) + k[2:], k))
                elif k[0] in ('field', 'idx') and k != loc and under(k, loc):
                    # nested: attribute to the direct child
                    c = k
                    while c[1] != loc:
                        c = c[1]
                        if c[0] not in ('field', 'idx'):
                            break
                    else:
                        subs.append(((c[0],) + c[2:], c))
            if subs:
                seen, items = set(), []
                for acc, k in subs:
                    if acc in seen:
                        continue
                    seen.add(acc)
                    items.append((acc, self.load(st, k)))
                items.sort(key=lambda x: order(x[0]))
                base = v[1] if v[0] == 'upd' else v
                if v[0] == 'upd':
                    items = items + [x for x in v[2] if x[0] not in seen]
                    items.sort(key=lambda x: order(x[0]))
                v = ('upd', base, tuple(items))
        return v

    def global_const(self, q):
        g = self.P.globals.get(q)
        if not g or 'init' not in g or 'const' not in g['t']:
            return None
        i = g['init']
        lit = self.literal(i)
        return lit

    def literal(self, i):
        if i is None:
            return None
        k = i['k']
        if k == 'str':
            return ('s', i['v'])
        if k == 'construct' and i['args'] and 'basic_string' in i.get('rec', ''):
            return self.literal(i['args'][0])
        if k in ('decay', 'icast', 'upcast'):
            return self.literal(i['e'])
        if k == 'int':
            return N(int(i['v']))
        if k == 'float':
            return N(Fr(float(i['v'])).limit_denominator(10**12))
        return None

    def islocal(self, loc):
        r = root(loc)
        return r[0] in ('var', 'tmp')

    def store(self, st, loc, val, node=None, quiet=False):
        for k in [k for k in st.mem if k != loc and k[0] in ('field', 'idx', 'mref') and under(k, loc)]:
            del st.mem[k]
        old = self.load(st, loc, whole=False) if not quiet else None
        st.mem[loc] = val
        for w in self.wlogs:
            w.add(loc)
        if not quiet and not self.islocal(loc):
            self.emit(st, 'write', node, loc=loc, val=val, old=old)

    # ------------------------------------------------------------- vars
    def varloc(self, st, n):
        if n.get('static'):
            return ('glob', 'static:%s:%s' % (n['id'], n['name']))
        f = self.frames[-1]
        while f is not None:
            loc = ('var', n['id'], f, n['name'])
            if loc in st.refs:
                return st.refs[loc]
            if loc in st.mem:
                return loc
            p = self.parentframe.get(f)
            if p is None:
                break
            f = p
        return ('var', n['id'], self.frames[-1], n['name'])

    def typed(self, t, ty):
        if t[0] not in ('n', 'poly', 'cmp', 'and', 'or', 'not') and t not in self.types:
            self.types[t] = ty
        return t

    # ------------------------------------------------------------- values
    def rv(self, st, r, ty=None):
        if isinstance(r, LV):
            v = self.load(st, r.loc)
            if v[0] == 'uninit':
                pass
            if ty:
                self.typed(v, ty)
            return v
        return r

    def eval(self, n, st):
        """rvalue evaluation"""
        out = []
        for s, r in self.ev(n, st):
            v = self.rv(s, r, n.get('t'))
            out.append((s, v))
        return out

    def evs(self, nodes, st, lv=()):
        """evaluate a sequence; lv: indices to keep as locations"""
        res = [(st, [])]
        for i, n in enumerate(nodes):
            nxt = []
            for s, vals in res:
                for s2, r in self.ev(n, s):
                    nxt.append((s2, vals + [r]))
            res = nxt
        return res

    def materialize(self, st, r):
        """location of a result (temporaries get one)"""
        if isinstance(r, LV):
            return r.loc
        if r[0] == 'init' and False:
            return r[1]
        self.ntmp += 1
        loc = ('tmp', self.ntmp)
        st.mem[loc] = r
        return loc

    def boolean(self, v):
        k = v[0]
        if k == 'n':
            return TRUE if v[1] != 0 else FALSE
        if k in ('cmp', 'and', 'or', 'not', 'has'):
            return v
        if k == 'ite':
            a, b = self.boolean(v[2]), self.boolean(v[3])
            return mk_or([mk_and([v[1], a]), mk_and([negate(v[1]), b])])
        return v

    def truth(self, v, ty):
        """bool term for v used as a condition"""
        if v[0] in ('cmp', 'and', 'or', 'not', 'has'):
            return v
        if v[0] == 'n':
            return TRUE if v[1] != 0 else FALSE
        if v[0] == 'addr':
            return TRUE
        if v[0] == 's':
            return TRUE
        if ty and unq(ty) == 'bool':
            return self.boolean(v)
        if v[0] == 'ite':
            return mk_or([mk_and([v[1], self.truth(v[2], ty)]), mk_and([negate(v[1]), self.truth(v[3], ty)])])
        return cmp('!=', v, ZERO, True)

    def step(self):
        self.steps += 1
        if self.steps > 400000:
            raise TooMany('analysis budget exceeded in ' + self.stack[0]['q'])

    def ev(self, n, st):
        """-> list of (state, LV | term)"""
        self.step()
        if n is None:
            return [(st, ('none',))]
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            return self.x_other(n, st)
        return m(n, st)

    # literals
    def x_int(self, n, st): return [(st, N(int(n['v'])))]
    def x_bool(self, n, st): return [(st, TRUE if n['v'] else FALSE)]

    def x_float(self, n, st):
        try:
            return [(st, N(Fr(n['v'])))]
        except ValueError:
            return [(st, N(Fr(float(n['v']))))]

    def x_str(self, n, st): return [(st, ('s', n['v']))]
    def x_null(self, n, st): return [(st, ZERO)]
    def x_this(self, n, st): return [(st, self.this[-1])]
    def x_enum(self, n, st): return [(st, N(n['val']))]
    def x_fn(self, n, st): return [(st, ('fn', n['q'], n['sig']))]
    def x_zeroinit(self, n, st): return [(st, ZERO if (is_scalar(n['t']) or is_ptr(n['t'])) else ('f', 'zero', (('s', n['t']),)))]
    def x_sizeof(self, n, st): return [(st, N(int(n['v'])) if 'v' in n else ('sizeof', n['at']))]
    def x_typeid(self, n, st): return [(st, ('typeid', n['at']))]

    def x_var(self, n, st):
        return [(st, LV(self.varloc(st, n)))]

    def x_global(self, n, st):
        if 'val' in n:
            return [(st, N(n['val']))]
        return [(st, LV(('glob', n['q'])))]

    def x_decl(self, n, st): return [(st, ('declref', n['q']))]
    def x_fieldref(self, n, st): return [(st, ('fieldref', n['q']))]

    def x_member(self, n, st):
        out = []
        for s, r in self.ev(n['e'], st):
            if n['arrow']:
                p = self.rv(s, r)
                if p != ('this',):
                    s = s.copy() if False else s
                    s2 = State(s.mem, s.refs, s.facts, s.ev)
                    self.emit(s2, 'deref', n, ptr=p)
                    s = s2
                base = self.deref(p)
            else:
                if isinstance(r, LV):
                    base = r.loc
                else:
                    v = self.project(r, ('field', n['name']))
                    out.append((s, self.typed(v, n['t'])))
                    continue
            loc = self.mkfield(base, n['name'])
            if n.get('ref'):
                t = self.load(s, loc)
                out.append((s, LV(self.deref(t))) if t[0] == 'addr' else (s, LV(('deref', t))))
            else:
                out.append((s, LV(loc)))
        return out

    def x_upcast(self, n, st): return self.ev(n['e'], st)

    def x_decay(self, n, st):
        out = []
        for s, r in self.ev(n['e'], st):
            if isinstance(r, LV):
                out.append((s, ('addr', r.loc)))
            else:
                out.append((s, r))
        return out

    def conv(self, st, v, ck, ft, tt, node):
        if ck == 'FloatingToIntegral':
            if v[0] == 'n':
                return N(int(v[1]))
            if v[0] == 'trunc' or (v in self.types and is_int(self.types[v])):
                return v
            t = ('trunc', v)
            self.types.setdefault(t, tt)
            return t
        if ck == 'IntegralCast':
            if is_unsigned(tt) and not is_unsigned(ft) and v[0] not in ('cmp', 'and', 'or', 'not', 'has'):
                if v[0] == 'n' and v[1] >= 0:
                    return v
                if self.nonneg(v) or self.entails(st, cmp('<=', ZERO, v, True)):
                    return v
                if v[0] in ('poly',) or v[0] == 'n':
                    t = ('u', v)
                    self.types.setdefault(t, tt)
                    return t
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.truth(v, ft)
        if ck == 'NullToPointer':
            return ZERO
        return v

    def x_icast(self, n, st):
        out = []
        for s, v in self.eval(n['e'], st):
            out.append((s, self.conv(s, v, n['ck'], n['ft'], n['t'], n)))
        return out

    def x_cast(self, n, st):
        out = []
        for s, r in self.ev(n['e'], st):
            if n['ck'] == 'ToVoid':
                out.append((s, ('void',)))
                continue
            if n['style'] == 'dynamic':
                v = self.rv(s, r)
                if n.get('toref'):
                    out.append((s, r))
                    continue
                ft, tt = unq(n['ft'].rstrip('*')), unq(n['t'].rstrip('*'))
                if v == ZERO or ft == tt or tt in self.P.bases(ft):
                    out.append((s, v))
                else:
                    t = ('dyncast', tt, v)
                    self.types.setdefault(t, n['t'])
                    out.append((s, t))
                continue
            if n['ck'] in ('IntegralCast', 'FloatingToIntegral', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                v = self.rv(s, r)
                out.append((s, self.conv(s, v, n['ck'], n['ft'], n['t'], n)))
                continue
            out.append((s, r))
        return out

    def x_un(self, n, st):
        op = n['op']
        out = []
        if op in ('++', '--'):
            for s, r in self.ev(n['e'], st):
                old = self.rv(s, r, n['t'])
                new = add(old, ONE if op == '++' else N(-1))
                s = s.copy()
                self.store(s, r.loc, new, n)
                out.append((s, old if n.get('post') else LV(r.loc)))
            return out
        if op == '!':
            T, Fs = self.cond(n['e'], st)
            # value context: fold back when pure
            res = self.join_bool(T, Fs, st)
            if res is not None:
                s, b = res
                return [(s, negate(b))]
            return [(s, FALSE) for s in T] + [(s, TRUE) for s in Fs]
        for s, r in self.ev(n['e'], st):
            if op == '*':
                p = self.rv(s, r)
                s2 = State(s.mem, s.refs, s.facts, s.ev)
                if p != ('this',):
                    self.emit(s2, 'deref', n, ptr=p)
                out.append((s2, LV(self.deref(p))))
            elif op == '&':
                if isinstance(r, LV):
                    l = r.loc
                    out.append((s, l[1] if l[0] == 'deref' else ('addr', l)))
                elif r[0] == 'fn':
                    out.append((s, r))
                else:
                    out.append((s, ('addr', self.materialize(s, r))))
            elif op == '-':
                out.append((s, neg(self.rv(s, r))))
            elif op == '+':
                out.append((s, self.rv(s, r)))
            elif op == '~':
                out.append((s, ('bop', '~', self.rv(s, r))))
            else:
                out.append((s, self.rv(s, r)))
        return out

    def join_bool(self, T, Fs, st):
        """if evaluating a condition had no effects, return one state and the boolean term"""
        alls = T + Fs
        if not alls:
            return None
        mem0 = st.mem
        for s in alls:
            if s.mem is not mem0 and s.mem != mem0:
                return None
            if not pure_events(evlist(s.ev, common(s.ev, st.ev))):
                return None
        b = mk_or([mk_and(self.newfacts(s, st)) for s in T]) if T else FALSE
        s = State(st.mem, st.refs, st.facts, st.ev)
        s.ev = self.join_ev(alls, st.ev)
        return s, b

    def newfacts(self, s, base):
        b = set(base.facts)
        return [f for f in s.facts if f not in b]

    def join_ev(self, states, base):
        sufs = []
        for s in states:
            l = evlist(s.ev, common(s.ev, base))
            if l:
                sufs.append(l)
        # identical suffixes collapse
        uniq = []
        for l in sufs:
            if not any(len(l) == len(u) and all(a is b for a, b in zip(l, u)) for u in uniq):
                uniq.append(l)
        if not uniq:
            return base
        if len(uniq) == 1:
            ev = base
            for e in uniq[0]:
                ev = EvL(ev, e)
            return ev
        # drop suffixes that are prefixes of others
        keep = [l for l in uniq if not any(u is not l and len(u) >= len(l) and all(a is b for a, b in zip(l, u)) for u in uniq)]
        if len(keep) == 1:
            ev = base
            for e in keep[0]:
                ev = EvL(ev, e)
            return ev
        f = self.stack[-1] if self.stack else {'file': '', 'q': ''}
        e = Ev('alt', keep[0][0].line, f['file'], f['q'], tuple(x['q'] for x in self.stack), (), {'alts': keep})
        return EvL(base, e)

    def mapend(self, a, b):
        """a == b where one is the result of a lookup and the other the end of the same container"""
        for x, y in ((a, b), (b, a)):
            if x[0] == 'mit' and y[0] == 'poly' and len(y[1]) == 2:
                bs = [m[0][0] for m, c in y[1] if c == 1 and len(m) == 1 and m[0][0][0] == 'begin']
                if len(bs) == 1 and bs[0][1] == x[1] and contains(y, lambda z: z[0] == 'call' and z[1] == 'size'):
                    return negate(has(x[2], x[3]))
        return None

    def cmpop(self, op, a, b, ta, tb):
        if op in ('==', '!='):
            r = self.mapend(a, b)
            if r is not None:
                return r if op == '==' else negate(r)
        integer = not (is_float(ta) or is_float(tb))
        # comparison against bool
        for x, y, ty in ((a, b, ta), (b, a, tb)):
            if op in ('==', '!=') and y[0] == 'n' and (x[0] in ('cmp', 'and', 'or', 'not', 'has') or unq(ty) == 'bool'):
                x = self.boolean(x)
                pos = (y[1] != 0) == (op == '==')
                return x if pos else negate(x)
        if op in ('==', '!=') and (a[0] in ('cmp', 'and', 'or', 'not', 'has') or b[0] in ('cmp', 'and', 'or', 'not')):
            x, y = self.boolean(a), self.boolean(b)
            t = mk_or([mk_and([x, y]), mk_and([negate(x), negate(y)])])
            return t if op == '==' else negate(t)
        if a[0] == 's' and b[0] == 's' and op in ('==', '!='):
            return TRUE if (a == b) == (op == '==') else FALSE
        if op in ('==', '!=') and a[0] == 'addr' and b == ZERO or b[0] == 'addr' and a == ZERO:
            return FALSE if op == '==' else TRUE
        if op in ('==', '!=') and a[0] == 'addr' and b[0] == 'addr' and a != b and root(a[1])[0] in ('heap', 'var', 'tmp') and root(b[1])[0] in ('heap', 'var', 'tmp') and root(a[1]) != root(b[1]):
            return FALSE if op == '==' else TRUE
        if not integer and a == b and a[0] != 'n' and op in ('==', '!='):
            t = ('f', 'isnan', (a,))
            return t if op == '!=' else ('not', t)
        return cmp(op, a, b, integer)

    def arith(self, op, a, b, t, ta='', tb='', st=None):
        if op == '+':
            if 'basic_string' in t:
                pa = a[1] if a[0] == 'cat' else (a,)
                pb = b[1] if b[0] == 'cat' else (b,)
                parts = []
                for x in pa + pb:
                    if parts and parts[-1][0] == 's' and x[0] == 's':
                        parts[-1] = ('s', parts[-1][1] + x[1])
                    else:
                        parts.append(x)
                return parts[0] if len(parts) == 1 else ('cat', tuple(parts))
            return add(a, b)
        if op == '/' and 'filesystem::path' in t:
            return self.arith('+', self.arith('+', a, ('s', '/'), 'basic_string'), b, 'basic_string')
        if op == '-':
            return sub(a, b)
        if op == '*':
            if is_scalar(ta) or is_scalar(tb) or not ta:
                return mul(a, b)
            # matrix-like: non commutative chain, scalars factored out
            def split(x):
                if x[0] == 'poly' and len(x[1]) == 1:
                    (m, c), = x[1]
                    mats = [y for y, e in m if y[0] == 'mm' or not is_scalar(self.types.get(y, 'obj'))]
                    if len(mats) == 1 and dict(m)[mats[0]] == 1:
                        rest = frompoly({tuple((y, e) for y, e in m if y != mats[0]): c})
                        return rest, mats[0]
                elif x[0] == 'poly':
                    # scalar factor common to all terms
                    com = None
                    for m, c in x[1]:
                        d = {y: e for y, e in m if y[0] != 'mm' and is_scalar(self.types.get(y, 'obj'))}
                        com = d if com is None else {y: e for y, e in com.items() if d.get(y) == e}
                    if com:
                        k = frompoly({tuple(sorted(com.items(), key=lambda ae: order(ae[0]))): Fr(1)})
                        return k, mul(x, inv(k))
                return ONE, x
            ka, xa = split(a)
            kb, xb = split(b)
            ch = (xa[1] if xa[0] == 'mm' else (xa,)) + (xb[1] if xb[0] == 'mm' else (xb,))
            return mul(mul(ka, kb), ('mm', ch))
        if op == '/':
            if is_int(t):
                if a[0] == 'n' and b[0] == 'n' and b[1] != 0:
                    return N(int(a[1] / b[1]))
                if b == ONE:
                    return a
                r = ('idiv', a, b)
                if is_unsigned(t):
                    self.types.setdefault(r, t)
                return r
            return div(a, b)
        if op == '%':
            r = ('mod', a, b)
            if is_unsigned(t):
                self.types.setdefault(r, t)
            return r
        if op == '<<' and a[0] == 'n' and b[0] == 'n':
            return N(int(a[1]) << int(b[1]))
        if op in ('|', '&', '^'):
            if unq(ta or t) == 'bool' and unq(tb or t) == 'bool':
                x, y = self.boolean(a), self.boolean(b)
                if op == '|':
                    return mk_or([x, y])
                if op == '&':
                    return mk_and([x, y])
            x, y = sorted((a, b), key=order)
            return ('bop', op, x, y)
        return ('bop', op, a, b)

    def x_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            T, Fs = self.cond(n, st)
            res = self.join_bool(T, Fs, st)
            if res is not None:
                return [res]
            return [(s, TRUE) for s in T] + [(s, FALSE) for s in Fs]
        if op == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out.extend(self.ev(n['b'], s))
            return out
        out = []
        for s, a in self.eval(n['a'], st):
            for s2, b in self.eval(n['b'], s):
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    out.append((s2, self.cmpop(op, a, b, self.nty(n['a']), self.nty(n['b']))))
                else:
                    out.append((s2, self.arith(op, a, b, n['t'], self.nty(n['a']), self.nty(n['b']), s2)))
        return out

    def nty(self, n):
        if n['k'] in ('icast',) and n['ck'] == 'IntegralCast' and unq(n['ft']) == 'bool':
            return 'bool'
        return n.get('t', '')

    def x_assign(self, n, st):
        out = []
        for s, v in self.eval(n['b'], st):
            for s2, r in self.ev(n['a'], s):
                s2 = s2.copy()
                loc = r.loc if isinstance(r, LV) else self.materialize(s2, r)
                self.store(s2, loc, v, n)
                out.append((s2, LV(loc)))
        return out

    def x_opassign(self, n, st):
        out = []
        for s, b in self.eval(n['b'], st):
            for s2, r in self.ev(n['a'], s):
                a = self.rv(s2, r, n['t'])
                v = self.arith(n['op'], a, b, n.get('ct', n['t']), n['t'], self.nty(n['b']), s2)
                if is_int(n['t']) and is_float(n.get('ct', '')):
                    v = self.conv(s2, v, 'FloatingToIntegral', n['ct'], n['t'], n)
                s2 = s2.copy()
                self.store(s2, r.loc, v, n)
                out.append((s2, LV(r.loc)))
        return out

    def x_cond(self, n, st):
        T, Fs = self.cond(n['c'], st)
        res = []
        outT, outF = [], []
        for s in T:
            outT.extend(self.ev(n['a'], s))
        for s in Fs:
            outF.extend(self.ev(n['b'], s))
        if len(outT) == 1 and len(outF) == 1:
            (s1, r1), (s2, r2) = outT[0], outF[0]
            if not (isinstance(r1, LV) and isinstance(r2, LV)) or n.get('t') and (is_scalar(n['t']) or is_ptr(n['t'])):
                m = self.merge(s1, s2, st)
                if m is not None:
                    c = mk_and(self.newfacts(T[0], st)) if len(T) == 1 else TRUE
                    v1, v2 = self.rv(s1, r1), self.rv(s2, r2)
                    return [(m, ite(c, v1, v2))]
        return outT + outF

    def merge(self, s1, s2, base):
        """join two states differing in facts, pure events and local values only"""
        c1 = mk_and(self.newfacts(s1, base))
        e1, e2 = evlist(s1.ev, common(s1.ev, base.ev)), evlist(s2.ev, common(s2.ev, base.ev))
        if not pure_events(e1) or not pure_events(e2):
            return None
        if s1.refs != s2.refs:
            # references bound in a branch are dead afterwards
            pass
        mem = {}
        for k in set(s1.mem) | set(s2.mem):
            a = s1.mem.get(k)
            b = s2.mem.get(k)
            if a is None:
                a = self.load(s1, k, False)
            if b is None:
                b = self.load(s2, k, False)
            mem[k] = a if a == b else ite(c1, a, b)
        s = State(mem, {**s2.refs, **s1.refs}, (), None)
        s.facts = tuple(f for f in s1.facts if f in set(s2.facts))
        n1 = [f for f in s1.facts if f not in set(s.facts)]
        n2 = [f for f in s2.facts if f not in set(s.facts)]
        o = mk_or([mk_and(n1), mk_and(n2)])
        if o != TRUE and not self.tautology(n1, n2):
            s.facts = s.facts + (o,)
        s.ev = self.join_ev([s1, s2], base.ev)
        return s

    def tautology(self, n1, n2):
        return len(n1) >= 1 and len(n2) >= 1 and any(negate(a) in n2 for a in n1) and (len(n1) == 1 or len(n2) == 1) or (not n1 or not n2)

    # ------------------------------------------------------------- conditions
    def cond(self, n, st):
        """-> (true states, false states)"""
        while n['k'] == 'icast' and n['ck'] in ('IntegralToBoolean', 'IntegralCast') and n['e']['k'] in ('bin', 'un', 'icast') and unq(n['ft']) == 'bool':
            n = n['e']
        if n['k'] == 'un' and n['op'] == '!':
            T, Fs = self.cond(n['e'], st)
            return Fs, T
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            T1, F1 = self.cond(n['a'], st)
            if n['op'] == '&&':
                T, Fs = [], list(F1)
                for s in T1:
                    t, f = self.cond(n['b'], s)
                    T += t
                    Fs += f
                return T, self.collapse(Fs, st)
            T, Fs = list(T1), []
            for s in F1:
                t, f = self.cond(n['b'], s)
                T += t
                Fs += f
            return self.collapse(T, st), Fs
        if n['k'] == 'cast' and n['ck'] in ('NoOp',) or (n['k'] == 'cast' and unq(n['t']) == 'bool' and unq(n['ft']) == 'bool'):
            return self.cond(n['e'], st)
        T, Fs = [], []
        for s, v in self.eval(n, st):
            b = self.truth(v, n.get('t', 'bool'))
            t, f = self.assume(s, b)
            if t is not None:
                T.append(t)
            if f is not None:
                Fs.append(f)
        return T, Fs

    def assume(self, s, b):
        if b == TRUE:
            return s, None
        if b == FALSE:
            return None, s
        nb = negate(b)
        if b in s.facts:
            return s, None
        if nb in s.facts:
            return None, s
        F = self.F(s.facts)
        if F.infeasible([b]):
            return None, s.with_fact(nb)
        if F.infeasible([nb]):
            return s.with_fact(b), None
        return s.with_fact(b), s.with_fact(nb)

    def collapse(self, states, base):
        """join states which differ only by facts and pure events"""
        if len(states) < 2:
            return states
        for s in states:
            if s.mem != base.mem or not pure_events(evlist(s.ev, common(s.ev, base.ev))):
                return states
        fs = [mk_and(self.newfacts(s, base)) for s in states]
        s = State(base.mem, base.refs, base.facts, base.ev)
        s = s.with_fact(mk_or(fs))
        s.ev = self.join_ev(states, base.ev)
        return [s]

    # ------------------------------------------------------------- objects
    def x_construct(self, n, st):
        rec = n.get('rec', '')
        args = n['args']
        ut = unq(n['t'])
        if n.get('copy') and len(args) >= 1:
            c = n['callee']
            fn = self.lookup(c)
            if fn is None or fn.get('implicit'):
                return [(s, self.rv(s, r)) for s, r in self.ev(args[0], st)]
        if is_smart(ut):
            if not args:
                return [(st, ZERO)]
            return self.eval(args[0], st)
        if 'basic_string<' in ut and rec.startswith('std::'):
            if not args:
                return [(st, ('s', ''))]
            if len([a for a in args if not a.get('defarg')]) == 1:
                return self.eval(args[0], st)
        if rec == 'boost::filesystem::path' and len([a for a in args if not a.get('defarg')]) == 1:
            return self.eval(args[0], st)
        if ut.startswith('std::pair<') and len(args) == 2:
            return [(s, ('pair', self.rv(s, vs[0]), self.rv(s, vs[1]))) for s, vs in self.evs(args, st)]
        if ut.startswith('std::pair<') and len(args) == 1:
            return self.eval(args[0], st)
        if 'iterator' in ut and len([a for a in args if not a.get('defarg')]) == 1 and not self.lookup(n['callee']):
            return self.eval(args[0], st)
        out = []
        for s, vs in self.evs(args, st):
            s = s.copy()
            self.ntmp += 1
            loc = ('tmp', self.ntmp)
            for s2, _ in self.construct_at(n, s, loc, vs):
                out.append((s2, LV(loc)))
        return out

    def lookup(self, c):
        return self.P.funcs.get((c['q'], c['sig']))

    def caninline(self, fn):
        if fn is None:
            return False
        if len(self.stack) >= self.maxdepth:
            return False
        if any(f is fn for f in self.stack):
            return False
        if self.opaque(fn['q']):
            return False
        if self.inline is not None and not self.inline(fn['q']):
            return False
        return True

    def construct_at(self, n, st, loc, vs):
        """run a constructor on loc -> list of (state, None)"""
        c = n['callee']
        fn = self.lookup(c)
        if fn is not None and self.caninline(fn):
            res = self.call_fn(fn, st, ('addr', loc), vs, n)
            return [(s, None) for s, _ in res]
        vals = tuple(self.rv(st, v) for v in vs)
        if c.get('implicit') and fn is None and not vals:
            st.mem.setdefault(loc, ('f', 'zero', (('s', n['t']),)) if not is_scalar(n['t']) else ('uninit', loc))
            return [(st, None)]
        if len(vals) == 1 and not (fn) and self.sametype(n['args'][0], n) or n.get('rec') == 'boost::filesystem::path' and vals:
            st.mem[loc] = vals[0]
        else:
            st.mem[loc] = ('obj', n.get('rec', n['t']), vals)
        for w in self.wlogs:
            w.add(loc)
        self.emit(st, 'construct', n, loc=loc, rec=n.get('rec', ''), args=vals, q=c['q'])
        return [(st, None)]

    def sametype(self, a, n):
        """Eigen/boost style converting constructors: value preserving"""
        t = unq(n['t'])
        ta = unq(a.get('t', ''))
        return t == ta or (t.startswith('Eigen::') and ta.startswith('Eigen::')) or (t.startswith('boost::multi_array') and ta.startswith('boost::multi_array'))

    def x_new(self, n, st):
        out = []
        pre = [(st, None)]
        if n.get('array') and n.get('size'):
            pre = self.eval(n['size'], st)
        for s, size in pre:
            s = s.copy()
            self.nheap += 1
            loc = ('heap', self.nheap, n['at'], self.nloop_ctx())
            p = ('addr', loc)
            self.types.setdefault(p, n['t'])
            if n.get('placement'):
                for s2, vs in self.evs(n['placement'], s):
                    v = self.rv(s2, vs[0])
                    loc = self.deref(v)
                    p = v
                    s = s2.copy()
                    break
            self.emit(s, 'new', n, ptr=p, array=bool(n.get('array')), size=size, at=n['at'], placement=bool(n.get('placement')))
            i = n.get('init')
            if i and i['k'] == 'construct' and not n.get('array'):
                for s2, vs in self.evs(i['args'], s):
                    s2 = s2.copy()
                    fn = self.lookup(i['callee'])
                    if i.get('copy') and (fn is None or fn.get('implicit')):
                        self.store(s2, loc, self.rv(s2, vs[0]), n, quiet=True)
                        out.append((s2, p))
                        continue
                    for s3, _ in self.construct_at(i, s2, loc, vs):
                        out.append((s3, p))
            elif i and not n.get('array'):
                for s2, v in self.eval(i, s):
                    s2 = s2.copy()
                    self.store(s2, loc, v, n, quiet=True)
                    out.append((s2, p))
            else:
                out.append((s, p))
        return out

    def nloop_ctx(self):
        return 0

    def x_delete(self, n, st):
        out = []
        for s, v in self.eval(n['e'], st):
            s = State(s.mem, s.refs, s.facts, s.ev)
            self.emit(s, 'delete', n, ptr=v, array=n['array'])
            out.append((s, ('void',)))
        return out

    def x_throw(self, n, st):
        res = self.evs([n['e']], st) if n.get('e') else [(st, [('none',)])]
        for s, v in res:
            s = State(s.mem, s.refs, s.facts, s.ev)
            self.emit(s, 'throw', n, type=n.get('tt', ''))
            self.abrupt.append((s, ('throw', n.get('tt', ''))))
        return []

    def x_index(self, n, st):
        out = []
        for s, a in self.eval(n['a'], st):
            for s2, b in self.eval(n['b'], s):
                base = self.deref(a)
                s3 = State(s2.mem, s2.refs, s2.facts, s2.ev)
                if base[0] == 'idx' and len(base) == 3 and a[0] != 'addr':
                    loc = ('idx', base[1], add(base[2], b))
                    self.emit(s3, 'index', n, base=base[1], idx=add(base[2], b), raw=True)
                else:
                    loc = ('idx', base, b)
                    self.emit(s3, 'index', n, base=base, idx=b, raw=True)
                out.append((s3, LV(loc)))
        return out

    def x_initlist(self, n, st):
        if len(n['args']) == 1 and (is_scalar(n['t']) or is_ptr(n['t'])):
            return self.ev(n['args'][0], st)
        return [(s, ('list', tuple(self.rv(s, v) for v in vs))) for s, vs in self.evs(n['args'], st)]

    def x_arraycopy(self, n, st):
        return self.eval(n['e'], st)

    def x_lambda(self, n, st):
        v = ('lambda', n['callee']['q'], n['callee']['sig'], self.frames[-1])
        self.lambdas[v] = (self.frames[-1], self.this[-1])
        return [(st, v)]

    def x_method(self, n, st):
        return [(s, ('bound', n['callee']['q'], self.rv(s, r))) for s, r in self.ev(n['e'], st)]

    def x_other(self, n, st):
        if n.get('args'):
            return [(s, ('f', n.get('cls', n['k']), tuple(self.rv(s, v) for v in vs))) for s, vs in self.evs(n['args'], st)]
        return [(st, ('f', n.get('cls', n['k']), ()))]

    # ------------------------------------------------------------- calls
    def x_call(self, n, st):
        c = n.get('callee')
        if c is None:
            out = []
            for s, f in self.eval(n['fn'], st):
                if f[0] == 'lambda':
                    out += self.call_lambda(f, n, s, n['args'])
                    continue
                if f[0] == 'fn':
                    fn = self.P.funcs.get((f[1], f[2]))
                    for s2, vs in self.evs(n['args'], s):
                        out += self.call(fn, {'q': f[1], 'sig': f[2], 'n': f[1].split('::')[-1], 'pt': [], 'rt': n['t']}, s2, None, vs, n)
                    continue
                for s2, vs in self.evs(n['args'], s):
                    s2 = s2.copy()
                    vals = tuple(self.rv(s2, v) for v in vs)
                    t = ('call', 'indirect', (f,) + vals)
                    self.emit(s2, 'call', n, q='indirect', n='indirect', this=None, args=vals, res=t, fnval=f, argl=tuple(v.loc if isinstance(v, LV) else None for v in vs))
                    out.append((s2, self.typed(t, n['t'])))
            return out
        out = []
        for s, vs in self.evs(n['args'], st):
            out += self.call(self.lookup(c), c, s, None, vs, n)
        return out

    def x_mcall(self, n, st):
        c = n.get('callee')
        if c is None:
            return self.x_other(n, st)
        out = []
        for s, r in self.ev(n['obj'], st):
            objptr = n.get('objptr')
            if objptr:
                p = self.rv(s, r)
                if p != ('this',):
                    s = State(s.mem, s.refs, s.facts, s.ev)
                    self.emit(s, 'deref', n, ptr=p, call=c['q'])
                loc = self.deref(p)
            else:
                if not isinstance(r, LV) and r[0] == 'init' :
                    loc = self.materialize(s.copy() if False else s, r)
                else:
                    if not isinstance(r, LV):
                        s = s.copy()
                    loc = self.materialize(s, r)
            for s2, vs in self.evs(n['args'], s):
                out += self.mcall(n, c, s2, loc, vs)
        return out

    def resolve(self, c, loc, n):
        """function body for a member call, honouring virtual dispatch"""
        if c.get('virt') and not n.get('nonvirt'):
            if loc == ('deref', ('this',)) and self.this_class:
                name = c['q'].split('::')[-1]
                for k in [self.this_class] + self.P.bases(self.this_class):
                    for f in self.P.find(k + '::' + name, c['sig']):
                        return f
            # dynamic type known?
            r = loc
            cls = r[2] if r[0] == 'heap' else self.vtypes.get(r) if r[0] == 'var' else None
            if cls in self.P.records:
                name = c['q'].split('::')[-1]
                for k in [cls] + self.P.bases(cls):
                    for f in self.P.find(k + '::' + name, c['sig']):
                        return f
            if self.P.overriders.get(c['q']):
                return None
        return self.lookup(c)

    def mcall(self, n, c, s, loc, vs):
        name = c['n']
        cls = c.get('cls', '')
        if is_smart(cls):
            v = self.load(s, loc)
            if name == 'get' or name.startswith('operator') and 'bool' in name or name == 'operator->' or name.startswith('operator '):
                return [(s, v)]
            if name == 'reset':
                s = s.copy()
                self.store(s, loc, self.rv(s, vs[0]) if vs else ZERO, n)
                return [(s, ('void',))]
        fn = self.resolve(c, loc, n)
        return self.call(fn, c, s, loc, vs, n)

    def x_opcall(self, n, st):
        c = n.get('callee')
        op = n['op']
        args = n['args']
        if c is None:
            return self.x_other(n, st)
        fn = self.lookup(c)
        out = []
        for s, vs in self.evs(args, st):
            out += self.opcall(n, c, fn, op, s, vs)
        return out

    def base_part(self, c, loc):
        """members assigned if c is the implicit assignment of a proper base class of *this"""
        if loc != ('deref', ('this',)) or not c.get('implicit') or not self.stack:
            return None
        own, cls = self.stack[0]['q'].rsplit('::', 1)[0], c.get('cls')
        if cls == own or cls not in self.P.bases(own) or cls not in self.P.records:
            return None
        return [x['name'] for b in [cls] + self.P.bases(cls) for x in self.P.records.get(b, {}).get('fields', ())]

    def opcall(self, n, c, fn, op, s, vs):
        tys = [a.get('t', '') for a in n['args']]
        if op == '()' and not isinstance(vs[0], LV) and vs[0][0] == 'lambda':
            return self.call_lambda_vals(vs[0], n, s, vs[1:])
        if op == '()' and isinstance(vs[0], LV):
            v0 = self.load(s, vs[0].loc)
            if v0[0] == 'lambda':
                return self.call_lambda_vals(v0, n, s, vs[1:])
        if fn is not None and not fn.get('implicit') and self.caninline(fn):
            if n.get('member'):
                loc = self.materialize(s, vs[0])
                return self.call(fn, c, s, loc, vs[1:], n)
            return self.call(fn, c, s, None, vs, n)
        t = n['t']
        fac = self.facade(n) if op in ('==', '!=', '++', '*', '->') else None
        if fac:
            r = self.facade_op(fac, op, n, s, vs)
            if r is not None:
                return r
        if op == '=':
            s = s.copy()
            loc = self.materialize(s, vs[0])
            v = self.rv(s, vs[1])
            part = self.base_part(c, loc)
            if part is not None and isinstance(vs[1], LV):
                # the assignment of a base class leaves the members of the derived class alone
                for name in part:
                    self.store(s, ('field', loc, name), self.load(s, ('field', vs[1].loc, name)), n)
                return [(s, LV(loc))]
            self.store(s, loc, v, n)
            return [(s, LV(loc))]
        if op == '->':
            return [(s, self.rv(s, vs[0]))]
        if op == '*' and len(vs) == 1:
            p = self.rv(s, vs[0])
            s = State(s.mem, s.refs, s.facts, s.ev)
            self.emit(s, 'deref', n, ptr=p)
            return [(s, LV(self.deref(p)))]
        if op in ('++', '--'):
            s = s.copy()
            loc = self.materialize(s, vs[0])
            old = self.load(s, loc)
            self.types.setdefault(old, tys[0] if 'iterator' in tys[0] else tys[0])
            new = add(old, ONE if op == '++' else N(-1))
            self.store(s, loc, new, n)
            if len(vs) == 2:
                return [(s, old)]
            return [(s, LV(loc))]
        if op == '()' and len(vs) == 1:
            loc = self.materialize(s, vs[0])
            return self.call(None, c, s, loc, [], n)
        if op in ('[]', '()'):
            loc = self.materialize(s, vs[0])
            idx = tuple(self.rv(s, v) for v in vs[1:])
            s = State(s.mem, s.refs, s.facts, s.ev)
            self.emit(s, 'index', n, base=loc, idx=idx[0] if len(idx) == 1 else idx, raw=False, bt=tys[0])
            l = ('idx', loc) + idx
            if op == '[]' and c['q'].startswith('std::map<'):
                for w in self.wlogs:
                    pass
            return [(s, LV(l))]
        if op in ('+', '-') and len(vs) == 1:
            v = self.rv(s, vs[0])
            return [(s, neg(v) if op == '-' else v)]
        if op == '!' and len(vs) == 1:
            return [(s, negate(self.truth(self.rv(s, vs[0]), 'bool')))]
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(vs) == 2:
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if op in ('==', '!=') or 'iterator' in tys[0]:
                return [(s, self.cmpop(op, a, b, tys[0], tys[1]))]
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if op == '<=':
                return [(s, negate(('f', 'lt', (b, a))))]
            return [(s, ('f', 'lt', (a, b)))]
        if op in ('+', '-', '*', '/', '%', '&', '|', '^') and len(vs) == 2:
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            for x, ty in ((a, tys[0]), (b, tys[1])):
                if is_scalar(ty):
                    self.typed(x, unq(ty))
            v = self.arith(op, a, b, t, tys[0], tys[1], s)
            return [(s, self.typed(v, t))]
        if op in ('+=', '-=', '*=', '/=', '|=', '&='):
            s = s.copy()
            loc = self.materialize(s, vs[0])
            a, b = self.load(s, loc), self.rv(s, vs[1])
            v = self.arith(op[:-1], a, b, tys[0] if op != '+=' else tys[0], tys[0], tys[1], s)
            self.store(s, loc, v, n)
            return [(s, LV(loc))]
        if op in ('<<', ',') and ('Eigen::' in tys[0]):
            s = s.copy()
            loc = self.materialize(s, vs[0])
            b = self.rv(s, vs[1])
            if op == '<<':
                self.store(s, loc, ('commainit', self.load(s, loc), (b,), (eigen_dims(tys[0]), eigen_dims(tys[1]))), n)
            else:
                v = self.load(s, loc)
                if v[0] == 'commainit':
                    self.store(s, loc, ('commainit', v[1], v[2] + (b,), v[3] + (eigen_dims(tys[1]),)), n)
            return [(s, LV(loc))]
        if op in ('<<', '>>') and len(vs) == 2:
            s = s.copy()
            loc = self.materialize(s, vs[0])
            b = self.rv(s, vs[1])
            old = self.load(s, loc, False)
            if op == '>>' and isinstance(vs[1], LV):
                self.store(s, vs[1].loc, ('read', old if old[0] != 'mut' else ('s', 'strm'), ('n', Fr(self.steps))), n)
            self.emit(s, 'call', n, q=c['q'], n='operator' + op, this=loc, args=(b,), res=('void',), argl=(vs[1].loc if isinstance(vs[1], LV) else None,), argt=tys[1])
            return [(s, LV(loc))]
        # everything else: opaque
        if n.get('member'):
            loc = self.materialize(s, vs[0])
            return self.call(None, c, s, loc, vs[1:], n)
        return self.call(None, c, s, None, vs, n)

    def facade(self, n):
        """class deriving from boost::iterator_facade: operators are its primitive members"""
        a = n['args'][0]
        while a['k'] in ('upcast', 'icast', 'materialize') and 'e' in a:
            a = a['e']
        t = unq(a.get('t', ''))
        if t in self._fac:
            return self._fac[t]
        r = None
        rec = self.P.records.get(t)
        if rec is not None and any('iterator_facade' in str(b) for b in rec.get('bases', [])):
            r = {}
            for m in ('equal', 'increment', 'dereference'):
                fs = self.P.byname.get(t + '::' + m, [])
                if fs:
                    r[m] = fs[0]
        self._fac[t] = r
        return r

    _fac = {}

    def facade_op(self, fac, op, n, s, vs):
        m = {'==': 'equal', '!=': 'equal', '++': 'increment', '*': 'dereference', '->': 'dereference'}[op]
        fn = fac.get(m)
        if fn is None or (op == '*' and len(vs) != 1):
            return None
        s = s.copy()
        loc = self.materialize(s, vs[0])
        this = loc[1] if loc[0] == 'deref' else ('addr', loc)
        old = self.load(s, loc) if op == '++' and len(vs) == 2 else None
        out = []
        for s2, r in self.call_fn(fn, s, this, vs[1:2] if m == 'equal' else [], n):
            if op == '!=':
                r = negate(self.truth(self.rv(s2, r), 'bool'))
            elif op == '++':
                r = old if old is not None else LV(loc)
            elif op == '->' and isinstance(r, LV):
                r = ('addr', r.loc) if r.loc[0] != 'deref' else r.loc[1]
            out.append((s2, r))
        return out

    def call_lambda(self, f, n, st, args):
        out = []
        for s, vs in self.evs(args, st):
            out += self.call_lambda_vals(f, n, s, vs)
        return out

    def call_lambda_vals(self, f, n, s, vs):
        fn = self.P.funcs.get((f[1], f[2]))
        if fn is None or not self.caninline(fn):
            return [(s, self.typed(('call', f[1], tuple(self.rv(s, v) for v in vs)), n['t']))]
        frame, this = self.lambdas[f]
        return self.call_fn(fn, s, this, vs, n, parentframe=frame)

    def call(self, fn, c, st, loc, vs, n):
        q = c['q']
        name = c['n']
        if name == '__assert_fail':
            st = State(st.mem, st.refs, st.facts, st.ev)
            self.emit(st, 'assert', n)
            self.abrupt.append((st, ('throw', 'assert')))
            return []
        if fn is not None and self.caninline(fn):
            this = None
            if loc is not None:
                this = loc[1] if loc[0] == 'deref' else ('addr', loc)
            return self.call_fn(fn, st, this, vs, n)
        return self.opaque_call(c, st, loc, vs, n, fn)

    def map_call(self, c, st, loc, vs, n):
        """lookups and edits of associative containers; None when the member is not modelled"""
        name = c['n']
        multi = c['q'].startswith(('std::multi',))
        isset = c['q'].startswith(('std::set<', 'std::multiset<'))
        st = st.copy()
        vals = tuple(self.rv(st, v) for v in vs)
        C = self.load(st, loc)
        ik = lambda v: v[0] in ('mit', 'mrange', 'begin') or v[0] == 'poly' and contains(v, lambda x: x[0] in ('begin', 'mrange'))
        if name == 'find' and len(vals) == 1:
            return [(st, self.typed(('mit', loc, C, vals[0]), n['t']))]
        if name in ('count', 'contains') and len(vals) == 1:
            h = has(C, vals[0])
            if name == 'contains':
                return [(st, h)]
            if h in (TRUE, FALSE) and not multi:
                return [(st, h)]
            return [(st, self.typed(('mcount', C, vals[0]), 'unsigned long'))]
        if name in ('equal_range', 'lower_bound', 'upper_bound') and len(vals) == 1 and multi:
            b = self.typed(('mrange', loc, C, vals[0]), 'iterator')
            e = add(b, self.typed(('mcount', C, vals[0]), 'unsigned long'))
            return [(st, ('pair', b, e) if name[0] == 'e' else b if name[0] == 'l' else e)]
        if name == 'erase' and len(vals) == 1:
            v = vals[0]
            if v[0] == 'mit':
                self.edit(st, loc, 'erase1' if multi else 'erase', C, (v[3],), n, c)
                return [(st, ('void',))]
            if ik(v):
                self.edit(st, loc, 'eraseat', C, (v,), n, c)
                return [(st, self.typed(('call', 'eraseat', (C, v)), n['t']))]
            self.edit(st, loc, 'erase', C, (v,), n, c)
            return [(st, self.typed(('mcount', C, v), 'unsigned long'))]
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            if name == 'emplace_hint' or name == 'insert' and len(vals) == 2 and ik(vals[0]) and not ik(vals[1]):
                vals = vals[1:]
            k = v = None
            if len(vals) == 1 and vals[0][0] in ('pair', 'list') and not isset:
                k, v = (vals[0][1], vals[0][2]) if vals[0][0] == 'pair' else (vals[0][1] + (None, None))[:2]
            elif len(vals) == 1 and isset:
                k = v = vals[0]
            elif len(vals) == 1 and not ik(vals[0]):
                k, v = self.project(vals[0], ('field', 'first')), self.project(vals[0], ('field', 'second'))
            elif len(vals) == 2 and not (ik(vals[0]) and ik(vals[1])):
                k, v = vals
            if k is None or v is None:
                return None
            it = self.typed(('mit', loc, C, k), 'iterator')
            self.edit(st, loc, 'assign' if name == 'insert_or_assign' else 'insert', C, (k, v), n, c)
            return [(st, it if multi else ('pair', it, negate(has(C, k))))]
        return None

    def edit(self, st, loc, op, C, args, n, c):
        self.emit(st, 'call', n, q=c['q'], n=op, this=loc, thisv=C, args=args, res=('void',), argl=(None,) * len(args), mapop=op)
        for k in [k for k in st.mem if k != loc and k[0] in ('field', 'idx', 'mref') and under(k, loc)]:
            del st.mem[k]
        st.mem[loc] = ('mut', op, C, args)
        if op == 'assign' or op == 'insert' and not c['q'].startswith('std::multi') and has(C, args[0]) == FALSE:
            st.mem[('idx', loc, args[0])] = args[1]
        for w in self.wlogs:
            w.add(loc)

    def opaque_call(self, c, st, loc, vs, n, fn=None):
        if loc is not None and c['q'].startswith(('std::map<', 'std::multimap<', 'std::set<', 'std::multiset<')) and self.mapmodel:
            r = self.map_call(c, st, loc, vs, n)
            if r is not None:
                return r
        q, name = c['q'], c['n']
        st = st.copy()
        vals = tuple(self.rv(st, v) for v in vs)
        pts = c.get('pt', [])
        rt = c.get('rt', n.get('t', ''))
        if loc is None or c.get('static'):
            # free / static function
            if name in ('max', 'min', 'lowest') and not vals and 'numeric_limits<' in q:
                lim = LIMITS.get(unq(q.split('numeric_limits<')[1].rsplit('>', 1)[0]))
                if lim:
                    return [(st, N(lim[1] if name == 'max' else lim[0]))]
                if name == 'lowest':
                    return [(st, neg(self.typed(('f', 'max', ()), n['t'])))]
            if name in PURE:
                a = vals
                if name in ('max', 'min'):
                    if len(a) > 1 and a[0][0] == 'n' and a[1][0] == 'n':
                        return [(st, N(max(a[0][1], a[1][1]) if name == 'max' else min(a[0][1], a[1][1])))]
                    a = tuple(sorted(a[:2], key=order)) + a[2:]
                if name == 'fabs':
                    name = 'abs'
                if name == 'abs' and is_float(n['t']) is False and q.split('::')[-1] == 'abs' and n['args'] and n['args'][0]['k'] == 'icast' and n['args'][0]['ck'] == 'FloatingToIntegral':
                    pass
                t = ('f', name, a)
                return [(st, self.typed(t, n['t']))]
            if name == 'Zero' and q.startswith('Eigen::'):
                return [(st, ZERO)]
            if name == 'make_pair' and len(vals) == 2:
                return [(st, ('pair', vals[0], vals[1]))]
            if name == 'swap' and len(vs) == 2 and isinstance(vs[0], LV) and isinstance(vs[1], LV):
                self.store(st, vs[0].loc, vals[1], n)
                self.store(st, vs[1].loc, vals[0], n)
                return [(st, ('void',))]
            if name in ('move', 'forward', 'addressof') and len(vs) == 1 and q.startswith('std::'):
                return [(st, vs[0] if name != 'addressof' else ('addr', self.materialize(st, vs[0])))]
            if name == 'dynamic_pointer_cast' or name == 'static_pointer_cast':
                return [(st, vals[0] if name[0] == 's' else ('dyncast', n['t'], vals[0]))]
            if name == 'accumulate' and len(vals) == 3 and contains(vals[0], lambda x: x[0] == 'begin'):
                self.nloop += 1
                lid = self.nloop
                self.loops[lid] = dict(node=n, traces=[], mods={}, ind={}, pre=st, fn=self.stack[-1]['q'], range=None, count=sub(vals[1], vals[0]))
                el = self.load(st, self.deref(add(vals[0], ('it', lid))))
                r = add(vals[2], ('sum', lid, el))
                if is_int(n['t']) and not (el in self.types and is_int(self.types[el])):
                    r = ('trunc', r)
                return [(st, r)]
            if name == 'fill' and len(vals) == 3 and vals[0][0] == 'begin':
                loc0 = vals[0][1]
                if sub(vals[1], vals[0]) == ('call', 'size', (self.strip_content(self.load(st, loc0)),)):
                    self.store(st, loc0, ('filled', self.strip_content(self.load(st, loc0)), vals[2]), n)
                    return [(st, ('void',))]
            t = ('call', q, vals)
            if any(p.endswith('*') and 'const' not in p for p in pts) and not fn and rt != 'void' and any(e.kind == 'call' and e.d.get('res') == t for e in evlist(st.ev)):
                # a function that changes what its arguments point to need not return the same value again
                t = ('call', q, vals + (('ver', sum(1 for e in evlist(st.ev) if e.kind == 'call' and e.d.get('q') == q)),))
            self.typed(t, n['t'])
            argl = tuple(v.loc if isinstance(v, LV) else None for v in vs)
            if name in self.throwing:
                ok, fails = self.assume(st, cmp('==', ('call', 'fails', (t,)), ZERO, True))
                if fails is not None:
                    fails = fails.copy()
                    self.emit(fails, 'call', n, q=q, n=name, this=None, args=vals, res=t, argl=argl, fnd=fn)
                    self.abrupt.append((fails, ('throw', self.throwing[name])))
                st = ok.copy()
            self.emit(st, 'call', n, q=q, n=name, this=None, args=vals, res=t, argl=argl, fnd=fn)
            self.havoc_args(st, t, vs, vals, pts, n)
            if rt.endswith('&') and not rt.endswith('&&'):
                return [(st, LV(('mref', name, ('glob', q), vals)))]
            return [(st, t)]
        objv = self.load(st, loc)
        if name in SIZEY and c.get('const') and not (fn):
            if name == 'empty':
                sz = self.typed(('call', 'size', (self.strip_content(objv),)), 'unsigned long')
                return [(st, cmp('==', sz, ZERO, True))]
            t = ('call', 'size' if name in ('size', 'length') else name, (self.strip_content(objv),) + vals)
            if name in ('rows', 'cols', 'num_elements', 'size', 'length', 'capacity'):
                self.typed(t, 'unsigned long')
            else:
                self.typed(t, n['t'])
            return [(st, t)]
        if name in ('begin', 'end', 'cbegin', 'cend') and not fn and not vals:
            b = ('begin', loc, ('n', Fr(self.version(objv))))
            self.typed(b, n['t'])
            if name in ('begin', 'cbegin'):
                return [(st, b)]
            sz = self.typed(('call', 'size', (self.strip_content(objv),)), 'unsigned long')
            return [(st, add(b, sz))]
        if 'basic_string' in c.get('cls', '') and not fn and not vals and name in ('rbegin', 'crbegin', 'back', 'front'):
            sz = self.typed(('call', 'size', (self.strip_content(objv),)), 'unsigned long')
            l = ('idx', loc, ZERO if name == 'front' else sub(sz, ONE))
            return [(st, LV(l) if name in ('back', 'front') else ('addr', l))]
        if name in ('x', 'y', 'z', 'w') and not fn and not vals and 'Eigen::' in q:
            l = ('idx', loc, N('xyzw'.index(name)))
            return [(st, LV(l))]
        if q.startswith('Eigen::AngleAxis<') and name in ('axis', 'angle') and not fn and not vals:
            return [(st, self.typed(('call', 'Eigen::' + name, (objv,)), n['t']))]
        if q.startswith('Eigen::') and name in EIGEN_VIEW and not fn and (vals or name in ('linear', 'translation', 'affine', 'rotation', 'matrix', 'vec', 'coeffs', 'diagonal')):
            if name == 'matrix' and 'Transform' not in q:
                return [(st, LV(loc))]
            return [(st, LV(('idx', loc, ('view', name) + vals)))]
        if q.startswith('Eigen::') and name in EIGEN_VIEW and not fn and not vals and q.endswith('>'):
            targs = template_args(q[q.rindex('::' + name) + 2:])[1]
            if targs and all(re.fullmatch(r'\d+', a) for a in targs):
                return [(st, LV(('idx', loc, ('view', name) + tuple(N(int(a)) for a in targs))))]
        if q.startswith('Eigen::') and name in EIGEN_PURE and not fn:
            t = ('call', 'Eigen::' + name, (objv,) + vals)
            return [(st, self.typed(t, n['t']))]
        if name == 'at' and not fn:
            st2 = State(st.mem, st.refs, st.facts, st.ev)
            self.emit(st2, 'index', n, base=loc, idx=vals[0], raw=False, checked=True, bt='')
            return [(st2, LV(('idx', loc) + vals))]
        if (name.startswith('operator ') or name == 'c_str' or name == 'str' and False) and not fn and not vals:
            if 'bool' in name or name == 'c_str' or is_smart(c.get('cls', '')):
                return [(st, objv)]
        if q in ('boost::filesystem::path::string', 'boost::filesystem::path::native') and not vals:
            return [(st, objv)]
        argl = tuple(v.loc if isinstance(v, LV) else None for v in vs)
        const = bool(c.get('const'))
        callback = const and name == 'operator()' and re.match(r'(std|boost)::function', q)
        base = objv
        t = ('call', q, (base,) + vals)
        self.typed(t, n['t'])
        if name in self.throwing:
            ok, fails = self.assume(st, cmp('==', ('call', 'fails', (t,)), ZERO, True))
            if fails is not None:
                self.abrupt.append((fails.copy(), ('throw', self.throwing[name])))
            st = ok.copy()
        self.emit(st, 'ccall' if const and not callback else 'call', n, q=q, n=name, this=loc, thisv=objv, args=vals, res=t, argl=argl, fnd=fn, virt=bool(c.get('virt')))
        self.havoc_args(st, t, vs, vals, pts, n)
        if not const:
            islv = rt.endswith('&') and not rt.endswith('&&')
            if islv and name in ('front', 'back', 'top', 'getData', 'operator*'):
                pass
            elif not (fn is not None or loc[0] == 'deref' and c.get('virt')):
                self.mutate(st, loc, name, objv, vals, n)
        if rt.endswith('&') and not rt.endswith('&&'):
            return [(st, LV(('mref', name, loc, vals, ('n', Fr(self.version(objv))))))]
        return [(st, t)]

    def version(self, v):
        k = 0
        while True:
            if v[0] in ('upd', 'lvc', 'filled'):
                v = v[1]
            elif v[0] == 'mut':
                k += 1
                v = v[2]
            else:
                return k

    def mutate(self, st, loc, name, old, vals, n):
        quiet_ev = st.ev
        for k in [k for k in st.mem if k != loc and k[0] in ('field', 'idx', 'mref') and under(k, loc)]:
            if name in ('push_back', 'insert', 'emplace_back', 'reserve') and k[0] == 'idx':
                continue
            del st.mem[k]
        if name == 'clear':
            v = ('mut', 'clear', self.strip_content(old), ())
        else:
            v = ('mut', name, self.strip_content(old), vals)
        st.mem[loc] = v
        for w in self.wlogs:
            w.add(loc)

    def havoc_args(self, st, t, vs, vals, pts, n):
        for i, v in enumerate(vs):
            pt = pts[i] if i < len(pts) else ''
            if pt.endswith('&') and not pt.startswith('const ') and 'const &' not in pt and isinstance(v, LV):
                self.store(st, v.loc, ('out', t, ('n', Fr(i))), n)
            elif pt.endswith('*') and not pt.startswith('const ') and vals[i][0] == 'addr':
                self.store(st, vals[i][1], ('out', t, ('n', Fr(i))), n)

    # inlined call ---------------------------------------------------------
    def call_fn(self, fn, st, this, vs, n, parentframe=None):
        self.analysed.add((fn['q'], fn['sig']))
        self.nframe += 1
        frame = self.nframe
        st = st.copy()
        if self.stack:
            self.emit(st, 'enter', n, q=fn['q'], n=fn['n'], this=this, args=tuple(self.rv(st, v) for v in vs), argl=tuple(v.loc if isinstance(v, LV) else None for v in vs), fnd=fn)
        if parentframe is not None:
            self.parentframe[frame] = parentframe
        for i, p in enumerate(fn['params']):
            loc = ('var', p['id'], frame, p['name'])
            r = vs[i] if i < len(vs) else None
            if r is None:
                v = ('p', p['name'] or '_%d' % i)
                if p.get('ref'):
                    st.refs[loc] = ('deref', v)
                else:
                    st.mem[loc] = self.typed(v, p['t'])
                continue
            if p.get('ref'):
                st.refs[loc] = self.materialize(st, r)
            else:
                st.mem[loc] = self.rv(st, r)
        self.stack.append(fn)
        self.frames.append(frame)
        self.this.append(this if this is not None else ('nothis',))
        mark = len(self.abrupt)
        results = []
        try:
            states = [st]
            if fn['kind'] == 'ctor':
                states = self.run_inits(fn, st, this)
            for s in states:
                for s2, out in self.exec(fn['body'], s):
                    if out[0] in ('norm',):
                        results.append((s2, ('void',)))
                    elif out[0] == 'ret':
                        results.append((s2, out[1]))
                    else:
                        self.abrupt.append((s2, out))
            if len(results) > self.max_traces:
                raise TooMany('too many traces in ' + fn['q'])
        finally:
            self.stack.pop()
            self.frames.pop()
            self.this.pop()
        # drop the frame
        fin = []
        for s, r in results:
            if isinstance(r, LV) and root(r.loc)[0] == 'var' and root(r.loc)[2] == frame:
                r = self.load(s, r.loc)
            elif isinstance(r, LV) and not fn['rt'].endswith('&'):
                r = self.rv(s, r)
            if not isinstance(r, LV) and r[0] not in ('void',):
                self.typed(r, fn['rt'])
            fin.append((s, r))
        if self.stack:
            for i, (s, r) in enumerate(fin):
                s = s.copy()
                for k in [k for k in s.mem if root(k)[0] == 'var' and root(k)[2] == frame]:
                    del s.mem[k]
                for k in [k for k in s.refs if k[2] == frame]:
                    del s.refs[k]
                self.emit(s, 'exit', n, q=fn['q'], n=fn['n'])
                fin[i] = (s, r)
            fin = self.join_results(fin, st)
        return fin

    def join_results(self, fin, base):
        """merge the outcomes of a pure helper (e.g. several returns) into one conditional value"""
        if len(fin) < 2 or len(fin) > 8:
            return fin
        cur_s, cur_r = fin[-1]
        if isinstance(cur_r, LV):
            return fin
        for s, r in reversed(fin[:-1]):
            if isinstance(r, LV):
                return fin
            c = mk_and(self.newfacts(s, base))
            m = self.merge(s, cur_s, base)
            if m is None:
                return fin
            v = r if r == cur_r else (ite(c, r, cur_r) if r[0] not in ('void',) else r)
            cur_s, cur_r = m, v
        return [(cur_s, cur_r)]

    def run_inits(self, fn, st, this):
        states = [st]
        base = self.deref(this)
        for i in fn.get('inits', ()):
            nxt = []
            e = i['e']
            for s in states:
                if 'field' in i:
                    loc = ('field', base, i['field'])
                    if e is None:
                        nxt.append(s); continue
                    nxt += self.init_loc(s, loc, e, i['t'], i)
                elif 'base' in i or i.get('deleg'):
                    if e is not None and e['k'] == 'construct':
                        for s2, vs in self.evs(e['args'], s):
                            s2 = s2.copy()
                            cfn = self.lookup(e['callee'])
                            if cfn is not None and self.caninline(cfn):
                                for s3, _ in self.call_fn(cfn, s2, this, vs, e):
                                    nxt.append(s3)
                            else:
                                bvals = tuple(self.rv(s2, v) for v in vs)
                                self.emit(s2, 'baseinit', e, base=i.get('base', ''), args=bvals, q=e['callee']['q'])
                                if bvals and base not in s2.mem:
                                    s2.mem[base] = bvals[0] if len(bvals) == 1 and 'base' in i else ('base', i.get('base', ''), bvals)
                                nxt.append(s2)
                    else:
                        nxt.append(s)
            states = nxt
        return states

    def init_loc(self, s, loc, e, t, node):
        """initialise loc with expression e"""
        out = []
        if t.rstrip().endswith('&'):
            for s2, r in self.ev(e, s):
                s2 = s2.copy()
                self.store(s2, loc, ('addr', self.materialize(s2, r)), node, quiet=True)
                out.append(s2)
            return out
        if e['k'] == 'construct' and not (e.get('copy') and self.implicit_copy(e)) and self.lookup(e['callee']) and self.caninline(self.lookup(e['callee'])):
            for s2, vs in self.evs(e['args'], s):
                s2 = s2.copy()
                out += [s3 for s3, _ in self.construct_at(e, s2, loc, vs)]
            return out
        for s2, v in self.eval(e, s):
            s2 = s2.copy()
            self.store(s2, loc, v, node)
            out.append(s2)
        return out

    def implicit_copy(self, e):
        fn = self.lookup(e['callee'])
        return fn is None or fn.get('implicit')

    # ------------------------------------------------------------- statements
    def exec(self, n, st):
        """-> list of (state, outcome)"""
        if n is None:
            return [(st, NORM)]
        self.step()
        k = n['k']
        if k == 'block':
            return self.exec_block(n['b'], st)
        mark = len(self.abrupt)
        res = self.exec1(n, st)
        if len(self.abrupt) > mark:
            res = res + self.abrupt[mark:]
            del self.abrupt[mark:]
        if len(res) > self.max_traces:
            raise TooMany('too many traces in ' + self.stack[-1]['q'])
        return res

    def exec_block(self, stmts, st):
        cur = [st]
        done = []
        scoped = []
        for x in stmts:
            if x is None:
                continue
            if x['k'] == 'decl':
                for d in x['d']:
                    if d.get('rec') and not d.get('ref') and not d.get('static'):
                        scoped.append(('var', d['id'], self.frames[-1], d['name'], d['t']))
            nxt = []
            for s in cur:
                for s2, o in self.exec(x, s):
                    if o[0] == 'norm':
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
            if len(cur) + len(done) > self.max_traces:
                raise TooMany('too many traces in ' + self.stack[-1]['q'])
            if not cur:
                break
        res = [(s, NORM) for s in cur] + done
        locks = [v for v in scoped if 'lock' in v[4].lower()]
        if locks:
            r2 = []
            for s, o in res:
                s = State(s.mem, s.refs, s.facts, s.ev)
                for v in reversed(locks):
                    if v[:4] in s.mem:
                        self.emit(s, 'dtor', {'l': 0}, loc=v[:4], type=v[4])
                r2.append((s, o))
            res = r2
        return res

    def exec1(self, n, st):
        k = n['k']
        if k == 'expr':
            return [(s, NORM) for s, _ in self.ev(n['e'], st)]
        if k == 'decl':
            states = [st]
            for d in n['d']:
                nxt = []
                for s in states:
                    nxt += self.exec_decl(d, s)
                states = nxt
            return [(s, NORM) for s in states]
        if k == 'return':
            if n.get('e') is None:
                return [(st, ('ret', ('void',)))]
            out = []
            isref = self.stack[-1]['rt'].endswith('&')
            for s, r in self.ev(n['e'], st):
                if not isref:
                    r = self.rv(s, r, self.stack[-1]['rt'])
                s = State(s.mem, s.refs, s.facts, s.ev)
                out.append((s, ('ret', r)))
            return out
        if k == 'if':
            return self.exec_if(n, st)
        if k in ('while', 'do', 'for'):
            return self.exec_loop(n, st)
        if k == 'rangefor':
            return self.exec_range(n, st)
        if k == 'break':
            return [(st, BREAK)]
        if k == 'continue':
            return [(st, CONT)]
        if k == 'null':
            return [(st, NORM)]
        if k == 'switch':
            return self.exec_switch(n, st)
        if k == 'try':
            return self.exec_try(n, st)
        if k in ('case', 'default', 'label'):
            return self.exec(n['b'], st)
        self.imprecise.append('%s at line %s' % (k, n.get('l')))
        return [(st, NORM)]

    def exec_decl(self, d, st):
        if d.get('static'):
            return [st]
        loc = ('var', d['id'], self.frames[-1], d['name'])
        self.vtypes[loc] = d.get('t', '')
        i = d.get('init')
        if d.get('ref'):
            out = []
            for s, r in self.ev(i, st):
                s = s.copy()
                s.refs[loc] = self.materialize(s, r)
                out.append(s)
            return out
        if i is None:
            s = st.copy()
            s.mem[loc] = ('uninit', loc)
            for w in self.wlogs:
                w.add(loc)
            return [s]
        s0 = st.copy()
        for k in [k for k in s0.mem if k != loc and under(k, loc)]:
            del s0.mem[k]
        s0.mem[loc] = ('uninit', loc)
        return self.init_loc(s0, loc, i, d['t'], d)

    def exec_if(self, n, st):
        pre = [st]
        if n.get('init'):
            pre = [s for s, o in self.exec(n['init'], st)]
        if n.get('cv'):
            nx = []
            for s in pre:
                nx += self.exec_decl(n['cv'], s)
            pre = nx
        out = []
        for s in pre:
            T, Fs = self.cond(n['c'], s)
            rt, rf = [], []
            for t in T:
                rt += self.exec(n['a'], t)
            for f in Fs:
                rf += self.exec(n['b'], f) if n.get('b') else [(f, NORM)]
            nt = [x for x in rt if x[1][0] == 'norm']
            nf = [x for x in rf if x[1][0] == 'norm']
            if len(nt) == 1 and len(nf) == 1:
                m = self.merge(nt[0][0], nf[0][0], s)
                if m is not None:
                    out += [(m, NORM)] + [x for x in rt + rf if x[1][0] != 'norm']
                    continue
            out += rt + rf
        return out

    def exec_switch(self, n, st):
        pre = [st]
        out = []
        body = n['b']
        stmts = []
        labels = []

        def flat(x):
            if x is None:
                return
            if x['k'] in ('case', 'default'):
                labels.append((len(stmts), x))
                flat(x['b'])
            else:
                stmts.append(x)
        for x in (body['b'] if body['k'] == 'block' else [body]):
            flat(x)
        for s, v in self.eval(n['c'], st):
            ty = n['c'].get('t', '')
            others = []
            for pos, lab in labels:
                if lab['k'] != 'case':
                    continue
                b = cmp('==', v, N(lab.get('val', 0)), True)
                others.append(negate(b))
                t, f = self.assume(s, b)
                if t is None:
                    continue
                out += self.sw_run(stmts[pos:], t)
            d = [pos for pos, lab in labels if lab['k'] == 'default']
            sd = s
            ok = True
            for o in others:
                t, f = self.assume(sd, o)
                if t is None:
                    ok = False
                    break
                sd = t
            if ok:
                if d:
                    out += self.sw_run(stmts[d[0]:], sd)
                else:
                    out.append((sd, NORM))
        return out

    def sw_run(self, stmts, st):
        return [(s, NORM if o[0] == 'break' else o) for s, o in self.exec_block(stmts, st)]

    def exec_try(self, n, st):
        out = []
        for s, o in self.exec(n['b'], st):
            if o[0] == 'throw' and o[1] != 'assert':
                for h in n['h']:
                    t = h.get('t')
                    if t is None or self.catches(t, o[1]):
                        s2 = s.copy()
                        if h.get('var'):
                            s2.mem[('var', h['var']['id'], self.frames[-1], h['var']['name'])] = ('exc', o[1])
                        self.emit(s2, 'catch', n, type=t)
                        out += self.exec(h['b'], s2)
                        break
                else:
                    out.append((s, o))
            else:
                out.append((s, o))
        return out

    def catches(self, t, thrown):
        t, thrown = unq(t), unq(thrown)
        if t == thrown or t == 'std::exception':
            return True
        if t == 'std::runtime_error' and 'runtime_error' in thrown:
            return True
        return t in self.P.bases(thrown)

    # ------------------------------------------------------------- loops
    def exec_range(self, n, st):
        out = []
        for s, r in self.ev(n['range'], st):
            s = s.copy()
            rl = self.materialize(s, r)
            size = self.typed(('call', 'size', (self.strip_content(self.load(s, rl)),)), 'unsigned long')
            d = n['var']
            loc = ('var', d['id'], self.frames[-1], d['name'])

            def one(state, it):
                f = cmp('<', it, size, True)
                t, _ = self.assume(state, f)
                if t is None:
                    return []
                t = t.copy()
                el = ('idx', rl, it)
                if d.get('ref'):
                    t.refs[loc] = el
                else:
                    t.mem[loc] = self.load(t, el)
                return self.exec(n['b'], t)

            out += self.loop_core(n, s, None, None, None, range_iter=(one, size))
        return out

    def exec_loop(self, n, st):
        pre = [(st, NORM)]
        if n['k'] == 'for' and n.get('init'):
            pre = self.exec(n['init'], st)
        out = []
        for s, o in pre:
            if o[0] != 'norm':
                out.append((s, o))
                continue
            out += self.loop_core(n, s, n.get('c'), n.get('inc'), n['b'])
        return out

    def havoc(self, st, mods, lid, ind, tag='lv'):
        s = st.copy()
        for loc, how in mods.items():
            for k in [k for k in s.mem if k != loc and k[0] in ('field', 'idx', 'mref') and under(k, loc)]:
                del s.mem[k]
            if loc in ind:
                v0, c = ind[loc]
                s.mem[loc] = add(v0, mul(c, ('it' if tag == 'lv' else 'itx', lid)))
            elif how == 'content':
                s.mem[loc] = ('lvc', self.load(st, loc, False), lid, tag)
            else:
                v = (tag, lid, loc)
                old = self.load(st, loc, False)
                if old in self.types:
                    self.types.setdefault(v, self.types[old])
                if loc in self.ltypes:
                    self.types.setdefault(v, self.ltypes[loc])
                s.mem[loc] = v
        return s

    ltypes = {}
    mapmodel = True

    def loopdep(self, loc, lid, base):
        def p(x):
            return (x[0] in ('lv', 'it', 'lvc') and (x[1] == lid or (x[0] == 'lvc' and x[2] == lid)))
        return contains(loc, p)

    def loop_core(self, n, st, cnd, inc, body, range_iter=None):
        self.nloop += 1
        lid = self.nloop
        do = n['k'] == 'do'
        saved = (self.nheap, self.ntmp)

        def iterate(s):
            """one iteration from s -> list of (state, outcome) after inc"""
            if range_iter:
                res = range_iter[0](s, ('it', lid))
            else:
                if cnd is not None and not do:
                    T, _ = self.cond(cnd, s)
                else:
                    T = [s]
                if n.get('cv'):
                    nt = []
                    for t in T:
                        nt.append(t)
                    T = nt
                res = []
                for t in T:
                    res += self.exec(body, t)
            fin = []
            for s2, o in res:
                if o[0] in ('norm', 'cont'):
                    if inc is not None:
                        for s3, _ in self.ev(inc, s2):
                            fin.append((s3, NORM))
                    elif do and cnd is not None:
                        T, Fs = self.cond(cnd, s2)
                        fin += [(x, NORM) for x in T] + [(x, BREAK) for x in Fs]
                    else:
                        fin.append((s2, NORM))
                else:
                    fin.append((s2, o))
            return fin

        mods, ind = {}, {}
        mark = len(self.abrupt)
        for rnd in range(6):
            s0 = self.havoc(st, mods, lid, ind)
            s0 = State(s0.mem, s0.refs, s0.facts, s0.ev)
            self.wlogs.append(set())
            res = iterate(s0)
            w = self.wlogs.pop()
            extra = self.abrupt[mark:]
            del self.abrupt[mark:]
            res = res + extra
            new = {}
            for loc in w:
                r = root(loc)
                how = 'value'
                # climb out of loop dependent sub-locations
                l = loc
                while l is not None and self.loopdep(l, lid, st):
                    p = parent(l)
                    if p is None:
                        break
                    if l[0] == 'idx':
                        how = 'content'
                    l = p
                if l is None or self.loopdep(l, lid, st):
                    continue
                r = root(l)
                if r[0] == 'tmp' or (r[0] == 'heap' and r[1] > saved[0]):
                    continue
                if r[0] == 'var':
                    if not any(under(k, r) for k in st.mem) and r not in st.refs.values():
                        continue
                if l != loc and l[0] in ('field',) and how == 'value':
                    how = 'value'
                if any(under(l, m) and mods[m] == 'value' for m in mods):
                    continue
                if mods.get(l) == 'value' or (mods.get(l) == 'content' and how == 'content'):
                    continue
                if new.get(l) != 'value':
                    new[l] = how
            if not new:
                # induction variables
                found = False
                for loc, how in mods.items():
                    if loc in ind or how != 'value':
                        continue
                    lv = ('lv', lid, loc)
                    steps = set()
                    for s2, o in res:
                        if o[0] == 'norm':
                            vf = s2.mem.get(loc)
                            d = sub(vf, lv) if vf is not None else None
                            steps.add(d if d is not None and not contains(d, lambda x: x == lv) and (d[0] == 'n' or not self.loopdep(d, lid, st)) else None)
                    if len(steps) == 1 and None not in steps:
                        d = next(iter(steps))
                        if d[0] == 'n' and d[1] != 0:
                            ind[loc] = (self.load(st, loc, False), d)
                            found = True
                if not found:
                    break
                continue
            mods.update(new)
            for m in list(mods):
                if any(k != m and under(m, k) and mods[k] == 'value' for k in mods):
                    del mods[m]
                    ind.pop(m, None)
        else:
            self.imprecise.append('loop at line %s did not stabilise' % n.get('l'))
        # body traces
        btr = []
        pure = True
        for s2, o in res:
            evs = evlist(s2.ev, common(s2.ev, st.ev))
            btr.append((tuple(f for f in s2.facts if f not in set(st.facts)), evs, o, s2))
            if not pure_events(evs) or o[0] in ('ret', 'throw', 'break'):
                pure = False
        self.loops[lid] = dict(node=n, traces=btr, mods=mods, ind=ind, pre=st, fn=self.stack[-1]['q'], range=range_iter[1] if range_iter else None)
        self.loops[lid]['count'] = self.tripcount(lid, cnd, do, range_iter, st, mods, ind, btr)
        # exit state
        outs = []
        sx = self.havoc(st, mods, lid, ind, tag='post')
        for loc, how in mods.items():
            if loc in ind or how != 'value':
                continue
            lv = ('lv', lid, loc)
            v0 = self.load(st, loc, False)
            cases = []
            ok = True
            for facts, evs, o, s2 in btr:
                if o[0] != 'norm':
                    continue
                vf = s2.mem.get(loc)
                d = sub(vf, lv) if vf is not None else None
                if d is None or contains(d, lambda x: x == lv):
                    ok = False
                    break
                cases.append((mk_and(facts), d))
            if ok and cases and v0[0] not in ('uninit',) :
                ds = set(d for _, d in cases)
                if ds == {ZERO}:
                    # only rounds that leave the loop change it
                    sx.mem[loc] = v0
                    continue
                if len(ds) == 1:
                    t = ('sum', lid, next(iter(ds)))
                else:
                    t = ('sum', lid, ('cases', tuple(sorted(cases, key=order))))
                sx.mem[loc] = add(v0, t)
            elif v0[0] != 'uninit':
                # overwritten in every iteration: the value of the last one
                lcases = []
                for facts, evs, o, s2 in btr:
                    if o[0] != 'norm':
                        continue
                    vf = s2.mem.get(loc)
                    if vf is None or contains(vf, lambda x: x[0] == 'lv' and x[1] == lid) or contains(mk_and(facts), lambda x: x[0] == 'lv' and x[1] == lid):
                        lcases = None
                        break
                    lcases.append((mk_and(facts), vf))
                if lcases and self.loops[lid]['count'] is not None:
                    t = ('last', lid, lcases[0][1] if len(set(d for _, d in lcases)) == 1 else ('cases', tuple(sorted(lcases, key=order))), v0)
                    if loc in self.ltypes:
                        self.types.setdefault(t, self.ltypes[loc])
                    sx.mem[loc] = t
        ev = Ev('loop', n.get('l', 0), self.stack[-1]['file'], self.stack[-1]['q'], tuple(x['q'] for x in self.stack), st.facts,
                {'traces': btr, 'lid': lid, 'pure': pure, 'node': n, 'mods': mods})
        base_ev = EvL(st.ev, ev)
        if not do:
            sx.ev = base_ev
            if range_iter:
                outs.append((sx.with_fact(cmp('==', ('itx', lid), range_iter[1], True)), NORM))
            elif cnd is not None:
                _, Fs = self.cond(cnd, sx)
                outs += [(f, NORM) for f in Fs]
        # abrupt exits
        nb = 0
        for facts, evs, o, s2 in btr:
            if o[0] in ('break', 'ret', 'throw'):
                l = base_ev
                for e in evs:
                    l = EvL(l, e)
                s3 = State(s2.mem, s2.refs, s2.facts, l)
                outs.append((s3, NORM if o[0] == 'break' else o))
        return outs

    def tripcount(self, lid, cnd, do, range_iter, st, mods, ind, btr):
        """number of iterations when only the loop guard ends the loop, else None"""
        if any(o[0] in ('break', 'ret') for _, _, o, _ in btr):
            return None
        if range_iter:
            return range_iter[1]
        if cnd is None or do:
            return None
        s0 = self.havoc(st, mods, lid, ind)
        mark = len(self.abrupt)
        T, Fs_ = self.cond(cnd, s0)
        del self.abrupt[mark:]
        self.loops[lid]['gfalse'] = [[f for f in s.facts if f not in set(st.facts)] for s in Fs_]
        if len(T) != 1:
            return None
        nf = [f for f in T[0].facts if f not in set(st.facts)]
        if len(nf) != 1 or nf[0][0] != 'cmp':
            return None
        _, op, p, integer = nf[0]
        it = ('it', lid)
        d = topoly(p)
        c = d.pop(((it, 1),), None)
        rest = frompoly(d)
        if c is None or self.loopdep(rest, lid, st):
            return None
        if op == '<=' and c > 0 and integer:
            b = scale(neg(rest), 1 / c)        # it <= b
            return add(b, ONE)
        if op == '!=':
            return scale(neg(rest), 1 / c)
        return None

    # ------------------------------------------------------------- entry
    def run(self, fn, this=('this',), args=None, facts=()):
        self.this = []
        self.abrupt = []
        self.stack = []
        self.frames = []
        st = State(facts=tuple(facts))
        vs = args if args is not None else []
        res = self.call_fn(fn, st, this if fn['kind'] != 'fn' and not fn.get('static') else None, vs, {'l': fn['l'], 't': fn['rt']})
        traces = [Trace(s, 'ret', r) for s, r in res]
        traces += [Trace(s, 'throw', o[1]) for s, o in self.abrupt]
        return traces


def dump(traces, out=None, full=False):
    import sys
    out = out or sys.stdout

    def evs(es, ind):
        for e in es:
            if e.kind == 'loop':
                out.write('%sloop L%s line %s\n' % (ind, e.lid, e.line))
                for f, b, o, s in e.traces:
                    out.write('%s  body [%s] -> %s\n' % (ind, ' & '.join(show(x) for x in f), o[0]))
                    evs(b, ind + '    ')
            elif e.kind == 'alt':
                out.write('%salt\n' % ind)
                for a in e.alts:
                    out.write('%s  |\n' % ind)
                    evs(a, ind + '   ')
            elif e.kind in ('enter', 'exit', 'deref', 'baseinit', 'construct', 'index') and not full:
                continue
            else:
                d = {k: v for k, v in e.d.items() if k not in ('node', 'fnd', 'old', 'argl', 'thisv') and not (k == 'q' and 'n' in e.d) and not (k in ('virt', 'array', 'placement') and not v)}
                out.write('%s%s:%s %s\n' % (ind, e.kind, e.line, ', '.join('%s=%s' % (k, '[' + ', '.join(show(x) for x in v) + ']' if k == 'args' else show(v) if isinstance(v, tuple) else v) for k, v in d.items())))
    for i, t in enumerate(traces):
        out.write('== trace %d: %s %s\n' % (i, t.out, (show(t.val) if isinstance(t.val, tuple) else ('LV ' + show(t.val.loc) if isinstance(t.val, LV) else t.val))))
        out.write('   facts: %s\n' % ' & '.join(show(f) for f in t.facts))
        evs(t.events, '   ')
