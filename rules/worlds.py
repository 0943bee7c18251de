"""Finite abstract worlds for relation properties.

The summaries of the relational code (who is linked to whom, who is told about it) only compare
pointers and identifiers for equality and ask containers for membership.  Such formulas are decided by
their equality patterns: every term is given a value from {null, the values seen so far, a fresh one},
congruently (equal arguments give equal results), and all patterns are enumerated.  A rule states what a
summary has to do in a world; a world that satisfies the path facts and contradicts the rule is a
counterexample to it.
"""
import re
import time
from engine.terms import *
from engine.absint import is_int, is_unsigned, is_float, is_ptr, is_smart
from .lib import THIS, fld


class Prune(Exception):
    """the world contradicts the path facts or the preconditions"""


class Budget(Exception):
    pass


SECONDS = 40     # per path of a function
UNIT = 1 << 20
SELF = 7        # the object the analysed member function is called on


def member_of(loc):
    """name of the container if loc is a data member of *this (through any object)"""
    return loc[2] if loc[0] == 'field' else None


class World:
    def __init__(self, tape, types, unique=(), doms=None):
        self.tape, self.pos, self.log = tape, 0, []
        self.types = types
        self.unique = unique      # containers with unique keys
        self.doms = doms or (lambda w, key, t: None)
        self.tab = {}
        self.pool = [0]
        self.itmap = {}      # loop -> (container, nesting depth): which generic element it looks at
        self.itval = {}
        self.lists = {}      # (list term, loop) -> element
        self.active = None   # containers that have a generic element (None: all)
        self.sim = None
        self.strings = ()    # data members that hold text, as values of their own
        self.deadline = None

    # -- choices
    def pick(self, dom):
        if len(dom) == 1:
            return dom[0]
        if self.pos < len(self.tape):
            i = self.tape[self.pos]
        else:
            i = 0
            self.tape.append(0)
        self.log.append(len(dom))
        self.pos += 1
        return dom[i]

    def fresh(self):
        v = UNIT * len(self.pool)
        self.pool.append(v)
        return v

    def pointer(self, nonnull=False):
        dom = self.pool[1 if nonnull else 0:] + ['new']
        v = self.pick(dom)
        return self.fresh() if v == 'new' else v

    def leaf(self, key, t):
        if key in self.tab:
            return self.tab[key]
        d = self.doms(self, key, t)
        if d is not None:
            v = d() if callable(d) else self.pick(d)
        else:
            ty = self.types.get(t) if t else None
            if key[0] == 'has':
                v = self.pick([0, 1])
            elif ty == 'bool':
                v = self.pick([0, 1])
            elif ty and (is_ptr(ty) or is_smart(ty)):
                v = self.pointer()
            elif key[0] in ('mcount', 'call') and str(key[1]).split('::')[-1] in ('size', 'count'):
                v = self.pick([0, 1, 2])
            elif ty == 'char':
                v = self.pick([47, 65])
            elif ty and (is_int(ty) or re.match(r'(enum )?envire::event::', ty)):
                v = self.pick([0, 1, 2, 3])
            else:
                v = self.pointer()
        self.tab[key] = v
        return v

    # -- terms
    def loc(self, l):
        k = l[0]
        if k == 'deref':
            return ('deref', self.go(l[1]))
        if k in ('field', 'idx') and (len(l) < 3 or not isinstance(l[1], tuple)):
            return (k,) + tuple(self.key(x) for x in l[1:])
        if k == 'field':
            return ('field', self.loc(l[1]), l[2])
        if k == 'idx':
            return ('idx', self.loc(l[1])) + tuple(self.go(x) if isinstance(x, tuple) else x for x in l[2:])
        return tuple(self.key(x) for x in l)

    def key(self, x):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            if x[0] in ('deref', 'field', 'idx', 'addr', 'arg', 'local', 'var'):
                return self.loc(x)
            return self.go(x)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def has(self, C, k):
        return self.leaf(('has', C, k), None)

    def val(self, C, k):
        """the value stored under the key in a container with unique keys"""
        return self.leaf(('val', C, k), None)

    def node(self, C, it):
        """(key, value) of the element the iteration `it` of container C looks at"""
        key = self.leaf(('nodekey', C, it), None)
        if C in self.unique:
            h = ('has', C, key)
            if h in self.tab and not self.tab[h]:
                raise Prune
            self.tab[h] = 1
            return key, self.val(C, key)
        return key, self.leaf(('nodeval', C, it), None)

    def element(self, base, i, part):
        """base: the container (loc or value), i: position term"""
        C = container(base)
        if C is None:
            return None
        key = None
        if i[0] == 'nth':
            key, i = self.go(i[1]), i[2]
        if i[0] not in ('it', 'itx') or i[1] not in self.itmap or self.itmap[i[1]][0] != C:
            return None
        k, v = self.node(C, self.itmap[i[1]][1])
        if key is not None and k != key:
            raise Prune
        return k if part == 'first' else v

    def go(self, t):
        k = t[0]
        if k == 'n':
            return t[1]
        if k == 's':
            return t[1] if isinstance(t[1], str) and self.strings else t
        if k == 'cat' and self.strings:
            vs = [self.go(x) for x in (t[1] if len(t) == 2 and isinstance(t[1][0], tuple) else t[1:])]
            vs = [chr(int(x)) if isinstance(x, (int, Fr)) and 0 < x < 256 else x for x in vs]
            if all(isinstance(x, str) for x in vs):
                return ''.join(vs)
        if k == 'call' and self.strings:
            n = str(t[1]).split('<')[0].split('::')[-1]
            if n in ('lexical_cast', 'to_string') and t[2]:
                v = self.go(t[2][-1])
                return str(int(v)) if isinstance(v, (int, Fr)) else v
            if n in ('size', 'length') and len(t[2]) == 1:
                v = self.go(t[2][0])
                if isinstance(v, str):
                    return len(v)
        if self.strings and (k == 'init' and t[1][0] == 'idx' or k == 'sub' and t[2] == 'idx'):
            b, i = (('init', t[1][1]), t[1][2]) if k == 'init' else (t[1], t[3])
            if container(b) is None or container(b) in self.strings:
                v = self.go(b)
                if isinstance(v, str):
                    j = self.go(i)
                    if isinstance(j, (int, Fr)):
                        if not 0 <= j < len(v):
                            raise Prune      # an empty string has no first or last character: not this rule's business
                        return ord(v[int(j)])
        if k == 'void':
            return t
        if k == 'this':
            return SELF
        if k == 'it' and t[1] in self.itval:
            return self.itval[t[1]]
        if k == 'poly':
            acc = 0
            for m, c in t[1]:
                y = c
                for a, e in m:
                    b = self.go(a)
                    if isinstance(b, tuple) or e < 0:
                        return self.leaf(('opq',) + tuple((tuple((self.key(a2), e2) for a2, e2 in m2), c2) for m2, c2 in t[1]), t)
                    y = y * b ** e
                acc = acc + y
            return acc
        if k == 'cmp':
            v = self.strcmp(t)
            if v is not None:
                return v
            v = self.go(t[2])
            if isinstance(v, tuple):
                return self.leaf(('opq', t[1], v), t)
            return int({'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[t[1]])
        if k == 'and':
            return int(all(self.go(x) for x in t[1]))
        if k == 'or':
            return int(any(self.go(x) for x in t[1]))
        if k == 'not':
            return int(not self.go(t[1]))
        if k == 'ite':
            return self.go(t[2]) if self.go(t[1]) else self.go(t[3])
        if k == 'has':
            C = container(t[1])
            if C is None:
                return self.leaf(('has', self.key(t[1]), self.go(t[2])), t)
            return self.has(C, self.go(t[2]))
        if k == 'init':
            l = t[1]
            if l[0] == 'field' and l[2] in ('first', 'second') and l[1][0] == 'idx':
                v = self.element(l[1][1], l[1][2], l[2])
                if v is not None:
                    return v
            if l[0] == 'idx':
                C = container(l[1])
                if C is not None:
                    if l[2][0] == 'nth':
                        v = self.element(l[1], l[2], 'second')
                        if v is not None:
                            return v
                    if l[2][0] not in ('it', 'itx'):
                        return self.val(C, self.go(l[2]))
                    if self.itmap.get(l[2][1], (None,))[0] == C:
                        return self.leaf(('elem',) + self.itmap[l[2][1]], t)
            return self.leaf(('init', self.loc(l)), t)
        if k in ('sub', 'init') and t in self.lists:
            return self.lists[t]
        if k == 'sub' and t[2] == 'field' and t[3] in ('first', 'second') and t[1] in self.lists:
            v = self.lists[t[1]]
            if isinstance(v, tuple) and v and v[0] == 'pair':
                return v[1 if t[3] == 'first' else 2]
        if k == 'pair' and len(t) == 3:
            return ('pair', self.go(t[1]), self.go(t[2]))
        if k in ('call', 'obj') and re.match(r'std::(make_)?pair\b', str(t[1])) and len(t[2]) == 2:
            return ('pair', self.go(t[2][0]), self.go(t[2][1]))
        if k == 'upd' and t[1][0] != 'init' or k == 'upd' and t[1][1][0] == 'tmp':
            fs = {p[-1]: v for p, v in t[2] if len(p) == 2 and p[0] == 'field'}
            if set(fs) == {'first', 'second'}:
                return ('pair', self.go(fs['first']), self.go(fs['second']))
        if k == 'sub':
            b = t[1]
            if t[2] == 'field' and t[3] in ('first', 'second') and b[0] == 'sub' and b[2] == 'idx':
                v = self.element(b[1], b[3], t[3])
                if v is not None:
                    return v
            if t[2] == 'idx':
                C = container(b)
                if C is not None:
                    if t[3][0] == 'nth':
                        v = self.element(b, t[3], 'second')
                        if v is not None:
                            return v
                    if t[3][0] not in ('it', 'itx'):
                        return self.val(C, self.go(t[3]))
        if k == 'call' and str(t[1]).split('::')[-1] == 'size' and len(t[2]) == 1 and t[2][0][0] == 'post' and self.sim:
            try:
                return len(self.sim.listvals(t[2][0]))
            except Lost:
                pass
        if k == 'fn':
            return t
        if k == 'call' and re.match(r'(boost|std)::bind\b', str(t[1])):
            return ('closure',) + tuple(x if x[0] == 'init' and x[1][0] == 'glob' else self.go(x) for x in t[2])
        if k == 'obj' and re.match(r'(boost|std)::function\b', str(t[1])) and t[2]:
            return self.go(t[2][0])
        if k == 'call' and t[1] == 'dyncast' or k == 'dyncast':
            # a successful cast is the same object
            args = t[2] if k == 'call' else t[1:]
            v = self.go(args[-1])
            if v == 0:
                return 0
            return v if self.leaf(('isa', self.key(args[0]), v), None) else 0
        return self.leaf((k,) + tuple(self.key(y) for y in t[1:]), t)

    def strcmp(self, t):
        """comparison of two strings"""
        if not self.strings or t[1] not in ('==', '!=') or t[2][0] != 'poly' or len(t[2][1]) != 2:
            return None
        (m1, c1), (m2, c2) = t[2][1]
        if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1:
            return None
        a, b = self.go(m1[0][0]), self.go(m2[0][0])
        if not isinstance(a, str) or not isinstance(b, str):
            return None
        return int((a == b) == (t[1] == '=='))


def container(x):
    """the data member an iterated container stands for (values of the loop entry included)"""
    while True:
        if x[0] == 'init':
            x = x[1]
        elif x[0] == 'field':
            return x[2] if x[1][0] == 'deref' else None
        elif x[0] in ('lv', 'lvc', 'post') and len(x) >= 3 and isinstance(x[2], tuple):
            x = x[2]
        else:
            return None


def is_guard(f):
    """loop guards compare the iteration with the number of elements"""
    return f[0] == 'cmp' and contains(f, lambda x: x[0] in ('it', 'itx')) and contains(f, lambda x: x[0] == 'mcount' or x[0] == 'call' and str(x[1]).split('::')[-1] in ('size', 'count')) and \
        not contains(f, lambda x: x[0] in ('init', 'sub') and (x[0] == 'sub' or x[1][0] == 'idx' or x[1][0] == 'field' and x[1][2] in ('first', 'second')))


def apply_closure(f, args):
    """(function, arguments) of a call of a bound function value"""
    if f[0] == 'fn':
        return f, args
    if f[0] != 'closure':
        raise Lost('call of an unknown function value')
    out = []
    for x in f[2:]:
        m = re.search(r'_(\d)$', x[1][1]) if isinstance(x, tuple) and x and x[0] == 'init' else None
        if m:
            if int(m.group(1)) > len(args):
                raise Lost('missing argument of a bound function')
            x = args[int(m.group(1)) - 1]
        out.append(x)
    return apply_closure(f[1], tuple(out))


class Lost(Exception):
    """a construct the rule has no summary for"""


class Partial(Exception):
    """a loop that provably leaves out elements"""
    def __init__(self, ev):
        self.ev = ev


def loop_range(I, e):
    """what a loop visits: ('all', C) / ('key', C, k) / ('list', term)"""
    info = I.loops[e.lid]
    n = info.get('count')
    it = ('it', e.lid)
    if n is None:
        for tr in e.traces:
            for f in tr[0]:
                if f[0] == 'cmp' and f[1] in ('!=', '<') and is_guard(f):
                    g = f[2]
                    for c in (g, neg(g)):
                        m = add(c, it)
                        if m[0] in ('call', 'mcount') and not contains(m, lambda x: x == it):
                            n = m
            if n is not None:
                break
    if n is None:
        # left in the first round: only one element is looked at
        if e.traces and all(tr[2][0] not in ('norm', 'cont') for tr in e.traces) and \
                any(contains(f, lambda x: x[0] == 'mcount' and container(x[1]) or x[0] == 'call' and str(x[1]).split('::')[-1] == 'size' and container(x[2][0])) for tr in e.traces for f in tr[0]):
            raise Partial(e)
        # a container that is consumed: while( !c.empty() )
        raise Lost('loop at line %s has no known range' % e.line)
    if n[0] == 'mcount':
        C = container(n[1])
        if C:
            return ('key', C, n[2])
    if n[0] == 'call' and n[1].split('::')[-1] == 'size':
        x = n[2][0]
        C = container(x)
        if C:
            return ('all', C)
        return ('list', x)
    p = topoly(n)
    if p.get((), 0) < 0 and len(p) == 2:
        for m in p:
            if len(m) == 1 and m[0][1] == 1 and p[m] == 1 and (m[0][0][0] == 'mcount' or m[0][0][0] == 'call' and m[0][0][1].split('::')[-1] == 'size'):
                raise Partial(e)
    raise Lost('loop at line %s has no known range' % e.line)


class Sim:
    """the effects of a summary in a world"""

    def __init__(self, I, w, hook):
        self.I, self.w, self.hook = I, w, hook
        self.out = []
        self.pushed = {}     # list variable -> values contributed by the generic elements
        self.found = set()
        self.exits = []

    def prepare(self, evs, facts, depth=None):
        """which generic element every loop looks at"""
        depth = depth or {}
        for e in evs:
            if e.kind != 'loop':
                continue
            try:
                r = loop_range(self.I, e)
            except Lost:
                r = ('?',)
            d = dict(depth)
            if r[0] in ('all', 'key'):
                n = d.get(r[1], 0)
                self.w.itmap[e.lid] = (r[1], n)
                d[r[1]] = n + 1
            elif r[0] == 'list' and r[1][0] in ('post', 'lv') and r[1][1] in self.w.itmap:
                # a list of elements of that container: loops inside look at another element
                C = self.w.itmap[r[1][1]][0]
                d[C] = d.get(C, 0) + 1
            for tr in e.traces:
                self.prepare(tr[1], tr[0], d)

    def run(self, trace):
        self.prepare(trace.events, trace.facts)
        for f in trace.facts:
            contains(f, lambda x: x[0] == 'it' and (self.found.add(x[1]) or False))
        later = [f for f in trace.facts if not is_guard(f) and contains(f, lambda x: x[0] in ('post', 'sub'))]
        for f in trace.facts:
            if not is_guard(f) and f not in later and not self.w.go(f):
                raise Prune
        self.events(trace.events)
        for f in later:
            if not self.w.go(f):
                raise Prune

    def events(self, evs):
        for e in evs:
            if e.kind == 'loop':
                self.loop(e)
            elif e.kind == 'alt':
                continue
            else:
                self.hook(self, e)

    def listvals(self, x):
        """values a list holds for the generic elements"""
        if x[0] in ('post', 'lv') and x[1] in self.I.loops:
            key = x[2]
            return list(self.pushed.get(key, ()))
        if x[0] == 'f' and x[1] == 'zero' or x[0] == 'obj' and not x[-1]:
            return []
        raise Lost('list of unknown content')

    def loop(self, e):
        w = self.w
        if e.lid in self.found:
            return
        try:
            r = loop_range(self.I, e)
        except Lost:
            # a loop without effects the rule is about
            n, p = len(self.out), {k: list(v) for k, v in self.pushed.items()}
            for tr in e.traces:
                self.events(tr[1])
            if len(self.out) != n or self.pushed != p:
                raise
            return
        if r[0] in ('all', 'key') and w.active is not None and r[1] not in w.active:
            return
        if r[0] == 'all':
            self.body(e)
        elif r[0] == 'key':
            k, v = w.node(*w.itmap[e.lid])
            if k == w.go(r[2]):
                self.body(e)
        else:
            for v in self.listvals(r[1]):
                for t in (('sub', r[1], 'idx', ('it', e.lid)),):
                    w.lists[t] = v
                self.body(e)

    def body(self, e):
        w = self.w
        for tr in e.traces:
            fs = [f for f in tr[0] if not is_guard(f) and not contains(f, lambda x: x[0] == 'itx')]
            inner = set(l.lid for l in tr[1] if l.kind == 'loop')
            late = [f for f in fs if inner and contains(f, lambda x: x[0] == 'post' and x[1] in inner)]
            if not all(w.go(f) for f in fs if f not in late):
                continue
            out, pushed = list(self.out), {k: list(v) for k, v in self.pushed.items()}
            leaves = tr[2][0] not in ('norm', 'cont')
            if leaves and not late:
                # the trace we follow was not left from inside this loop: no element took this exit
                raise Prune
            self.events(tr[1])
            if all(w.go(f) for f in late):
                if leaves:
                    raise Prune
                return
            self.out, self.pushed = out, pushed
        raise Prune


def explore(fn, types, unique=(), doms=None, limit=60000):
    """run fn in every world; fn returns None (world does not matter), or a value; yields (world, value)"""
    tape = []
    n = 0
    end = time.time() + SECONDS
    while True:
        n += 1
        if n > limit or n % 50 == 0 and time.time() > end:
            raise Budget
        w = World(tape, types, unique, doms)
        try:
            r = fn(w)
        except Prune:
            r = None
        if r is not None:
            yield w, r
        del tape[w.pos:]
        log = w.log
        while tape and tape[-1] + 1 >= log[len(tape) - 1]:
            tape.pop()
        if not tape:
            return
        tape[-1] += 1


def assume(w, facts):
    for f in facts:
        if not w.go(f):
            raise Prune
