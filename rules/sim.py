"""Evaluation of path summaries on small abstract inputs.

A summary is a trace of the abstract interpretation: facts, effects and loops whose bodies are again summaries
over the values at the beginning of an iteration.  Given an interpretation of the leaves (parameters, members,
results of functions that are not looked into) a summary can be evaluated; loops are unrolled over the abstract input.
Rules quantify over all abstract inputs up to a bound that covers every way the elements can interact.
"""
from engine.terms import *
from engine.absint import *
from .worlds import Lost, Prune


class Choose(Exception):
    """a value the abstract input leaves open; the evaluation is repeated for every value of the domain"""

    def __init__(self, t, dom):
        self.t, self.dom = t, dom


class Eval:
    """leaf(t) -> value, raising Lost for what has no interpretation; hook(self, e) sees the effects in order"""

    def __init__(self, I, leaf, hook, limit=64):
        self.I, self.leaf, self.hook, self.limit = I, leaf, hook, limit
        self.env = {}
        self.out = []
        self.chosen = {}
        self.free = None

    def ev(self, t):
        k = t[0]
        if k == 'n':
            return t[1]
        if t in self.env:
            return self.env[t]
        r = self.leaf(self, t)
        if r is not None:
            return r
        if k == 'poly':
            acc = 0
            for m, c in t[1]:
                y = c
                for a, e in m:
                    v = self.ev(a)
                    if not isinstance(v, (int, Fr, bool)):
                        return self.compare(t)
                    y = y * (v ** e if e >= 0 else Fr(1) / v ** -e)
                acc += y
            return acc
        if k == 'cmp':
            v = self.ev(t[2])
            if isinstance(v, tuple) and v[0] == 'diff':
                if t[1] not in ('==', '!='):
                    raise Lost('order of values that are only compared')
                return int((v[1] == v[2]) == (t[1] == '=='))
            if not isinstance(v, (int, Fr, bool)):
                if t[1] in ('==', '!='):
                    return int((v == 0) == (t[1] == '=='))
                raise Lost('comparison of ' + show(t)[:60])
            return int({'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[t[1]])
        if k == 'and':
            return int(all(self.ev(x) for x in t[1]))
        if k == 'or':
            return int(any(self.ev(x) for x in t[1]))
        if k == 'not':
            return int(not self.ev(t[1]))
        if k == 'ite':
            return self.ev(t[2]) if self.ev(t[1]) else self.ev(t[3])
        if k == 'sum' and t[2][0] == 'n' and ('itx', t[1]) in self.env:
            return t[2][1] * self.env[('itx', t[1])]
        if k == 'f' and t[1] in ('min', 'max') and len(t[2]) == 2:
            a, b = [self.ev(x) for x in t[2]]
            if not all(isinstance(x, (int, Fr)) for x in (a, b)):
                raise Lost(t[1])
            return min(a, b) if t[1] == 'min' else max(a, b)
        if k == 'f' and t[1] in ('abs', 'fabs') and len(t[2]) == 1:
            v = self.ev(t[2][0])
            if isinstance(v, (int, Fr)):
                return abs(v)
        if k == 'sub' and t[2] == 'field' and t[1][0] == 'upd':
            for path, v in reversed(t[1][2]):
                if path in (('field', t[3]), (('field', t[3]),)):
                    return self.ev(v)
            return self.ev(('sub', t[1][1], 'field', t[3]) if t[1][1][0] != 'init' else ('init', ('field', t[1][1][1], t[3])))
        if t in self.chosen:
            return self.chosen[t]
        d = self.free(self, t) if self.free else None
        if d:
            raise Choose(t, d)
        raise Lost('no meaning for ' + show(t)[:80])

    def compare(self, t):
        """a difference of two symbolic values"""
        if len(t[1]) == 2:
            (m1, c1), (m2, c2) = t[1]
            if c1 + c2 == 0 and abs(c1) == 1 and len(m1) == 1 and len(m2) == 1:
                return ('diff', self.ev(m1[0][0]), self.ev(m2[0][0]))
        raise Lost('arithmetic on ' + show(t)[:60])

    def run(self, trace):
        """True if the trace is the one taken on this input"""
        self.events(trace.events)
        return self.holds(trace.facts)

    def holds(self, facts):
        lost = None
        for f in facts:
            try:
                if not self.ev(f):
                    return False
            except Lost as x:
                lost = lost or x
        if lost:
            raise lost
        return True

    def events(self, evs):
        for e in evs:
            if e.kind == 'loop':
                self.loop(e)
            elif e.kind == 'alt':
                continue
            else:
                self.hook(self, e)

    def loop(self, e):
        I, lid = self.I, e.lid
        info = I.loops[lid]
        mods = [l for l in info['mods']]
        state = {}

        def entry(l):
            try:
                return self.ev(I.load(info['pre'], l))
            except Lost:
                return None
        for l in mods:
            state[l] = entry(l)
        n = 0
        outer = set(self.env)
        while True:
            if n > self.limit:
                raise Lost('loop does not end on the abstract input')
            keep = dict(self.env)
            for l, v in state.items():
                if v is not None:
                    self.env[('lv', lid, l)] = v
            self.env[('it', lid)] = n
            self.env[('itx', lid)] = n
            for k in [k for k in self.env if k[0] == 'post' and k[1] != lid and k not in keep]:
                del self.env[k]
            taken = None
            self.iteration(lid, outer)
            base, outn = dict(self.env), len(self.out)
            lost = None
            # the facts of a round that goes on may have been merged, those of a round that leaves are complete
            for tr in sorted(e.traces, key=lambda x: x[2][0] in ('norm', 'cont')) if self.exits_first else e.traces:
                self.env = dict(base)
                inner = any(x.kind == 'loop' for x in tr[1])
                if self.late and not inner:
                    # facts about what the effects of the round return: look at them after the effects
                    mark = self.save()
                    left = []
                    try:
                        for f in tr[0]:
                            try:
                                if not self.ev(f):
                                    raise Prune()
                            except Lost:
                                left.append(f)
                    except Prune:
                        continue
                    if left:
                        try:
                            self.after_effects = True
                            self.events(tr[1])
                            self.after_effects = True
                            if self.holds(left):
                                taken = tr
                                break
                        except Lost as x:
                            lost = x
                        finally:
                            self.after_effects = False
                        self.restore(mark)
                        continue
                if not inner and not self.late and not self.holds(tr[0]):
                    continue
                if inner:
                    pre = [f for f in tr[0] if not contains(f, lambda x: x[0] in ('post', 'itx', 'it') and x[1] != lid)]
                    if not self.holds(pre):
                        continue
                self.events(tr[1])
                if inner and not self.holds(tr[0]):
                    del self.out[outn:]
                    continue
                taken = tr
                break
            if taken is None:
                if lost:
                    raise lost
                self.env = base
                break
            if taken[2][0] not in ('norm', 'cont'):
                # the exiting round is repeated after the loop in the trace that takes it
                del self.out[outn:]
                for l, v in state.items():
                    if v is not None:
                        self.env[('lv', lid, l)] = v
                return
            new = {}
            for l in mods:
                try:
                    new[l] = self.ev(I.load(taken[3], l))
                except Lost:
                    new[l] = None
            new = self.after(lid, taken, state, new)
            state = new
            self.env = {k: v for k, v in self.env.items() if k in keep or k[0] != 'lv'}
            n += 1
        for l, v in state.items():
            if v is not None:
                self.env[('post', lid, l)] = v
        self.env[('itx', lid)] = n

    late = False
    exits_first = False
    after_effects = False

    def iteration(self, lid, keep):
        pass

    def save(self):
        return None

    def restore(self, mark):
        pass

    def after(self, lid, taken, old, new):
        return new


def product(*doms):
    if not doms:
        yield ()
        return
    for x in doms[0]:
        for r in product(*doms[1:]):
            yield (x,) + r
