"""ListGrid: singly linked cell lists with back pointers, pool ownership, deep copies.

Local heap reasoning: an operation may assume the list invariant
    every item is stored in exactly one slot (a cell or the next-field of an item) and its
    back pointer names that slot; the last next-field is null
for the initial heap and has to re-establish it for every slot, back pointer and item it touches.
"""
from .lib import *
from . import eqv

CLS = 'envire::ListGrid<vdrv::Payload>'


def deref_ptr(p):
    return p[1] if p[0] == 'addr' else ('deref', p)


def addr(loc):
    return loc[1] if loc[0] == 'deref' else ('addr', loc)


def is_cell(loc, cells=None):
    return loc[0] == 'idx' and loc[1][0] == 'idx' and loc[1][1][0] == 'field' and (cells is None or loc[1][1][2] == cells)


def is_slot(loc):
    return (loc[0] == 'field' and loc[2] == 'next') or is_cell(loc)


def names(ctx):
    """members of the item type: link and back pointer; of the grid: cell array and pool"""
    r = ctx.P.records.get(CLS + '::Item')
    g = ctx.P.records.get(CLS)
    if not r or not g:
        raise AnalysisError('ListGrid instantiation not found')
    nxt = [f['name'] for f in r['fields'] if f['t'].count('*') == 1]
    back = [f['name'] for f in r['fields'] if f['t'].count('*') == 2]
    cells = [f['name'] for f in g['fields'] if 'multi_array' in f['t']]
    pool = [f['name'] for f in g['fields'] if 'pool' in f['t']]
    if not (len(nxt) == len(back) == len(cells) == len(pool) == 1):
        raise AnalysisError('ListGrid members changed: %s %s %s %s' % (nxt, back, cells, pool))
    return nxt[0], back[0], cells[0], pool[0]


def last_iteration(I, facts, memo=None):
    """case split of the facts on how the loops they mention were left:
    without an iteration (post = value before) or after one (post = value at the end of the body)"""
    lids = []

    def p(x):
        if x[0] == 'post' and x[1] not in lids:
            lids.append(x[1])
        return False
    for f in facts:
        contains(f, p)
    cases = [({}, [])]
    for lid in lids:
        info = I.loops[lid]
        new = []
        for m, extra in cases:
            z = dict(m)
            for loc in info['mods']:
                z[('post', lid, loc)] = I.load(info['pre'], loc)
            new.append((z, extra))
            for fs, evs, o, s2 in info['traces']:
                if o[0] != 'norm':
                    continue
                k = dict(m)
                for loc in info['mods']:
                    k[('post', lid, loc)] = I.load(s2, loc)
                first = {('lv', lid, loc): I.load(info['pre'], loc) for loc in info['mods']}
                new.append((k, extra + list(fs) + [sub1(I, f, first) for f in fs]))
        cases = new
    return cases


def sub1(I, t, m):
    return norm(I, subst(t, m))


def norm(I, t):
    """re-project field selections out of substituted records"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x in memo:
            return memo[x]
        if x[0] == 'sub':
            b = go(x[1])
            acc = tuple(go(y) if isinstance(y, tuple) else y for y in x[2:])
            r = I.project(b, acc)
        elif x[0] == 'poly':
            r = ZERO
            for mo, c in x[1]:
                y = ('n', c)
                for a, e in mo:
                    b = go(a)
                    for _ in range(abs(e)):
                        y = mul(y, b if e > 0 else inv(b))
                r = add(r, y)
        elif x[0] == 'cmp':
            p = go(x[2])
            if x[1] in ('==', '!='):
                r = cmp(x[1], p, ZERO, x[3])
            elif p[0] == 'n':
                r = TRUE if {'<': p[1] < 0, '<=': p[1] <= 0}[x[1]] else FALSE
            else:
                r = ('cmp', x[1], p, x[3])
        elif x[0] == 'deref':
            r = deref_ptr(go(x[1]))
        elif x[0] in ('and', 'or'):
            r = (mk_and if x[0] == 'and' else mk_or)([go(y) for y in x[1]])
        elif x[0] == 'not':
            r = negate(go(x[1]))
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return go(t)


class Heap:
    """final slots / back pointers / freed items of one trace"""

    def __init__(self, I, events, st, nxt, back, cells):
        self.I, self.st, self.nxt, self.back, self.cells = I, st, nxt, back, cells
        self.slots, self.backs, self.freed, self.fresh, self.copied = {}, {}, [], [], {}
        self.events = events
        for e in events:
            if e.kind == 'write':
                l = e.loc
                if l[0] == 'field' and l[2] == back:
                    self.backs[l] = e
                elif (l[0] == 'field' and l[2] == nxt) or is_cell(l) or l[0] == 'deref':
                    if l[0] == 'deref' and root(l)[0] != 'deref':
                        continue
                    self.slots.setdefault(l, [e, e.old])[0] = e
            elif e.kind == 'call' and e.n in ('free', 'destroy') and e.args:
                self.freed.append((e.args[0], e))
            elif e.kind == 'call' and e.n in ('malloc', 'construct'):
                self.fresh.append((e.res, e))
                if e.n == 'construct' and e.args:
                    self.copied[e.res] = e.args[0]
            elif e.kind == 'call' and e.n == 'operator=' and e.this is not None and e.this[0] == 'deref':
                self.copied[e.this[1]] = e.args[0]
            elif e.kind == 'new':
                pass

    def final(self, loc):
        return self.I.load(self.st, loc)


def link_rules(ctx, I, fn, events, st, facts, N_, what):
    nxt, back, cells, pool = N_
    H = Heap(I, events, st, nxt, back, cells)
    cases = []
    for m, extra in last_iteration(I, facts):
        fs = [sub1(I, f, m) for f in facts] + extra
        if FALSE in fs or I.F(fs).infeasible([]):
            continue
        cases.append((m, fs))
    key = fn['q'].split('::')[-1]

    def isnull(v):
        """True: null on all cases; False: otherwise"""
        if v == ZERO:
            return True
        return bool(cases) and all(I.entails(fs, cmp('==', sub1(I, v, m), ZERO, True)) for m, fs in cases)

    fresh = [r for r, _ in H.fresh]
    # R1: whoever is stored in a written slot points back to it
    for loc, (e, old0) in H.slots.items():
        v = H.final(loc)
        if isnull(v):
            ctx.ok('slot', where(e), '%s: slot %s becomes empty' % (what, show(loc)))
            continue
        b = H.final(('field', deref_ptr(v), back))
        good = b == addr(loc)
        if not good and b == ('init', ('field', deref_ptr(v), back)) and old0 == v:
            good = True
        if not good and loc[0] == 'deref' and b == loc[1]:
            good = True
        if unknown_ptr(v) and not good:
            good = None
        ctx.check(good, 'slot', where(e), '%s: item %s stored in %s has a back pointer to that slot (it is %s)' % (what, show(v)[:60], show(loc)[:60], show(b)[:60]),
                  '%s:back-pointer' % key)
    # R2: written back pointers name the slot that holds the item
    for loc, e in H.backs.items():
        x = addr(loc[1])
        b = H.final(loc)
        v = H.final(deref_ptr(b))
        good = v == x
        if not good and v == ('init', deref_ptr(b)) and b[0] == 'init' and False:
            good = True
        if contains(b, lambda y: y[0] in ('uninit', 'SUM?')):
            good = None
        ctx.check(good, 'back', where(e), '%s: back pointer of %s names the slot that holds it' % (what, show(x)[:60]), '%s:back-target' % key)
    # R3: nothing falls out of the structure
    kept = {H.final(l) for l in H.slots}
    freed = [f for f, _ in H.freed]
    for loc, (e, old0) in H.slots.items():
        o = old0
        if loc[0] == 'field' and addr(loc[1]) in fresh:
            continue
        if o == H.final(loc) or o in kept or o in freed or isnull(o):
            ctx.ok('keep', where(e), '%s: overwritten slot %s loses no item' % (what, show(loc)[:60]))
            continue
        # *p->pthis holds p
        if o[0] == 'init' and o[1][0] == 'deref' and o[1][1][0] == 'init' and o[1][1][1][0] == 'field' and o[1][1][1][2] == back:
            p = addr(o[1][1][1][1])
            if p in freed or p in kept:
                ctx.ok('keep', where(e), '%s: unlinked item is released' % what)
                continue
            ctx.bad('keep', where(e), '%s: the item removed from its slot is neither freed nor stored elsewhere' % what, key + ':lost-item')
            continue
        if o[0] == 'init' and o[1][0] == 'field' and o[1][2] == nxt and addr(o[1][1]) in freed:
            ctx.bad('keep', where(e), '%s: link of a freed item' % what, key + ':freed-link')
            continue
        verdict = False
        if contains(o, lambda y: y[0] in ('uninit', 'out', 'SUM?', 'lvc')):
            verdict = None
        ctx.check(verdict, 'keep', where(e), '%s: slot %s is overwritten although it may still hold %s' % (what, show(loc)[:60], show(o)[:60]), key + ':lost-item')
    # R4: freed items leave their slot and are not used afterwards
    for f, fe in H.freed:
        if f[0] in ('lv', 'post'):
            continue
        slot = ('deref', ('init', ('field', deref_ptr(f), back)))
        done = slot in H.slots and H.final(slot) != f
        if not done:
            # the item was unlinked through the slot it was read from
            done = any(old0 == f and H.final(l) != f for l, (e, old0) in H.slots.items())
        ctx.check(done, 'free', where(fe), '%s: freed item %s is unlinked from its slot first' % (what, show(f)[:60]), key + ':freed-linked')
    # R5: new items are completely initialised
    for r, e in H.fresh:
        for n in (nxt, back):
            v = H.final(('field', ('deref', r), n))
            done = v != ('init', ('field', ('deref', r), n)) and v[0] != 'sub'
            ctx.check(done, 'fresh', where(e), '%s: %s of the new item is set' % (what, n), '%s:new-item-%s' % (key, n))
        placed = [l for l in H.slots if H.final(l) == r]
        ctx.check(len(placed) == 1, 'fresh', where(e), '%s: the new item is stored in exactly one slot' % what, key + ':new-item-slot')
    use_after_free(ctx, events, key, what)
    return H


def unknown_ptr(v):
    return contains(v, lambda y: y[0] in ('uninit', 'out', 'SUM?', 'lvc'))


def use_after_free(ctx, events, key, what):
    dead = []
    n = 0
    for e in events:
        if e.kind == 'call' and e.n in ('free', 'destroy') and e.args:
            if e.args[0] in dead:
                ctx.bad('free', where(e), '%s: item freed twice' % what, key + ':double-free')
            dead.append(e.args[0])
            n += 1
        elif dead and e.kind == 'deref' and e.get('ptr') in dead:
            ctx.bad('free', where(e), '%s: %s is used after it was freed' % (what, show(e.ptr)[:60]), key + ':use-after-free')
        elif dead and e.kind == 'write' and any(contains(e.loc, lambda x, d=d: x == ('deref', d)) for d in dead):
            ctx.bad('free', where(e), '%s: freed item is written' % what, key + ':use-after-free')
    if n:
        ctx.ok('free', what, 'no use after free on this path')


def rules(ctx):
    ctx.rule('slot', 'an item stored in a slot points back to that slot')
    ctx.rule('back', 'a back pointer names the slot that holds the item')
    ctx.rule('keep', 'an overwritten slot was empty, or its item is stored elsewhere or freed')
    ctx.rule('free', 'items are unlinked before they are freed, freed once and not used afterwards')
    ctx.rule('fresh', 'new items get link, back pointer and payload and are stored in exactly one slot')
    ctx.rule('order', 'insertHead prepends, insertTail appends, erase continues with the following item')
    ctx.rule('iter', 'iteration starts at the cell head, follows the links and ends at null')
    ctx.rule('move', 'move shifts every cell by the given offset and drops exactly what leaves the grid')


def lists(ctx):
    rules(ctx)
    N_ = nxt, back, cells, pool = names(ctx)
    # --- insertions
    for name in ('insertHead', 'insertTail'):
        fn = fn1(ctx, CLS + '::' + name)
        I, tr = run(ctx, fn)
        px, py, pv = [p['name'] for p in fn['params']]
        cell = ('idx', ('idx', fld(cells), ('p', px)), ('p', py))
        for t in tr:
            if t.out != 'ret':
                continue
            H = link_rules(ctx, I, fn, t.events, t.st, t.facts, N_, name)
            if not H.fresh:
                ctx.bad('fresh', loc_of(fn), '%s creates no item on some path' % name, name + ':no-item')
                continue
            r, e = H.fresh[0]
            val = H.copied.get(r)
            src = ('init', ('deref', ('p', pv)))
            ctx.check(True if val is not None and (val == src or contains(val, lambda x: x == src)) else None if val is None and any(x.kind == 'write' and contains(x.val, lambda y: y == src or y == ('p', pv)) for x in t.events) else False,
                      'fresh', where(e), '%s: payload of the new item is the given value' % name, name + ':payload')
            n = H.final(('field', ('deref', r), nxt))
            if name == 'insertHead':
                ctx.check(H.final(cell) == r, 'order', where(e), 'the new item becomes the head of the addressed cell', name + ':head')
                ctx.check(n == ('init', cell), 'order', where(e), 'the previous head follows the new item', name + ':next')
            else:
                ok = n == ZERO
                if not ok:
                    ok = bool(I.entails(t.facts, cmp('==', n, ZERO, True)))
                if not ok:
                    cs = [(m, [sub1(I, f, m) for f in t.facts] + ex) for m, ex in last_iteration(I, t.facts)]
                    cs = [(m, fs) for m, fs in cs if FALSE not in fs and not I.F(fs).infeasible([])]
                    ok = bool(cs) and all(I.entails(fs, cmp('==', sub1(I, n, m), ZERO, True)) for m, fs in cs)
                ctx.check(ok, 'order', where(e), 'the new item is the last one', name + ':next')
                # the list walked is the one of the addressed cell
                others = [l for l in H.slots if is_cell(l) and l != cell]
                ctx.check(not others, 'order', where(e), 'insertTail works on the addressed cell', name + ':cell')
                for le in loops_in(t.events):
                    info = I.loops[le.lid]
                    starts = [I.load(info['pre'], l) for l in info['mods']]
                    cs = [s for s in starts if contains(s, lambda x: is_cell(x))]
                    if cs:
                        ctx.check(all(contains(s, lambda x: x == cell) for s in cs), 'order', where(le), 'the walk starts at the addressed cell', name + ':walk-start')
    # --- erase
    fn = fn1(ctx, CLS + '::erase')
    I, tr = run(ctx, fn)
    pos = fn['params'][0]['name']
    for t in tr:
        if t.out != 'ret':
            continue
        H = link_rules(ctx, I, fn, t.events, t.st, t.facts, N_, 'erase')
        if not H.freed:
            ctx.und('free', loc_of(fn), 'erase releases the item through an unknown call')
        f = H.freed[0][0] if H.freed else None
        v = t.val if not isinstance(t.val, LV) else I.load(t.st, t.val.loc)
        it = item_of(v)
        if f is not None and it is not None:
            want = ('init', ('field', deref_ptr(f), nxt))
            null_ok = it == ZERO and I.entails(t.facts, cmp('==', want, ZERO, True))
            ctx.check(it == want or bool(null_ok), 'order', loc_of(fn), 'erase returns the item after the erased one (%s)' % show(it)[:60], 'erase:result')
        else:
            ctx.und('order', loc_of(fn), 'result of erase not understood')
        if f is not None:
            # the successor is attached to the slot of the erased item
            slot = ('deref', ('init', ('field', deref_ptr(f), back)))
            nv = H.final(slot) if slot in H.slots else None
            want = ('init', ('field', deref_ptr(f), nxt))
            if nv is not None:
                ctx.check(nv == want or (nv == ZERO and bool(I.entails(t.facts, cmp('==', want, ZERO, True)))), 'order', loc_of(fn), 'the successor takes the place of the erased item', 'erase:relink')
    # --- iterators
    n = 0
    for q, fs in ctx.P.byname.items():
        if not q.startswith(CLS + '::iterator_base<'):
            continue
        for f in fs:
            if f.get('implicit') or not f.get('body'):
                continue
            m = f['n']
            if m not in ('increment', 'equal', 'dereference'):
                continue
            I, tr = run(ctx, f)
            n += 1
            itm = [x['name'] for x in ctx.P.records[q.rsplit('::', 1)[0]]['fields']][0]
            cur = ini(itm)
            for t in tr:
                if m == 'increment':
                    ctx.check(I.load(t.st, fld(itm)) == ('init', ('field', deref_ptr(cur), nxt)), 'iter', loc_of(f), 'increment follows the link', 'iterator:increment')
                elif m == 'equal':
                    v = I.rv(t.st, t.val)
                    o = ('init', ('field', ('deref', ('p', f['params'][0]['name'])), itm))
                    ctx.check(v == cmp('==', cur, o, True), 'iter', loc_of(f), 'iterators compare by item', 'iterator:equal')
                else:
                    ctx.check(isinstance(t.val, LV) and t.val.loc == deref_ptr(cur), 'iter', loc_of(f), 'dereference yields the item', 'iterator:dereference')
    for name in ('beginCell', 'endCell'):
        for f in fn1(ctx, CLS + '::' + name, minimum=2):
            I, tr = run(ctx, f)
            for t in tr:
                v = t.val if not isinstance(t.val, LV) else I.load(t.st, t.val.loc)
                it = item_of(v)
                if it is None:
                    ctx.und('iter', loc_of(f), 'result of %s not understood' % name)
                    continue
                if name == 'endCell':
                    ctx.check(it == ZERO, 'iter', loc_of(f), 'the end iterator is null', 'endCell')
                else:
                    a, b = [p['name'] for p in f['params']]
                    ctx.check(it == ('init', ('idx', ('idx', fld(cells), ('p', a)), ('p', b))), 'iter', loc_of(f), 'iteration starts at the head of the addressed cell', 'beginCell')
    ctx.need(n, 'iterator primitives', 3)
    move_rule(ctx, N_)


def item_of(v):
    if v is None:
        return None
    if v[0] == 'upd':
        for a, x in v[2]:
            if a[0] == 'field':
                return x
    if v[0] == 'obj' and len(v) > 2 and isinstance(v[2], tuple) and len(v[2]) == 1:
        return v[2][0]
    return None


def shape_of(t, cells, k):
    """is the term the k-th extent of the cell array"""
    s = show(t)
    return 'shape(' in s and s.endswith('[%d]' % k)


def move_rule(ctx, N_):
    nxt, back, cells, pool = N_
    fn = fn1(ctx, CLS + '::move')
    I, tr = run(ctx, fn)
    a, b = [('p', p['name']) for p in fn['params']]
    ext = {}

    def scan(x):
        if x[0] in ('init', 'idx', 'deref') and ('shape' in show(x)[:12]):
            for k in (0, 1):
                if shape_of(x, cells, k) and x[0] == 'init':
                    ext.setdefault(k, set()).add(x)
        return False
    for t in tr:
        for f in t.facts:
            contains(f, scan)
    if 0 not in ext or 1 not in ext:
        ctx.und('move', loc_of(fn), 'extents of the grid not recognised')
        return
    W, Hh = [sorted(ext[k], key=order)[0] for k in (0, 1)]

    def rng(x):
        if x in ext[0] or x in ext[1]:
            return (1, 5, True)
        if x in (a, b):
            return (-7, 7, True)
        if x[0] == 'it':
            return (-1, 6, True)
        return None
    for t in tr:
        if t.out != 'ret':
            continue
        cleared = any(e.kind == 'delete' for e in t.events) or any(e.kind == 'enter' and e.n == 'clear' for e in t.events)
        loops = [e for e in t.events if e.kind == 'loop']
        if cleared and not loops:
            # dropping everything is right exactly if no cell stays inside
            g = mk_or([cmp('<=', W, ('f', 'abs', (a,)), True), cmp('<=', Hh, ('f', 'abs', (b,)), True)])
            fs = [f for f in t.facts if not contains(f, lambda x: x == ini(pool))]
            w = eqv.witness(I, g, fs, rng)
            ctx.check(w is None, 'move', loc_of(fn), 'everything is dropped only if no cell stays inside the grid', 'move:clear-condition')
            continue
        body = []
        for e, path in walk_events(t.events):
            if e.kind == 'write' and is_cell(e.loc):
                body.append((e, path))
        if not body:
            ctx.check(None if loops or any(e.kind == 'call' for e in t.events) else False, 'move', loc_of(fn), 'a path of move neither clears nor moves cells', 'move:no-move')
            continue
        seen = set()
        for e, path in body:
            if e.val[0] != 'init' or not is_cell(e.val[1]):
                if e.val == ZERO:
                    continue
                ctx.und('move', where(e), 'value moved into a cell not understood: %s' % show(e.val)[:80])
                continue
            dx, dy = e.loc[1][2], e.loc[2]
            sx, sy = e.val[1][1][2], e.val[1][2]
            okd = sub(dx, sx) == a and sub(dy, sy) == b
            known_ = not unknown(dx) and not unknown(sx) and not unknown(dy) and not unknown(sy)
            ctx.check(okd if okd or known_ else None, 'move', where(e), 'cell (%s,%s) moves to (%s,%s)' % (show(sx), show(sy), show(dx), show(dy)), 'move:offset')
            if not okd:
                continue
            inb = [cmp('<=', ZERO, dx, True), cmp('<', dx, W, True), cmp('<=', ZERO, dy, True), cmp('<', dy, Hh, True)]
            fs = [f for f in e.facts if not contains(f, lambda x: x[0] in ('itx', 'last', 'post', 'lv'))]
            pr = I.F(fs)
            if not all(pr.entails(g) for g in inb):
                w = eqv.witness(I, mk_and(inb), fs, rng)
                ctx.check(False if w is not None else None, 'move', where(e), 'destination cell lies inside the grid', 'move:bounds')
            else:
                ctx.ok('move', where(e), 'destination cell lies inside the grid')
            srcb = [cmp('<=', ZERO, sx, True), cmp('<', sx, W, True), cmp('<=', ZERO, sy, True), cmp('<', sy, Hh, True)]
            # innermost loop: paths that do not move the cell
            if path:
                le, bt = path[-1]
                if le.lid in seen:
                    continue
                seen.add(le.lid)
                for bfacts, bevs, o, s2 in le.traces:
                    if o[0] != 'norm':
                        ctx.bad('move', where(le), 'the sweep over the cells is left early', 'move:early-exit') if o[0] == 'break' else None
                        continue
                    moved = any(x.kind == 'write' and is_cell(x.loc) and x.val == ('init', ('idx', ('idx', e.val[1][1][1], sx), sy)) for x in flatten(bevs))
                    if moved:
                        continue
                    srcnull = cmp('==', e.val, ZERO, True)
                    fs = [f for f in bfacts if not contains(f, lambda x: x[0] in ('itx', 'last', 'post', 'lv'))]
                    if srcnull in fs:
                        ctx.ok('move', where(le), 'empty cells need no move')
                        continue
                    w = eqv.witness(I, FALSE, fs + inb + srcb, rng)
                    ctx.check(w is None, 'move', where(le), 'no cell that stays inside the grid is dropped', 'move:dropped-cell')
                # cells visited: all of them
                for p_, k in ((path[-1][0].lid, None), (path[0][0].lid, None)):
                    c = I.loops[p_]['count']
                    if c is None:
                        ctx.und('move', where(le), 'number of visited cells not determined')
                    elif len(path) == 2:
                        want = {('it', p_): None}
                        uses = [d for d in (dx, dy) if contains(d, lambda x: x == ('it', p_))]
                        lim = W if dx in uses else Hh
                        r = eqv.equal(I, c, lim, (), rng)
                        ctx.check(r, 'move', where(le), 'the sweep visits all cells of the grid', 'move:sweep')
            # R1 inside the body
            for bfacts, bevs, o, s2 in (path[-1][0].traces if path else ()):
                if o[0] == 'norm' and any(x is e for x in flatten(bevs)):
                    H = Heap(I, list(flatten(bevs)), s2, nxt, back, cells)
                    v = H.final(e.loc)
                    if I.entails(list(bfacts) + list(e.facts), cmp('==', v, ZERO, True)):
                        ctx.ok('slot', where(e), 'move: empty cell')
                        continue
                    bk = H.final(('field', deref_ptr(v), back))
                    ctx.check(bk == ('addr', e.loc), 'slot', where(e), 'move: the moved head points back to its new cell (it is %s)' % show(bk)[:60], 'move:back-pointer')
        for le in loops_in(t.events):
            for bfacts, bevs, o, s2 in le.traces:
                use_after_free(ctx, list(flatten(bevs)), 'move', 'move')


def storage(ctx):
    ctx.rule('pool', 'the item pool is created by every constructor, released exactly once, and never used uninitialised')
    ctx.rule('dangling', 'when the pool is replaced every cell is emptied before the operation ends')
    ctx.rule('copy', 'assignment copies every cell of the source, in order, into items of the own pool; self assignment changes nothing')
    nxt, back, cells, pool = names(ctx)
    fns = [f for q, fs in ctx.P.byname.items() if q.startswith(CLS + '::') and q.count('::') == CLS.count('::') + 1 for f in fs if not f.get('implicit') and f.get('body')]
    ctors = [f for f in fns if f['kind'] == 'ctor']
    ctx.need(len(ctors), 'ListGrid constructors', 2)
    copies = []
    for f in ctors:
        I, tr = run(ctx, f)
        for t in tr:
            if t.out != 'ret':
                continue
            if any(x[0] == 'cmp' and x[1] == '==' and contains(x, lambda y: y == ('this',)) for x in t.facts):
                continue        # an object under construction is not its own source
            v = I.load(t.st, fld(pool))
            ctx.check(v[0] == 'addr' and v[1][0] == 'heap', 'pool', loc_of(f), 'constructor %s leaves a fresh pool' % f['sig'][:60], 'ctor:pool')
            for e in flatten(t.events):
                if e.kind == 'delete' and e.ptr == ini(pool):
                    ctx.bad('pool', where(e), 'constructor %s releases the uninitialised pool pointer' % f['sig'][:60], 'ctor:uninitialised-pool')
        if not any(True for _ in ()):
            pass
    # copy constructor: a user defined copy that is deep (the implicit one would share the pool)
    cc = [f for f in ctors if len(f['params']) == 1 and 'ListGrid' in f['params'][0]['t']]
    ctx.check(bool(cc), 'copy', loc_of(ctors[0]), 'the grid has a user defined copy constructor', 'copy-ctor:missing')
    dt = [f for f in fns if f['kind'] == 'dtor']
    ctx.check(bool(dt), 'pool', loc_of(ctors[0]), 'the grid has a destructor that releases the pool', 'dtor:missing')
    for f in dt:
        I, tr = run(ctx, f)
        for t in tr:
            dels = [e for e in flatten(t.events) if e.kind == 'delete' and e.ptr == ini(pool)]
            null = cmp('==', ini(pool), ZERO, True) in t.facts
            ctx.check(len(dels) == 1 or (null and not dels), 'pool', loc_of(f), 'the destructor releases the pool once', 'dtor:pool')
    for f in fns:
        if f['kind'] in ('ctor', 'dtor'):
            continue
        I, tr = run(ctx, f)
        for t in tr:
            if t.out != 'ret':
                continue
            evs = list(flatten(t.events))
            dels = [(i, e) for i, e in enumerate(evs) if e.kind == 'delete' and e.ptr == ini(pool)]
            v = I.load(t.st, fld(pool))
            rs = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and e.n in ('resize',) and e.this == fld(cells)]
            if dels:
                ctx.check(len(dels) == 1, 'pool', where(dels[0][1]), '%s releases the pool once' % f['n'], f['n'] + ':double-delete')
                ctx.check(v != ini(pool) and v[0] != 'n', 'pool', where(dels[0][1]), '%s replaces the released pool' % f['n'], f['n'] + ':dangling-pool')
                ctx.check(zeroed(I, evs, cells, dels[0][0]), 'dangling', where(dels[0][1]), '%s empties every cell after releasing the pool' % f['n'], f['n'] + ':dangling-cells')
            elif v != ini(pool):
                null = cmp('==', ini(pool), ZERO, True) in t.facts
                ctx.check(null or f['n'] == 'swap', 'pool', loc_of(f), '%s replaces the pool without releasing it' % f['n'], f['n'] + ':leaked-pool')
            if rs:
                # contents do not survive a reallocation of the cells (back pointers into the old array)
                z = bool(dels) or cmp('==', ini(pool), ZERO, True) in t.facts
                ctx.check(z, 'dangling', where(rs[0][1]), '%s empties the grid when the cell array is reallocated' % f['n'], f['n'] + ':resize-keeps-items')
            if f['n'] == 'clear':
                ctx.check(True if dels or v != ini(pool) or cmp('==', ini(pool), ZERO, True) in t.facts else None, 'pool', loc_of(f), 'clear drops all items', 'clear:keeps-items')
                z = zeroed(I, evs, cells, -1)
                ctx.check(z, 'dangling', loc_of(f), 'clear empties every cell', 'clear:cells')
            if f['n'] == 'resize':
                want = [('p', p['name']) for p in f['params']]
                ok = [e for _, e in rs if extents_args(e.args) == want]
                ctx.check(bool(ok) if rs else None, 'dangling', loc_of(f), 'resize gives the cell array the requested extents', 'resize:extents')
    # assignment -------------------------------------------------------------------------------
    f = fn1(ctx, CLS + '::operator=')
    other = ('p', f['params'][0]['name'])
    oloc = ('deref', other)
    opaque = lambda q: q in (CLS + '::insertTail', CLS + '::insertHead', CLS + '::clear', CLS + '::resize')
    I, tr = run(ctx, f, opaque=opaque)
    self_ = cmp('==', ('this',), other, True)
    n = 0
    for t in tr:
        if t.out != 'ret':
            continue
        evs = list(flatten(t.events))
        if self_ in t.facts:
            eff = [e for e in evs if e.kind in ('write', 'delete', 'new', 'call')]
            ctx.check(not eff, 'copy', loc_of(f), 'self assignment changes nothing', 'operator=:self')
            continue
        n += 1
        guarded = negate(self_) in t.facts
        ctx.check(guarded, 'copy', loc_of(f), 'assignment distinguishes self assignment before it clears', 'operator=:self-unguarded')
        cl = [i for i, e in enumerate(evs) if e.kind in ('call',) and e.n in ('clear', 'resize') and e.this == THIS]
        top = [e for e in t.events]
        icl = [i for i, e in enumerate(top) if e.kind == 'call' and e.n in ('clear', 'resize') and e.this == THIS]
        iloop = [i for i, e in enumerate(top) if e.kind == 'loop']
        ctx.check(bool(icl) and (not iloop or icl[0] < iloop[0]), 'copy', loc_of(f), 'the old content is dropped before copying', 'operator=:not-cleared')
        shaped = [e for e in top if e.kind == 'call' and e.n == 'resize']
        sh = [x for x in t.facts if 'shape' in show(x)]
        eqs = []
        for x in t.facts:
            neg_ = x[0] == 'not'
            y = x[1] if neg_ else x
            if y[0] == 'call' and bname(y[1]) == 'equal':
                eqs.append((neg_, y[2]))
        eqshape = None
        for neg_, a_ in eqs:
            if neg_ or len(a_) != 3:
                continue
            both = {('init', ('field', oloc, cells)), ini(cells)}
            got = {next(iter([z[2][0] for z in subterms(w_) if z and z[0] == 'call' and z[1] == 'shape'] or [None])) for w_ in (a_[0], a_[2])}
            n_ = sub(a_[1], a_[0])
            full = (n_[0] == 'n' and n_[1] >= 2) or (n_[0] == 'call' and bname(n_[1]) == 'num_dimensions')
            eqshape = got == both and full if (n_[0] == 'n' or full) else None
            if eqshape is False and not shaped:
                break
        if any(x[0] == 'cmp' and x[1] == '==' and 'shape' in show(x) for x in t.facts):
            eqshape = eqshape if eqs else None
        ctx.check(True if shaped or eqshape else (None if eqshape is None and sh else False), 'copy', loc_of(f), 'the target gets the extents of the source unless they are equal', 'operator=:shape')
        if shaped:
            i = top.index(shaped[-1])
            ctx.check(not iloop or i < iloop[0], 'copy', loc_of(f), 'extents are adapted before copying', 'operator=:shape-order')
            if shaped[-1].this == fld(cells):
                ctx.check(bool(icl) and max(icl) > -1, 'copy', loc_of(f), 'reallocated cells are emptied', 'operator=:resize-clear')
        ins = [(e, p) for e, p in walk_events(t.events) if e.kind == 'call' and e.n in ('insertTail', 'insertHead')]
        if not ins:
            ctx.check(None if any(e.kind == 'loop' for e in t.events) else False, 'copy', loc_of(f), 'a path of the assignment copies no items', 'operator=:no-copy')
            continue
        for e, path in ins:
            x, y, v = e.args
            if e.n == 'insertHead':
                ctx.bad('copy', where(e), 'copying by insertHead reverses the order of the items of a cell', 'operator=:order')
                continue
            src = None
            for le, bt in reversed(path):
                info = I.loops[le.lid]
                for loc in info['mods']:
                    s = I.load(info['pre'], loc)
                    c = []
                    contains(s, lambda z: (c.append(z) if z[0] == 'init' and is_cell(z[1]) else None) and False)
                    if c:
                        src = c[0][1]
                if src:
                    break
            if src is None:
                ctx.und('copy', where(e), 'source of the copied items not understood')
                continue
            good = src == ('idx', ('idx', ('field', oloc, cells), x), y)
            ctx.check(good, 'copy', where(e), 'items of source cell %s go to the cell with the same indices' % show(src)[:60], 'operator=:cell')
            # all cells are visited
            for idx in (x, y):
                its = [z for z in subterms(idx) if z and z[0] == 'it']
                if len(its) == 1 and idx == its[0]:
                    c = I.loops[its[0][1]]['count']
                    k = 0 if idx == x else 1
                    if c is None:
                        ctx.und('copy', where(e), 'number of copied rows not determined')
                    else:
                        ctx.check('shape' in show(c) and show(c).endswith('[%d]' % k), 'copy', where(e), 'all cells are copied (extent %d: %s)' % (k, show(c)[:60]), 'operator=:sweep')
                else:
                    ctx.und('copy', where(e), 'sweep over the cells not understood')
            # the inner walk ends at null only
            le = path[-1][0]
            for bf, be, o, s2 in le.traces:
                if o[0] == 'break':
                    ctx.bad('copy', where(le), 'the copy of a cell may stop before its last item', 'operator=:early-exit')
    ctx.need(n, 'copying path of ListGrid::operator=')


def extents_args(args):
    out = []

    def scan(l):
        if l and l[0] == 'idx' and len(l) == 3:
            scan(l[1])
            out.append(l[2])
        elif l and l[0] in ('init',):
            scan(l[1])
        elif l and l[0] == 'upd':
            pass
    for a in args:
        if a[0] == 'init':
            scan(a[1])
        elif a[0] == 'sub':
            pass
    return out


def zeroed(I, evs, cells, after):
    """True: every cell is set to null after event index `after`; None: unknown construct touching the cells; False: not"""
    c = fld(cells)
    some = None
    for i, e in enumerate(evs):
        if i <= after:
            continue
        if e.kind == 'call' and e.n == 'memset' and e.args and contains(e.args[0], lambda x: x == c or x == ini(cells)):
            n = e.args[2]
            full = contains(n, lambda x: x[0] == 'call' and x[1] == 'num_elements')
            if e.args[1] == ZERO and full:
                p = topoly(n)
                if len(p) == 1 and list(p.values())[0] >= 8:
                    return True
                return False
            return False if e.args[1] != ZERO or n[0] == 'n' else None
        if e.kind == 'call' and e.n in ('fill', 'fill_n') and any(contains(a, lambda x: x == c or x == ini(cells)) for a in e.args):
            return True if e.args[-1] == ZERO else False
        if e.kind == 'write' and e.loc == c:
            some = True if e.val[0] in ('obj', 'filled') else None
            if some:
                return True
        if e.kind == 'write' and is_cell(e.loc, cells) and e.val == ZERO and contains(e.loc, lambda x: x[0] == 'it'):
            its = [x for x in (e.loc[1][2], e.loc[2]) if x[0] == 'it']
            if len(its) == 2 and all('shape' in show(I.loops[x[1]]['count'] or ('s', '')) for x in its):
                return True
            some = 'und'
        if e.kind == 'write' and e.val == ZERO and contains(e.loc, lambda x: x[0] == 'call' and x[1].split('::')[-1] in ('origin', 'data')):
            some = 'und'
            it = [x for x in subterms(e.loc) if x and x[0] == 'it']
            if len(it) == 1:
                cn = I.loops[it[0][1]]['count']
                if cn is not None and contains(cn, lambda x: x[0] == 'call' and x[1] == 'num_elements'):
                    return True
        if e.kind == 'call' and e.this == c and e.n in ('assign',):
            return True
    if some == 'und':
        return None
    return False


lists = units(*TOOLS)(lists)
storage = units(*TOOLS)(storage)
PROPS = {'L01': lists, 'L02': storage}
