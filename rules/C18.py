"""Temporal reasoning: the network, the propagator that mirrors the constraints in it, and the temporal queries."""
import itertools, os, random
from rules.tnlib import *
MODULES = ['TemporalNetwork', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['networks of up to four time points; that incremental propagation is exact on every larger network is not decided',
               'the constraint engine tells the propagator about every added, removed, activated or deactivated constraint and about every changed domain (C01, C02)']


def run(ck):
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('bounds', 'after any series of added, narrowed and removed temporal constraints each time point has exactly the bounds its shortest paths give, and the network is inconsistent exactly when there is a negative cycle', 4),
        ('changed', 'every time point whose bounds become tighter is reported as updated', 2),
        ('distance', 'distances between time points are those of the shortest paths; asking leaves the bounds as they are', 5),
        ('mirror', 'after propagation every time variable has the bounds that the active temporal constraints and its own domain give; those of deactivated and deleted constraints no longer count', 6),
        ('distvar', 'the distance of a temporal constraint, and the duration of a token, are narrowed to what the bounds of their time points allow', 2),
        ('violation', 'an inconsistent network empties a variable, or, when violations are allowed, marks constraints that contradict each other as violated', 2),
        ('pending', 'the propagator asks for an update exactly when something changed since the last one, and knows the latest cycle in which constraints were taken back', 2),
        ('answers', 'precedence, concurrency and fit are answered from the distances', 6),
        ('advisor', 'the temporal advisor answers from the propagator about the right time points', 6))}
    networks(ck, r)
    mirror(ck, r)
    answers(ck, r)
    advisor(ck, r)


def fin(x):
    return MINF if x <= NEG else PINF if x >= POS else x


def tighter(a, b):
    return a[0] > b[0] or a[1] < b[1]


def want_bounds(d, i):
    return -d[i][0], d[0][i]


def networks(ck, r):
    rnd = random.Random(5)
    bad, n = {}, 0

    def note(k, text):
        bad.setdefault(k, text)
    plans = []
    # systematic: two constraints and what is then taken back or narrowed
    for lb, ub in ((3, 5), (NEG, 4), (2, POS), (0, 0), (-4, -2)):
        plans.append([('add', 0, 1, 0, 10), ('add', 0, 2, 0, 10), ('add', 1, 2, lb, ub), ('rem', 2, True)])
        plans.append([('add', 1, 2, lb, ub), ('add', 0, 1, 1, 6), ('nar', 0, max(lb, 3) if ub >= 3 else lb, min(ub, 4)), ('rem', 1, True), ('rem', 0, True)])
    plans.append([('add', 0, 1, 0, 10), ('add', 0, 1, 2, 7), ('rem', 1, True), ('add', 0, 1, 2, 7), ('rem', 0, True), ('rem', 3 - 1, True)])
    plans.append([('add', 1, 2, 1, POS), ('add', 2, 3, 1, POS), ('add', 3, 1, 1, POS), ('rem', 1, True), ('add', 0, 3, 4, 9)])
    plans.append([('add', 0, 1, 5, 5), ('add', 1, 2, 0, 0), ('add', 2, 3, 0, 0), ('rem', 1, True), ('add', 0, 2, 1, 2)])
    plans.append([('add', 0, 1, 0, 9), ('add', 1, 2, 2, 3), ('add', 0, 2, 1, 20), ('del', 1)])
    for _ in range(14 if os.environ.get('VERIF_TIER') != 'thorough' else 120):
        p, live = [], 0
        for k in range(6):
            if live and rnd.random() < .35:
                p.append(('rem', rnd.randrange(k), True))
            else:
                a, b = rnd.sample(range(4), 2)
                lb = rnd.choice([NEG, -3, 0, 1, 2, 4])
                p.append(('add', a, b, lb, rnd.choice([x for x in (POS, 5, 7, 4) if x >= lb])))
                live += 1
        plans.append(p)
    for p in plans:
        net = Net(ck)
        cons, prev = [], None
        for op in p:
            if op[0] == 'add':
                o = net.do('addTemporalConstraint', net.pt[op[1]], net.pt[op[2]], K(op[3]), K(op[4]), K(True))
                cons.append([o, op[1:]])
            elif op[0] == 'rem':
                if op[1] >= len(cons) or cons[op[1]][1] is None:
                    continue
                net.do('removeTemporalConstraint', cons[op[1]][0], K(op[2]))
                cons[op[1]][1] = None
            elif op[0] == 'nar':
                net.do('narrowTemporalConstraint', cons[op[1]][0], K(op[2]), K(op[3]))
                a, b, lb, ub = cons[op[1]][1]
                cons[op[1]][1] = (a, b, max(lb, op[2]), min(ub, op[3]))
            elif op[0] == 'del':
                for c in cons:
                    if c[1] and op[1] in c[1][:2]:
                        net.do('removeTemporalConstraint', c[0], K(True))
                        c[1] = None
                net.do('deleteTimepoint', net.pt[op[1]])
                net.pt[op[1]] = None
            kind = {'add': 'adding', 'rem': 'removing', 'nar': 'narrowing', 'del': 'deleting'}[op[0]]
            f = net.fn
            text = '%s after %s' % (kind, said(p[:p.index(op) + 1]))
            n += 1
            d = shortest(3, [c[1] for c in cons if c[1]])
            net.do('propagate')
            ok = truth(net, 'isConsistent') if [x for x in ck.P.byq.get('TemporalNetwork::isConsistent', []) if not x['p']] else None
            for i in (1, 2, 3):
                if net.pt[i] is None:
                    continue
                got, want = net.bounds(i), (2, -2) if d is None else want_bounds(d, i)
                if d is None and got[0] is not None and got[1] is not None and got[0] > got[1]:
                    continue
                if got != want:
                    note(('bounds', kind), '%s: time point %d has the bounds %s, expected %s' % (text, i, got, want if d else 'empty ones'))
            up = net.list('this.m_updatedTimepoints')
            if up is not None and d is not None and prev is not None:
                for i in (1, 2, 3):
                    if net.pt[i] is not None and tighter(want_bounds(d, i), want_bounds(prev, i)) and vs(net.pt[i]) not in up:
                        note(('changed', kind), '%s: time point %d changed its bounds but is not reported as updated' % (text, i))
            net.do('resetUpdatedTimepoints')
            prev = d
            if d is None:
                continue
            if op is p[-1]:
                queries(net, d, text, note)
    ck.counters['network steps'] = n
    T = lambda nm: ck.P.byq['TemporalNetwork::' + nm][0]
    for kind, nm in (('adding', 'addTemporalConstraint'), ('removing', 'removeTemporalConstraint'), ('narrowing', 'narrowTemporalConstraint'), ('deleting', 'deleteTimepoint')):
        b = bad.get(('bounds', kind))
        ck.ob(r['bounds'], kind, b is None, b or '', ck.where(T(nm)))
    for kind, nm in (('adding', 'addTemporalConstraint'), ('removing', 'removeTemporalConstraint')):
        b = bad.get(('changed', kind))
        ck.ob(r['changed'], kind, b is None, b or '', ck.where(T(nm)))
    for k, nm in (('pair', 'calcDistanceBounds'), ('several', 'calcDistanceBounds'), ('signs', 'calcDistanceSigns'), ('less', 'isDistanceLessThan'), ('kept', 'calcDistanceBounds')):
        b = bad.get(('distance', k))
        ck.ob(r['distance'], k, b is None, b or '', ck.where((ck.P.byq.get('TemporalNetwork::' + nm) or ck.P.byq['DistanceGraph::' + nm])[0]))


def truth(net, name):
    v = net.do(name)
    return v[1] if v is not None and v[0] == 'k' else None


def said(p):
    f = lambda x: '-inf' if x in (NEG, MINF) else 'inf' if x in (POS, PINF) else str(x)
    out = []
    for op in p:
        if op[0] == 'add':
            out.append('%d to %d [%s %s]' % (op[1], op[2], f(op[3]), f(op[4])))
        elif op[0] == 'nar':
            out.append('number %d narrowed to [%s %s]' % (op[1] + 1, f(op[2]), f(op[3])))
        else:
            out.append('%s %d %s' % ('number' if op[0] == 'rem' else 'point', op[1] + (op[0] == 'rem'), 'removed' if op[0] == 'rem' else 'deleted'))
    return ', '.join(out)


def queries(net, d, text, note):
    pts = [i for i in range(4) if net.pt[i] is not None]
    before = [net.bounds(i) for i in pts if i]
    for i in pts:
        for j in pts:
            if i == j:
                continue
            net.do('calcDistanceBounds', net.pt[i], net.pt[j], ('ref', '#lb'), ('ref', '#ub'), K(True))
            got, want = (net.out('#lb'), net.out('#ub')), (-d[j][i], d[i][j])
            if got != want:
                note(('distance', 'pair'), '%s: distance from %d to %d is %s, expected %s' % (text, i, j, got, want))
    for i in pts:
        tg = [j for j in pts if j != i]
        for s in net.st:
            s.conts['#targets'] = (tuple(net.pt[j] for j in tg), True)
            s.conts['#lbs'] = s.conts['#ubs'] = ((), True)
        net.do('calcDistanceBounds', net.pt[i], S('#targets'), S('#lbs'), S('#ubs'))
        got = net.nums('#lbs'), net.nums('#ubs')
        want = [-d[j][i] for j in tg], [d[i][j] for j in tg]
        if got != want:
            note(('distance', 'several'), '%s: distances from %d to %s are %s, expected %s' % (text, i, tg, got, want))
        for s in net.st:
            s.conts['#targets'] = (tuple(net.pt[j] for j in tg), True)
            s.conts['#lbs'] = s.conts['#ubs'] = ((), True)
        net.do('calcDistanceSigns', net.pt[i], S('#targets'), S('#lbs'), S('#ubs'))
        sg = lambda xs: None if xs is None else [(x > 0) - (x < 0) for x in xs]
        got = sg(net.nums('#lbs')), sg(net.nums('#ubs'))
        if got != (sg(want[0]), sg(want[1])):
            note(('distance', 'signs'), '%s: signs of the distances from %d to %s are %s, expected %s' % (text, i, tg, got, (sg(want[0]), sg(want[1]))))
        for j in tg:
            for b in (-2, 0, 3):
                v = net.do('isDistanceLessThan', net.pt[i], net.pt[j], K(b))
                if v is None or v[0] != 'k' or bool(v[1]) != (d[i][j] < b):
                    note(('distance', 'less'), '%s: whether the distance from %d to %d (%s) is less than %s is answered %s' % (text, i, j, d[i][j], b, v and v[1]))
    after = [net.bounds(i) for i in pts if i]
    if after != before:
        note(('distance', 'kept'), '%s: the bounds change from %s to %s by asking for distances' % (text, before, after))


# ---------------------------------------------------------------- the propagator
class World:
    """the constraint network as its engine sees it, and the propagator told about every change"""
    KINDS = {'concurrent': (0, 0), 'precedes': (0, POS), 'before': (0, POS), 'strictlyPrecedes': (1, POS)}

    def __init__(self, ck, doms, allow=False, tokens=None):
        self.P = Prop(ck, doms, allow, tokens)
        self.base = dict(doms)
        self.alive, self.active, self.times = {}, set(), [v for v in doms if v[0] != 'd']
        self.log, self.relaxed, self.dead = [], False, False

    def tell(self, name, *args):
        self.P.call(name, *args)
        return bool(self.P.st)

    def component(self, vs_):
        c = set(vs_)
        while True:
            n = {v for s in self.alive for v in self.alive[s][1] if self.P.scope[s] and set(self.P.scope[s]) & c and s in self.active} | c
            if n == c:
                return c
            c = n

    def notify(self, v, kind='RELAXED'):
        for c in sorted(self.active):
            if v in self.P.scope[c]:
                self.P.call('handleNotification', S(v), K(self.P.scope[c].index(v)), S(c), K('enum:DomainListener::' + kind))

    def relax(self, comp):
        for v in sorted(comp):
            if v in self.P.inactive:
                continue
            self.P.set(v, self.base[v])
        for v in sorted(comp):
            if v not in self.P.inactive:
                self.notify(v)

    def do(self, op):
        self.log.append(op)
        k, a = op[0], op[1:]
        self.relaxed = False
        if k == 'add':
            c, name, scope = a
            self.P.con(c, name, scope)
            self.alive[c] = (name, scope)
            self.tell('handleConstraintAdded', S(c))
            self.active.add(c)
        elif k == 'remove':
            comp = self.component(self.alive[a[0]][1]) if a[0] in self.active else set(self.alive[a[0]][1])
            self.tell('handleConstraintRemoved', S(a[0]))
            was = a[0] in self.active
            self.active.discard(a[0])
            del self.alive[a[0]]
            self.relaxed = was
            self.relax(comp)
        elif k == 'off':
            self.P.inactive.add(a[0])
            self.tell('handleConstraintDeactivated', S(a[0]))
            self.active.discard(a[0])
        elif k == 'on':
            self.P.inactive.discard(a[0])
            self.active.add(a[0])
            self.tell('handleConstraintActivated', S(a[0]))
        elif k == 'voff':
            for c in [c for c in sorted(self.active) if a[0] in self.P.scope[c]]:
                self.do(('off', c))
                self.log.pop()
            self.P.inactive.add(a[0])
            self.tell('handleVariableDeactivated', S(a[0]))
        elif k == 'von':
            self.P.inactive.discard(a[0])
            for c in [c for c in sorted(self.alive) if a[0] in self.P.scope[c] and c not in self.active and not set(self.P.scope[c]) & self.P.inactive]:
                self.do(('on', c))
                self.log.pop()
        elif k == 'restrict':
            self.base[a[0]] = a[1]
            d = self.P.dom(a[0])
            self.P.set(a[0], (max(d[0], a[1][0]), min(d[1], a[1][1])))
            self.notify(a[0], 'RESET')
        elif k == 'relax':
            self.base[a[0]] = a[1]
            self.relax(self.component([a[0]]))
            self.relaxed = True

    def text(self):
        f = lambda x: '-inf' if x == MINF else 'inf' if x == PINF else str(x)
        t = {'add': lambda a: '%s %s' % (a[1], ' '.join(a[2])), 'remove': lambda a: '%s deleted' % a[0], 'off': lambda a: '%s deactivated' % a[0], 'on': lambda a: '%s activated' % a[0],
             'voff': lambda a: '%s deactivated' % a[0], 'von': lambda a: '%s activated' % a[0], 'restrict': lambda a: '%s restricted to [%s %s]' % (a[0], f(a[1][0]), f(a[1][1])),
             'relax': lambda a: '%s set back to [%s %s]' % (a[0], f(a[1][0]), f(a[1][1]))}
        return ', '.join(t[o[0]](o[1:]) for o in self.log)

    def expect(self):
        """bounds of the time variables that active constraints mention; None when contradictory"""
        ts = sorted({v for c in self.active for v in self.P.scope[c] if v in self.times})
        ix = {v: i + 1 for i, v in enumerate(ts)}
        cons = []
        for v in ts:
            lb, ub = self.P.dom(v)
            cons.append((0, ix[v], lb if lb > MINF else NEG, ub if ub < PINF else POS))
        for c in self.active:
            s = self.P.scope[c]
            if len(s) == 3:
                lb, ub = self.P.dom(s[1])
                lb, ub = (lb if lb > MINF else NEG), (ub if ub < PINF else POS)
            else:
                lb, ub = self.KINDS[self.P.name[c]]
            cons.append((ix[s[0]], ix[s[-1]], lb, ub))
        d = shortest(len(ts), cons)
        if d is None:
            return None
        return {v: (fin(-d[ix[v]][0]), fin(d[0][ix[v]])) for v in ts}

    def propagate(self):
        """execute until nothing is pending, telling the propagator about the domains it changed itself"""
        for _ in range(5):
            for s in self.P.st:
                s.trace = ()
            self.P.call('execute')
            if len(self.P.st) != 1:
                return 'the propagation has no single outcome' if self.P.st else 'the propagation fails'
            s = self.P.st[0]
            ch = [t[1] for t in s.trace if t[0] == 'dom']
            self.said = [t for t in s.trace if t[0] != 'dom']
            if s.store.get('#empty'):
                return None
            for v in dict.fromkeys(ch):
                self.notify(v, 'BOUNDS_RESTRICTED')
            if not ch:
                return None
        return 'the propagation does not come to rest'


def required(w):
    v = w.P.call('updateRequired')
    return v[1] if v is not None and v[0] == 'k' else None


DOMS = {'v0': (0, 10), 'v1': (5, 20), 'v2': (0, 30), 'd0': (2, 4)}
WIDE = {'v0': (MINF, PINF), 'v1': (0, PINF), 'v2': (0, 30), 'd0': (1, PINF)}


def plans(ck):
    out = []
    for k in World.KINDS:
        out.append((DOMS, [('add', 'c0', k, ['v0', 'v1']), ('add', 'c1', k, ['v1', 'v2']), ('remove', 'c0'), ('off', 'c1'), ('on', 'c1')]))
        out.append((WIDE, [('add', 'c0', k, ['v0', 'v1']), ('restrict', 'v1', (4, 7)), ('off', 'c0'), ('on', 'c0'), ('relax', 'v1', (0, 25))]))
    for D in (DOMS, WIDE):
        for k in ('temporalDistance', 'temporaldistance'):
            out.append((D, [('add', 'c0', k, ['v0', 'd0', 'v2']), ('restrict', 'd0', (3, 3)), ('add', 'c1', 'precedes', ['v1', 'v0']), ('relax', 'd0', (1, 6)), ('remove', 'c1'), ('restrict', 'v2', (6, 8))]))
        out.append((D, [('add', 'c0', 'concurrent', ['v0', 'v1']), ('add', 'c1', 'precedes', ['v0', 'v2']), ('voff', 'v1'), ('remove', 'c1'), ('von', 'v1'), ('remove', 'c0')]))
        out.append((D, [('add', 'c0', 'concurrent', ['v0', 'v1']), ('voff', 'v1'), ('remove', 'c0'), ('add', 'c1', 'before', ['v2', 'v0'])]))
        out.append((D, [('add', 'c0', 'precedes', ['v0', 'v1']), ('add', 'c1', 'precedes', ['v0', 'v1']), ('remove', 'c0'), ('restrict', 'v1', (5, 6)), ('remove', 'c1')]))
    rnd = random.Random(9)
    for _ in range(6 if os.environ.get('VERIF_TIER') != 'thorough' else 60):
        p, live, off, n = [], [], [], 0
        for _ in range(6):
            x = rnd.random()
            if live and x < .2:
                c = rnd.choice(live)
                live.remove(c)
                p.append(('remove', c))
            elif live and x < .35:
                c = rnd.choice(live)
                live.remove(c)
                off.append(c)
                p.append(('off', c))
            elif off and x < .5:
                c = rnd.choice(off)
                off.remove(c)
                live.append(c)
                p.append(('on', c))
            else:
                a, b = rnd.sample(['v0', 'v1', 'v2'], 2)
                k = rnd.choice(list(World.KINDS) + ['temporalDistance'])
                c = 'c%d' % n
                n += 1
                live.append(c)
                p.append(('add', c, k, [a, 'd0', b] if k == 'temporalDistance' else [a, b]))
        out.append((rnd.choice([DOMS, WIDE]), p))
    return out


def mirror(ck, r):
    bad, n = {}, 0
    note = lambda k, t: bad.setdefault(k, t)
    for doms, p in plans(ck):
        for lag in (1, 2):
            w = World(ck, doms)
            t0 = 0
            for i, op in enumerate(p):
                took = set()
                w.do(op)
                if w.relaxed:
                    took.add(op[0])
                t0 = t0 or w.relaxed
                if not w.P.st:
                    note(('mirror', op[0]), '%s: fails' % w.text())
                    break
                if (i + 1) % lag and i + 1 < len(p):
                    continue
                n += 1
                if w.active and op[0] in ('add', 'on', 'restrict') and (op[0] != 'restrict' or any(op[1] in w.P.scope[c] for c in w.active)) and required(w) is not True:
                    note(('pending', 'asked'), '%s: no update is asked for' % w.text())
                before = {v: w.P.dom(v) for v in doms}
                want = w.expect()
                for s in w.P.st:
                    s.store['this.m_mostRecentRepropagation'] = K(1)
                err = w.propagate()
                if err:
                    note(('mirror', op[0]), '%s: %s' % (w.text(), err))
                    break
                if t0:
                    v = w.P.call('mostRecentRepropagation')
                    if want is not None and v != K(7):
                        note(('pending', 'cycle'), '%s: the latest cycle in which constraints were taken back is answered %s' % (w.text(), v and v[1]))
                t0 = 0
                emp = bool(w.P.st[0].store.get('#empty'))
                if want is None:
                    if not emp:
                        note(('violation', 'emptied'), '%s: contradictory, but no variable is emptied' % w.text())
                    break
                if emp:
                    note(('mirror', op[0]), '%s: a variable is emptied although nothing contradicts' % w.text())
                    break
                if required(w) is not False:
                    note(('pending', 'asked'), '%s: an update is still asked for after the propagation' % w.text())
                for v in w.times:
                    x = want.get(v, before[v])
                    if w.P.dom(v) != x:
                        note(('mirror', op[0]), '%s: %s has the bounds %s, expected %s' % (w.text(), v, w.P.dom(v), x))
                ds = [c for c in sorted(w.active) if len(w.P.scope[c]) == 3]
                lo, hi = before.get('d0', (0, 0))
                for c in ds:
                    s, t = (w.P.dom(w.P.scope[c][j]) for j in (0, 2))
                    if MINF < s[0] and s[1] < PINF and MINF < t[0] and t[1] < PINF:
                        lo, hi = max(lo, t[0] - s[1]), min(hi, t[1] - s[0])
                if len(ds) == 1 and w.P.dom('d0') != (lo, hi) or not ds and w.P.dom('d0') != before['d0']:
                    note(('distvar', 'narrowed'), '%s: the distance is %s, expected %s' % (w.text(), w.P.dom('d0'), (lo, hi)))
    # the duration of a token follows the bounds of its start and end
    b = None
    for end in (('add', 'c0', 'precedes', ['v0', 'v1']), ('add', 'c0', 'concurrent', ['v2', 'v1']), ('add', 'c0', 'concurrent', ['v0', 'v2']), ('add', 'c0', 'strictlyPrecedes', ['v2', 'v3'])):
        for ds in ({'v0': (0, 10), 'v1': (5, 30), 'v2': (6, 8), 'd0': (-50, 50)}, {'v0': (0, 10), 'v1': (-20, 3), 'v2': (1, 2), 'd0': (-50, 50)}, {'v0': (0, 10), 'v1': (5, 30), 'v2': (6, 8), 'd0': (6, 7)},
                   {'v0': (0, 10), 'v1': (MINF, PINF), 'v2': (6, 8), 'd0': (-50, 50)}, {'v0': (MINF, 10), 'v1': (0, 30), 'v2': (6, 8), 'd0': (-50, 50)}):
            ds = dict(ds, v3=(0, 7))
            w = World(ck, ds, tokens={'T': ('v0', 'd0', 'v1')})
            w.do(end)
            err, n = w.propagate(), n + 1
            if err:
                b = b or '%s: %s' % (w.text(), err)
                continue
            got = {v: w.P.dom(v) for v in ds}
            (sl, su), (el, eu), want = got['v0'], got['v1'], ds['d0']
            if w.P.st[0].store.get('#empty') or (got['v0'], got['v1']) == (ds['v0'], ds['v1']):
                want = (got['d0'] if w.P.st[0].store.get('#empty') else want)
            elif MINF < sl and su < PINF and MINF < el and eu < PINF:
                want = (max(want[0], el - su), min(want[1], eu - sl))
            if got['d0'] != want:
                b = b or '%s: the start %s and the end %s of a token leave its duration %s at %s, expected %s' % (w.text(), got['v0'], got['v1'], ds['d0'], got['d0'], want)
    if b:
        note(('distvar', 'token'), b)
    ck.counters['propagations'] = n
    f = lambda nm: ck.P.byq['TemporalPropagator::' + nm][0]
    for k, nm in (('add', 'handleConstraintAdded'), ('remove', 'handleConstraintRemoved'), ('off', 'handleConstraintDeactivated'), ('on', 'handleConstraintActivated'), ('voff', 'handleVariableDeactivated'),
                  ('von', 'handleConstraintActivated'), ('restrict', 'handleNotification'), ('relax', 'handleNotification')):
        b = bad.get(('mirror', k))
        ck.ob(r['mirror'], k, b is None, b or '', ck.where(f(nm)))
    for k in ('narrowed', 'token'):
        b = bad.get(('distvar', k))
        ck.ob(r['distvar'], k, b is None, b or '', ck.where(f('execute')))
    for k, nm in (('asked', 'updateRequired'), ('cycle', 'mostRecentRepropagation')):
        b = bad.get(('pending', k))
        ck.ob(r['pending'], k, b is None, b or '', ck.where(f(nm)))
    b = bad.get(('violation', 'emptied'))
    ck.ob(r['violation'], 'emptied', b is None, b or '', ck.where(f('execute')))
    # violations allowed
    b = None
    for p, culprits in (([('add', 'c0', 'strictlyPrecedes', ['v0', 'v1']), ('add', 'c1', 'strictlyPrecedes', ['v1', 'v0'])], {'c0', 'c1'}),
                        ([('add', 'c0', 'strictlyPrecedes', ['v0', 'v1']), ('add', 'c2', 'precedes', ['v0', 'v2']), ('add', 'c1', 'before', ['v1', 'v0'])], {'c0', 'c1'})):
        w = World(ck, {'v0': (0, 30), 'v1': (0, 30), 'v2': (0, 30)}, allow=True)
        for op in p:
            w.do(op)
        err = w.propagate()
        got = {t[1] for t in getattr(w, 'said', []) if t[0] == 'notifyConstraintViolated'}
        if err or w.P.st[0].store.get('#empty') or not got or not got <= culprits:
            b = b or '%s: %s' % (w.text(), err or 'violated are %s' % (sorted(got) or 'none',))
    ck.ob(r['violation'], 'marked', b is None, b or '', ck.where(f('execute')))


# ---------------------------------------------------------------- queries of the propagator
def answers(ck, r):
    D = {'v0': (0, 10), 'v1': (0, 10), 'v2': (0, 30), 'v3': (0, 30)}
    bad = {}
    note = lambda k, t: bad.setdefault(k, t)
    cases = [[('add', 'c0', 'precedes', ['v0', 'v1']), ('add', 'c1', 'strictlyPrecedes', ['v1', 'v2']), ('add', 'c2', 'precedes', ['v0', 'v3'])],
             [('add', 'c0', 'concurrent', ['v0', 'v1']), ('add', 'c1', 'precedes', ['v2', 'v0']), ('add', 'c2', 'strictlyPrecedes', ['v2', 'v3'])],
             [('restrict', 'v2', (12, 14)), ('add', 'c0', 'precedes', ['v0', 'v1']), ('add', 'c1', 'precedes', ['v0', 'v2']), ('add', 'c2', 'precedes', ['v3', 'v0'])]]
    first = [('add', 'c0', 'precedes', ['v0', 'v1']), ('add', 'c1', 'precedes', ['v2', 'v3'])]
    worlds = [(D, p) for p in cases]
    # a token whose start and end have a range, beside a gap one more, one less or exactly as long as it must be
    worlds += [({'v0': v0, 'v1': (20, 40), 'v2': (0, 5), 'v3': (5, g)}, first) for v0, g in (((0, 30), 18), ((0, 8), 11), ((0, 8), 12), ((0, 8), 13))]
    for D1, p in worlds:
        w = World(ck, D1)
        for op in p:
            w.do(op)
        if w.propagate():
            raise Broken('the network of the queries')
        ts = sorted(w.times)
        cons = [(0, i + 1) + w.P.dom(v) for i, v in enumerate(ts)]
        for c in w.active:
            s = w.P.scope[c]
            cons.append((ts.index(s[0]) + 1, ts.index(s[-1]) + 1) + World.KINDS[w.P.name[c]])
        d = shortest(4, cons)
        st0 = w.P.st

        def ask(name, *args):
            w.P.st = [s.cp() for s in st0]
            v = w.P.call(name, *args)
            return v[1] if v is not None and v[0] == 'k' else 'not known'
        for i, a in enumerate(ts):
            for j, b in enumerate(ts):
                if i == j:
                    continue
                x, y = d[i + 1][j + 1], -d[j + 1][i + 1]
                if ask('canPrecede', S(a), S(b)) != (x >= 0):
                    note('precede', '%s: whether %s can precede %s (distance at most %d) is answered wrongly' % (w.text(), a, b, x))
                if ask('canBeConcurrent', S(a), S(b)) != (y <= 0 <= x):
                    note('concurrent', '%s: whether %s can be concurrent with %s (distance [%d %d]) is answered wrongly' % (w.text(), a, b, y, x))
        # that a gap is shorter than one is recognised from chains of distance nought only (said so in the code): the added worlds ask about gaps that are longer
        for a, b, pe, ss in (('v0', 'v1', 'v2', 'v3'), ('v1', 'v2', 'v0', 'v3'), ('v2', 'v3', 'v0', 'v1'), ('v0', 'v3', 'v1', 'v2'))[:4 if D1 is D else 1]:
            g = d[ts.index(pe) + 1][ts.index(ss) + 1]
            least = w.P.dom(b)[0] - w.P.dom(a)[1]
            want = g >= 1 and g >= least
            if ask('canFitBetween', S(a), S(b), S(pe), S(ss)) != want:
                note('fit', '%s: whether %s to %s fits between %s and %s (at most %d apart) is answered %s' % (w.text(), a, b, pe, ss, g, ask('canFitBetween', S(a), S(b), S(pe), S(ss))))
        # distances
        for i, a in enumerate(ts):
            for j, b in enumerate(ts):
                if i != j:
                    w.P.st = [s.cp() for s in st0]
                    v = w.P.call('getTemporalDistanceDomain', S(a), S(b), K(True))
                    want = '%d,%d' % (-d[j + 1][i + 1], d[i + 1][j + 1])
                    if v is None or want not in vs(v).replace(' ', ''):
                        note('domain', '%s: the distance from %s to %s is %s, expected [%s]' % (w.text(), a, b, v and vs(v), want))
    w = World(ck, {'v0': (0, 10), 'v1': (5, 20), 'v2': (12, 20)})
    for a, b, want in (('v0', 'v1', True), ('v0', 'v2', False), ('v1', 'v2', True)):
        v = w.P.call('canBeConcurrent', S(a), S(b))
        if v != K(want):
            note('concurrent', 'without time points: whether %s can be concurrent with %s is answered wrongly' % (a, b))
        v = w.P.call('getTemporalDistanceDomain', S(a), S(b), K(True))
        x, y = w.P.dom(a), w.P.dom(b)
        if v is None or '%d,%d' % (y[0] - x[1], y[1] - x[0]) not in vs(v).replace(' ', ''):
            note('domain', 'without time points: the distance from %s to %s is %s' % (a, b, v and vs(v)))
    # several at once
    w = World(ck, D)
    for op in cases[0]:
        w.do(op)
    w.propagate()
    ts = sorted(w.times)
    d = shortest(4, [(0, i + 1) + w.P.dom(v) for i, v in enumerate(ts)] + [(ts.index(w.P.scope[c][0]) + 1, ts.index(w.P.scope[c][-1]) + 1) + World.KINDS[w.P.name[c]] for c in w.active])
    st0 = w.P.st
    for i, a in enumerate(ts):
        o = [v for v in ts if v != a]
        ub, lb = [d[i + 1][ts.index(v) + 1] for v in o], [-d[ts.index(v) + 1][i + 1] for v in o]
        w.P.st = [s.cp() for s in st0]
        for s in w.P.st:
            s.conts['#vars'] = (tuple(S(v) for v in o), True)
            s.conts['#doms'] = s.conts['#lbs'] = s.conts['#ubs'] = ((), True)
        st1 = w.P.st
        w.P.call('getTemporalDistanceDomains', S(a), S('#vars'), S('#doms'))
        got = [vs(x).replace(' ', '') for x in w.P.list_('#doms') or ()]
        if len(got) != 3 or any('%d,%d' % x not in g for x, g in zip(zip(lb, ub), got)):
            note('domains', '%s: the distances from %s to %s are %s, expected %s' % (w.text(), a, o, got, list(zip(lb, ub))))
        w.P.st = [s.cp() for s in st1]
        w.P.call('getTemporalDistanceSigns', S(a), S('#vars'), S('#lbs'), S('#ubs'))
        sg = lambda xs: None if xs is None or any(x[0] != 'k' for x in xs) else [(x[1] > 0) - (x[1] < 0) for x in xs]
        got, want = (sg(w.P.list_('#lbs')), sg(w.P.list_('#ubs'))), (sg([K(x) for x in lb]), sg([K(x) for x in ub]))
        if got != want:
            note('signs', '%s: the signs of the distances from %s to %s are %s, expected %s' % (w.text(), a, o, got, want))
    f = lambda nm: ck.P.byq['TemporalPropagator::' + nm][0]
    for k, nm in (('domains', 'getTemporalDistanceDomains'), ('signs', 'getTemporalDistanceSigns'), ('precede', 'canPrecede'), ('concurrent', 'canBeConcurrent'), ('fit', 'canFitBetween'), ('domain', 'getTemporalDistanceDomain')):
        ck.ob(r['answers'], k, k not in bad, bad.get(k, ''), ck.where(f(nm)))


ADV = {   # method: (parameter types, arguments, calls expected of the propagator)
    'canPrecede': [('TokenId', ['A', 'B'], [('canPrecede', 'A.end', 'B.start')]), ('Var', ['A', 'B'], [('canPrecede', 'A', 'B')])],
    'canFitBetween': [('TokenId', ['A', 'B', 'C'], [('canFitBetween', 'A.start', 'A.end', 'B.end', 'C.start')])],
    'canBeConcurrent': [('TokenId', ['A', 'B'], [('canBeConcurrent', 'A.start', 'B.start'), ('canBeConcurrent', 'A.end', 'B.end')])],
}


def advisor(ck, r):
    for name, forms in ADV.items():
        fs = [f for f in ck.P.byq.get('STNTemporalAdvisor::' + name, [])]
        for kind, args, calls in forms:
            c = [f for f in fs if len(f['p']) == len(args) and ((kind == 'TokenId') == ('Token' in f['p'][0]['t']))]
            if len(c) != 1:
                raise Broken('STNTemporalAdvisor::%s' % name)
            bad = None
            for base in (True, False):
                for ans in itertools.product((True, False), repeat=len(calls)):
                    asked = []

                    def val(ev, st, fl):
                        if ev.m in ('start', 'end') and ev.recv in args:
                            return [(S('%s.%s' % (ev.recv, ev.m)), st)]
                        if short(ev.name).startswith('DefaultTemporalAdvisor::'):
                            return [(K(base), st)]
                        if short(ev.name).startswith('TemporalPropagator::'):
                            k = (ev.m,) + tuple(vs(fl.deref(a, st)) for a in ev.args)
                            asked.append(k)
                            return [(K(ans[calls.index(k)]) if k in calls else S('wrong'), st)]
                        return None
                    q = Seq(ck, lambda *a: None, scope=('STNTemporalAdvisor',), value_of=val, self_cls='STNTemporalAdvisor', assume=dict(distinct(*args)))
                    ps = [p for p in q.call(c[0], 'this', [S(a) for a in args]) if p.outcome == 'ret']
                    got = {b for p in ps for b, _ in q.fl.truth(p.val, p.st)}
                    want = all(ans) and (base or name == 'canBeConcurrent')
                    if [k for k in asked if k not in calls]:
                        bad = bad or 'the propagator is asked %s' % (asked,)
                    elif got != {want}:
                        bad = bad or 'answers %s when the token bounds say %s and the propagator %s' % (sorted(got), base, ans)
            ck.ob(r['advisor'], '%s of %s' % (name, 'tokens' if kind == 'TokenId' else 'time variables'), bad is None, bad or '', ck.where(c[0]))
    for name, n in (('getTemporalDistanceDomain', 3), ('getTemporalDistanceDomains', 3)):
        f = ck.fn('STNTemporalAdvisor::' + name, n)
        q = Seq(ck, rec(calls=r'^TemporalPropagator::'), scope=('STNTemporalAdvisor',), self_cls='STNTemporalAdvisor')
        ps = [p for p in q.call(f, 'this') if p.outcome == 'ret']
        ok = bool(ps) and all(len(find(p, 'c', name, None, ['$0', '$1', '$2'])) == 1 for p in ps)
        ck.ob(r['advisor'], name, ok, '' if ok else 'the propagator is not asked for the distance between the given variables', ck.where(f))
