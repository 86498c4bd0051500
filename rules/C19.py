"""Resources: the profile of a resource, what is violated or flawed in it, and the transactions of its tokens."""
import os, random
from rules.reslib import *
MODULES = ['Resource', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['the level bounds of the flow profiles (FlowProfile, IncrementalFlowProfile), which are maximum flows, are not decided; the timetable and grounded profiles are',
               'the constraint engine tells the profile about every changed domain (C02)',
               'profiles of up to four transactions']
CHANGES = ('UPPER_BOUND_DECREASED', 'LOWER_BOUND_INCREASED', 'BOUNDS_RESTRICTED', 'RESTRICT_TO_SINGLETON', 'SET_TO_SINGLETON', 'RESET', 'RELAXED')
LEVELS = ('m_lowerLevel', 'm_lowerLevelMax', 'm_upperLevelMin', 'm_upperLevel', 'm_minInstConsumption', 'm_maxInstConsumption', 'm_minInstProduction', 'm_maxInstProduction',
          'm_minCumulativeConsumption', 'm_maxCumulativeConsumption', 'm_minCumulativeProduction', 'm_maxCumulativeProduction')
PREV = ('m_minPrevConsumption', 'm_maxPrevConsumption', 'm_minPrevProduction', 'm_maxPrevProduction')


def run(ck):
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('instants', 'the profile has an instant exactly at each earliest and latest time of a transaction, with exactly the transactions that can happen then', 2),
        ('levels', 'once recomputed, every instant has the level and production and consumption bounds of its profile', 2),
        ('pending', 'every change of a transaction makes a recomputation pending, a recomputation ends it, and the detector looks at every instant in time order', 2),
        ('violated', 'an instant is violated, for the first problem that applies, exactly when what must have been consumed or produced exceeds the limits on the amount at once or in total, or the level cannot stay within the limits of its time', 3),
        ('reported', 'a violation empties a quantity of the instant, or, when violations are allowed, marks exactly the constraints of the tokens that contribute to a violated instant', 3),
        ('flawed', 'an instant is flawed, above or below, by how much, exactly when what may be consumed or produced, or the level, can exceed these limits', 3),
        ('order', 'a token requires ordering exactly while it takes part in a flawed instant', 3),
        ('tokens', 'a token takes part in the profile with the transactions of its resource from when it is added until it is removed', 3),
        ('choices', 'the orderings offered at a flawed instant, or for a token, are each pair of transactions, or tokens, involved that can be put in this order and are not in it already, once', 3),
        ('answers', 'asked for any time, the usage is that of the last instant until then, limits and capacity those set last until then, and the levels at each instant those the detector compared', 2),
        )}
    profiles(ck, r)
    resources(ck, r)
    choices(ck, r)


class Ref:
    """what the profile should be"""
    def __init__(self, grounded=False):
        self.tx, self.g = {}, grounded

    def times(self):
        return sorted({x for t, q, c in self.tx.values() for x in t})

    def at(self, i):
        return {n for n, (t, q, c) in self.tx.items() if t[0] <= i <= t[1]}

    def levels(self):
        out = {}
        ll = lm = um = uu = 0
        prev = [0, 0, 0, 0]
        for i in self.times():
            minc = maxc = minp = maxp = 0
            cmin, pmin = prev[0], prev[2]
            for n in self.at(i):
                t, (lb, ub), c = self.tx[n]
                if t[0] == t[1]:
                    minc, minp = minc + lb * c, minp + lb * (not c)
                maxc, maxp = maxc + ub * c, maxp + ub * (not c)
                if t[0] == i:
                    if c:
                        ll -= ub
                        if self.g:
                            lm, um = lm - ub, um - lb
                        else:
                            lm -= lb
                    else:
                        uu += ub
                        if self.g:
                            um, lm = um + ub, lm + lb
                        else:
                            um += lb
                if t[1] == i:
                    cmin, pmin = cmin + lb * c, pmin + lb * (not c)
                    if c:
                        uu -= lb
                        um -= 0 if self.g else ub
                    else:
                        ll += lb
                        lm += 0 if self.g else ub
            out[i] = dict(zip(LEVELS + PREV, (ll, lm, um, uu, minc, maxc, minp, maxp, cmin, prev[1] + maxc, pmin, prev[3] + maxp) + tuple(prev)))
            for n in self.at(i):
                t, (lb, ub), c = self.tx[n]
                if t[1] == i:
                    for k, q in ((0, lb), (1, ub)):
                        prev[k + (0 if c else 2)] += q
        return out


def scripts(thorough):
    A, T, Q, D, R = (lambda n, t, q, c: ('add', n, t, q, c)), (lambda n, d, k: ('time', n, d, k)), (lambda n, d, k: ('qty', n, d, k)), (lambda n: ('del', n)), ('compute',)
    out = [
        [A('a', (5, 20), (1, 4), True), R, D('a'), R],
        [A('a', (5, 20), (1, 4), True), A('b', (7, 30), (2, 3), False), A('c', (10, 10), (1, 2), True), R, D('b'), R, D('a'), D('c'), R],
        [A('a', (5, 20), (2, 2), False), A('b', (5, 20), (1, 3), True), R, T('a', (5, 12), 'UPPER_BOUND_DECREASED'), R, T('b', (8, 20), 'LOWER_BOUND_INCREASED'), R, T('a', (12, 12), 'RESTRICT_TO_SINGLETON'), R,
         D('b'), R, T('a', (5, 20), 'RESET'), R],
        [A('a', (0, 30), (1, 2), True), A('b', (10, 15), (3, 5), False), T('a', (10, 20), 'BOUNDS_RESTRICTED'), R, T('b', (15, 15), 'SET_TO_SINGLETON'), R, T('b', (10, 15), 'RESET'), R, T('a', (0, 30), 'RELAXED'), R],
        [A('a', (10, 10), (1, 2), True), A('b', (10, 10), (3, 5), False), A('c', (0, 20), (1, 1), False), R, T('a', (0, 20), 'RELAXED'), R, T('b', (5, 12), 'RELAXED'), R, T('c', (10, 12), 'BOUNDS_RESTRICTED'), R],
        [A('a', (3, 8), (1, 2), True), Q('a', (2, 2), 'RESTRICT_TO_SINGLETON'), R, Q('a', (0, 9), 'RESET'), R, A('b', (8, 9), (0, 5), True), R, Q('b', (0, 1), 'UPPER_BOUND_DECREASED'), R],
        [A('a', (0, 10), (1, 1), True), A('b', (0, 20), (1, 1), True), A('c', (10, 20), (1, 2), False), R, T('b', (12, 15), 'BOUNDS_RESTRICTED'), R, T('b', (0, 20), 'RELAXED'), R, D('a'), R, D('c'), R],
    ]
    rnd = random.Random(7)
    for _ in range(60 if thorough else 4):
        s, live, full = [], {}, {}
        for k in range(8):
            n = rnd.choice('abcd')
            if n not in live:
                lo = rnd.randrange(0, 8)
                full[n] = live[n] = (lo, lo + rnd.choice((0, 2, 6)))
                q = rnd.randrange(0, 4)
                s.append(A(n, live[n], (q, q + rnd.choice((0, 3))), rnd.random() < .5))
            elif rnd.random() < .25:
                s.append(D(n))
                del live[n]
            elif live[n] != full[n] and rnd.random() < .5:
                live[n] = full[n]
                s.append(T(n, full[n], rnd.choice(('RESET', 'RELAXED'))))
            elif live[n][0] < live[n][1]:
                lo = rnd.randrange(live[n][0], live[n][1] + 1)
                live[n] = (lo, rnd.randrange(lo, live[n][1] + 1))
                s.append(T(n, live[n], rnd.choice(CHANGES[:5])))
            if rnd.random() < .5:
                s.append(R)
        out.append(s + [R])
    return out


def profiles(ck, r):
    bad, n = {}, {}

    def note(k, prof, text):
        bad.setdefault((k, prof), text)
    for prof in ('TimetableProfile', 'GroundedProfile'):
        for s in scripts(os.environ.get('VERIF_TIER') == 'thorough'):
            try:
                script(ck, prof, s, note, n)
            except Fails as e:
                note('instants', prof, '%s, %s: %s' % (prof, '; '.join(' '.join(str(x) for x in y) for y in s), e))
    for prof in ('TimetableProfile', 'GroundedProfile'):
        for k in ('instants', 'levels', 'pending'):
            ck.ob(r[k], prof, (k, prof) not in bad, bad.get((k, prof), ''), 'Profile.cc')
            ck.counters['%s checked (%s)' % (k, prof)] = n.get((k, prof), 0)


def script(ck, prof, s, note, n):
    R, ref = Res(ck, prof), Ref(prof == 'GroundedProfile')
    hist, pend = [], False
    for step in s:
        hist.append('%s %s' % (step[0], ' '.join(str(x) for x in step[1:])))
        h = '%s after %s' % (prof, '; '.join(hist))
        before, cc, tr = R.instants() or {}, R.field('obj#prof', 'm_changeCount'), len(R.trace() or ())
        if step[0] == 'add':
            R.add(*step[1:])
            ref.tx[step[1]] = list(step[2:])
        elif step[0] == 'time':
            R.change('time:' + step[1], step[2], step[3])
            ref.tx[step[1]][0] = step[2]
        elif step[0] == 'qty':
            R.change('qty:' + step[1], step[2], step[3])
            ref.tx[step[1]][1] = step[2]
        elif step[0] == 'del':
            R.run('Profile::removeTransaction', 'obj#prof', S(step[1]))
            del ref.tx[step[1]]
        else:
            R.run('Profile::recompute', 'obj#prof')
        I = R.instants()
        want = ref.times()
        k = 'levels' if step[0] == 'compute' else 'instants'
        n[k, prof] = n.get((k, prof), 0) + 1
        if I is None:
            note(k, prof, '%s: the instants are not determined' % h)
            break
        if sorted(I) != want:
            note('instants', prof, '%s: instants at %s, expected %s' % (h, sorted(I), want))
            break
        if list(I) != want:
            note('instants', prof, '%s: instants out of order' % h)
        for i in want:
            for cont, ws, what in (('m_transactions', ref.at(i), 'transactions'), ('m_startingTransactions', {x for x in ref.tx if ref.tx[x][0][0] == i}, 'starting transactions'),
                                   ('m_endingTransactions', {x for x in ref.tx if ref.tx[x][0][1] == i}, 'ending transactions')):
                g = R.members(I[i], cont)
                if g is None or set(g) != ws or len(g) != len(ws):
                    note('instants', prof, '%s: the instant at %s has the %s %s, expected %s' % (h, i, what, g, sorted(ws)))
        news = [e for e in (R.trace() or ())[tr:] if e and e[0] in ('initialize', 'detect', 'notifyDeleted')]
        if step[0] == 'compute':
            lv = ref.levels()
            for i in want:
                g = {f: R.field(I[i], f) for f in lv[i]}
                d = [f for f in lv[i] if g[f] != lv[i][f]]
                if d:
                    note('levels', prof, '%s: at %s %s is %s, expected %s' % (h, i, d[0][2:], g[d[0]], lv[i][d[0]]))
            if R.field('obj#prof', 'm_needsRecompute') is not False:
                note('pending', prof, '%s: still pending' % h)
            due = [I[i] for i in want] if pend else []
            det = [e[1] for e in news if e[0] == 'detect']
            if det != due:
                note('pending', prof, '%s: the detector looked at %s, expected %s' % (h, det, due))
            if due and (not news or news[0][0] != 'initialize'):
                note('pending', prof, '%s: the detector was not initialized first' % h)
            pend = False
        else:
            pend = True
            if R.field('obj#prof', 'm_needsRecompute') is not True:
                note('pending', prof, '%s: no recomputation is pending' % h)
            c2 = R.field('obj#prof', 'm_changeCount')
            if c2 is None or cc is None or c2 <= cc:
                note('pending', prof, '%s: the change is not counted' % h)
            gone = sorted(before[i] for i in before if I.get(i) != before[i])
            told = sorted(e[1] for e in news if e[0] == 'notifyDeleted')
            if gone != told:
                note('pending', prof, '%s: the detector hears that %s are gone, expected %s' % (h, told, gone))
        n['pending', prof] = n.get(('pending', prof), 0) + 1


PROBLEMS = ('ConsumptionSumExceeded', 'ProductionSumExceeded', 'ConsumptionRateExceeded', 'ProductionRateExceeded', 'LevelTooLow', 'LevelTooHigh')
CONS = ('ConsumptionSumExceeded', 'ConsumptionRateExceeded', 'LevelTooLow')


class World(Ref):
    """what the detector should find"""
    def __init__(self, det, grounded, args):
        Ref.__init__(self, grounded)
        self.det = det
        self.cap, self.lim = {MINF: args[0:2]}, {MINF: args[2:4]}
        self.mp, self.mc, self.sp, self.sc = args[4:8]

    def within(self, m, i):
        return m[max(k for k in m if k <= i)]

    def find(self):
        """time -> (problem or None, flawed, lower magnitude or None, upper magnitude or None)"""
        out = {}
        self.fd, self.vd, self.use = {}, {}, {}
        for i, l in self.levels().items():
            cl, cu = self.within(self.cap, i)
            ll, lu = self.within(self.lim, i)
            vl, vu = cl + l['m_lowerLevel'], cu + l['m_upperLevel']
            fl, fu = vl, vu
            if self.det != 'ClosedWorldFVDetector':
                fl, fu = cl + l['m_lowerLevelMax'], cu + l['m_upperLevelMin']
            if self.det == 'OpenWorldFVDetector':
                vu += self.sp - l['m_minCumulativeProduction']
                vl -= self.sc - l['m_minCumulativeConsumption']
            self.fd[i], self.vd[i], self.use[i] = (fl, fu), (vl, vu), (l['m_lowerLevel'], l['m_upperLevel'])
            tests = (l['m_minCumulativeConsumption'] > self.sc, l['m_minCumulativeProduction'] > self.sp, l['m_minInstConsumption'] > self.mc, l['m_minInstProduction'] > self.mp, vu < ll, vl > lu)
            p = [x for x, t in zip(PROBLEMS, tests) if t]
            low, up = (ll - fl if fl < ll else None), (fu - lu if fu > lu else None)
            f = low is not None or up is not None or l['m_maxCumulativeConsumption'] > self.sc or l['m_maxCumulativeProduction'] > self.sp or l['m_maxInstConsumption'] > self.mc or l['m_maxInstProduction'] > self.mp
            out[i] = (p[0] if p else None, f, low, up)
        return out


def stories(cls, thorough):
    """(limits, steps); a token of a reservoir: ('tok', name, time, quantity, consumer), of a reusable: ('tok', name, start, end, quantity)"""
    P, G = ('compute',), lambda *a: ('tok',) + a
    T, Q, D, L, C = (lambda n, d, k: ('time', n, d, k)), (lambda n, d, k: ('qty', n, d, k)), (lambda n: ('del', n)), (lambda t, a, b: ('limit', t, a, b)), (lambda t, a, b: ('cap', t, a, b))
    W = (PINF,) * 4
    if cls == 'Reusable':
        return [
            ((3, 3, 0, 3, PINF, PINF, PINF, PINF), [G('A', (0, 5), (10, 20), (2, 2)), P, G('B', (3, 8), (12, 15), (1, 2)), P, T('s:B', (8, 8), 'SET_TO_SINGLETON'), P, D('A'), P]),
            ((1, 1, 0, 1, 2, 2, PINF, PINF), [G('A', (0, 0), (10, 10), (1, 1)), G('B', (5, 5), (15, 15), (1, 1)), P, T('s:B', (5, 12), 'RESET'), P, D('B'), P]),
            ((2, 4, 0, 4) + W, [G('A', (0, 4), (6, 9), (1, 1)), P, D('A'), P]),
            ((5, 5, 0, 5, PINF, PINF, 3, 3), [G('A', (0, 4), (4, 9), (2, 2)), P, G('B', (9, 9), (12, 12), (2, 2)), P, Q('B', (1, 2), 'RESET'), P]),
        ]
    out = [
        # the level leaves the limits below, then above
        ((0, 0, -5, 5) + W, [G('A', (5, 20), (10, 10), True), P, G('B', (7, 30), (1, 8), False), P, T('at:B', (7, 12), 'UPPER_BOUND_DECREASED'), P, D('A'), P]),
        ((0, 0, -5, 5) + W, [G('A', (0, 10), (4, 4), True), G('B', (0, 20), (4, 4), True), G('C', (0, 20), (9, 9), False), P, T('at:C', (0, 0), 'SET_TO_SINGLETON'), T('at:B', (15, 15), 'SET_TO_SINGLETON'), P, D('C'), P,
                            T('at:B', (0, 20), 'RESET'), P]),
        ((2, 4, 0, 10) + W, [G('A', (3, 3), (1, 3), True), P, G('B', (3, 6), (2, 9), False), P, Q('B', (2, 2), 'RESTRICT_TO_SINGLETON'), P, L(4, -5, 3), L(4, -9, 9), C(MINF, 0, 0), D('B'), P]),
        # at once and in total
        ((9, 9, 0, 20, 3, 4, 5, 6), [G('A', (3, 3), (2, 5), True), G('B', (3, 8), (2, 4), False), P, Q('A', (4, 4), 'RESTRICT_TO_SINGLETON'), P, G('C', (1, 8), (1, 1), True), P, T('at:C', (3, 3), 'SET_TO_SINGLETON'), P, D('A'), P]),
        ((9, 9, 0, 20, 5, 5, 5, 6), [G('A', (1, 1), (3, 3), False), G('B', (4, 6), (3, 3), False), P, T('at:B', (4, 4), 'RESTRICT_TO_SINGLETON'), P, D('A'), P]),
        ((9, 9, -90, 90, 5, 5, PINF, 7), [G('A', (1, 1), (4, 4), True), G('B', (4, 6), (2, 4), True), P, T('at:B', (6, 6), 'RESTRICT_TO_SINGLETON'), P, Q('B', (4, 4), 'RESTRICT_TO_SINGLETON'), P, Q('B', (2, 4), 'RESET'), P]),
        ((0, 0, -90, 90, 2, 90, 90, 90), [G('A', (1, 3), (3, 3), False), P, T('at:A', (3, 3), 'RESTRICT_TO_SINGLETON'), P, T('at:A', (1, 3), 'RESET'), P, Q('A', (1, 3), 'RESET'), P]),
        ((9, 9, -90, 90, 90, 2, 90, 90), [G('A', (1, 3), (1, 3), True), P, T('at:A', (1, 1), 'SET_TO_SINGLETON'), P, Q('A', (3, 3), 'SET_TO_SINGLETON'), P, Q('A', (1, 3), 'RESET'), P, D('A'), P]),
        ((0, 0, 6, 50, 90, 90, 5, 90), [G('A', (1, 4), (2, 5), False), P, G('B', (1, 2), (1, 3), True), P, D('A'), P]),
        ((9, 9, -50, 8, 90, 90, 90, 5), [G('A', (1, 4), (2, 5), True), P, G('B', (1, 2), (1, 3), False), P, T('at:B', (2, 2), 'SET_TO_SINGLETON'), P]),
        ((9, 9, -90, 90, 90, 4, 90, 90), [G('A', (0, 20), (1, 3), True), G('B', (10, 10), (1, 3), True), P, D('B'), P, D('A')]),
        # violated at two instants, one of which recovers
        ((0, 0, -5, 9) + W, [G('A', (2, 10), (1, 1), True), G('B', (2, 2), (8, 8), True), G('C', (10, 10), (4, 4), True), P, L(10, -100, 100), L(2, -8, 9), L(MINF, -20, 20)]),
        ((0, 0, -5, 9) + W, [G('A', (2, 10), (1, 1), True), G('B', (2, 2), (8, 8), True), G('C', (10, 10), (14, 14), False), P, T('at:A', (10, 10), 'SET_TO_SINGLETON'), P, D('B'), P]),
    ]
    rnd = random.Random(11)
    for _ in range(40 if thorough else 3):
        a = rnd.choice(((0, 0, -4, 4) + W, (3, 5, 0, 8, 4, 4, 9, 9), (0, 0, -6, 6, 3, 3, 6, 6)))
        s, live, full = [], {}, {}
        for k in range(9):
            n = rnd.choice('ABC')
            if n not in live:
                lo = rnd.randrange(0, 6)
                full[n] = live[n] = (lo, lo + rnd.choice((0, 3, 6)))
                q = rnd.randrange(1, 5)
                s.append(G(n, live[n], (q, q + rnd.choice((0, 2))), rnd.random() < .5))
            elif rnd.random() < .2:
                s.append(D(n))
                del live[n]
            elif live[n] != full[n] and rnd.random() < .5:
                live[n] = full[n]
                s.append(T('at:' + n, full[n], rnd.choice(('RESET', 'RELAXED'))))
            elif live[n][0] < live[n][1]:
                lo = rnd.randrange(live[n][0], live[n][1] + 1)
                live[n] = (lo, rnd.randrange(lo, live[n][1] + 1))
                s.append(T('at:' + n, live[n], rnd.choice(CHANGES[:5])))
            s.append(P)
        out.append((a, s))
    return out


def resources(ck, r):
    bad, n = {}, {}
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    insts = []
    for det, prof in (('ClosedWorldFVDetector', 'TimetableProfile'), ('OpenWorldFVDetector', 'TimetableProfile'), ('GroundedFVDetector', 'GroundedProfile')):
        for cls in ('Reservoir',) + (('Reusable',) if det == 'ClosedWorldFVDetector' else ()):
            key = det[:-10] + ' ' + cls
            insts.append(key)
            for args, steps in stories(cls, thorough):
                for allow in (False, True):
                    try:
                        story(ck, bad, n, key, cls, det, prof, allow, args, steps)
                    except Fails as e:
                        bad.setdefault(('tokens', key), '%sin %s: %s' % ('with violations allowed, ' if allow else '', '; '.join(' '.join(str(x) for x in y) for y in steps), e))
    for key in insts:
        for k in ('violated', 'reported', 'flawed', 'order', 'tokens', 'answers'):
            ck.ob(r[k], key, (k, key) not in bad, bad.get((k, key), ''), 'GenericFVDetector.cc' if k in ('violated', 'flawed') else 'Resource.cc')
        ck.counters['steps (%s)' % key] = n.get(key, 0)


def story(ck, bad, n, key, cls, det, prof, allow, args, steps):
    # a limit that is infinite at once is the one in total
    full = list(args)
    if cls == 'Reusable':
        full[3], full[4], full[6] = full[1], full[5], full[7]
    R = Res(ck, prof, cls, det, allow, args)
    for a, b in ((4, 6), (5, 7)):
        if full[a] == PINF:
            full[a] = full[b]
    w = World(det, prof == 'GroundedProfile', tuple(full))
    hist, asked = [], set()

    def note(k, text):
        bad.setdefault((k, key), '%s%s: %s' % ('with violations allowed, ' if allow else '', '; '.join(hist), text))
    tokens, spoilt, asks = {}, None, 0
    todo = list(steps)
    while todo:
        step = todo.pop(0)
        if spoilt:
            # what made the engine inconsistent is taken back
            for s in R.st:
                s.store['#empty'] = K(False)
            R.change(spoilt, w.tx[tokens[spoilt[2:]][0]][1], 'RELAXED')
            spoilt = None
            if step[0] in ('limit', 'cap'):
                if hist[-1] != 'compute':
                    todo.insert(0, step)
                step = ('compute',)
        hist.append('%s %s' % (step[0], ' '.join(str(x) for x in step[1:])) if len(step) > 1 else step[0])
        n[key] = n.get(key, 0) + 1
        tr = len(R.trace() or ())
        if step[0] == 'tok' and cls == 'Reservoir':
            _, t, tm, q, c = step
            R.var('at:' + t, tm)
            R.var('q:' + t, q)
            R.token(t, getTime=S('at:' + t), getQuantity=S('q:' + t), isConsumer=K(c))
            tokens[t] = ['at:' + t]
            w.tx['at:' + t] = [tm, q, c]
        elif step[0] == 'tok':
            _, t, s1, e1, q = step
            for v, d in (('s:' + t, s1), ('e:' + t, e1), ('q:' + t, q), ('objv:' + t, (77, 77))):
                R.var(v, d)
            R.token(t, start=S('s:' + t), end=S('e:' + t), getQuantity=S('q:' + t), isActive=K(True), getObject=S('objv:' + t))
            tokens[t] = ['s:' + t, 'e:' + t]
            w.tx['s:' + t], w.tx['e:' + t] = [s1, q, True], [e1, q, False]
        if step[0] == 'tok':
            R.call(cls, 'add', 'obj#res', S(step[1]), pick=lambda f: 'Token' in f['p'][0]['t'])
            R.call(cls, 'addToProfile', 'obj#res', S(step[1]), pick=lambda f: 'Token' in f['p'][0]['t'])
        elif step[0] == 'time':
            w.tx[step[1]][0] = step[2]
            R.change(step[1], step[2], step[3])
        elif step[0] == 'qty':
            for v in tokens[step[1]]:
                w.tx[v][1] = step[2]
            R.change('q:' + step[1], step[2], step[3])
        elif step[0] == 'del':
            for v in tokens.pop(step[1]):
                del w.tx[v]
            R.call(cls, 'remove', 'obj#res', S(step[1]), pick=lambda f: 'Token' in f['p'][0]['t'])
        elif step[0] in ('limit', 'cap'):
            (w.lim if step[0] == 'limit' else w.cap)[step[1]] = step[2:4]
            R.call(cls, 'setLimit' if step[0] == 'limit' else 'setCapacity', 'obj#res', *[K(x) for x in step[1:]])
        else:
            R.run('Profile::recompute', 'obj#prof')
        I = R.instants()
        if I is None or sorted(I) != w.times():
            return note('tokens', 'the profile has instants at %s, expected %s' % (I and sorted(I), w.times()))
        times = {x: vs(R.st[0].store.get(x + '.m_time', S('?'))) for x in R.members('obj#prof', 'm_transactions') or ()}
        if sorted(times.values()) != sorted(w.tx):
            return note('tokens', 'the profile has the transactions at %s, expected %s' % (sorted(times.values()), sorted(w.tx)))
        for x, v in times.items():
            g = (vs(R.st[0].store.get(x + '.m_quantity', S('?'))), R.field(x, 'm_isConsumer'))
            if g != ('q:' + v.split(':')[1], w.tx[v][2]):
                note('tokens', 'the transaction at %s has quantity %s and consumes: %s' % (v, g[0], g[1]))
        for m in ('m_transactionsToTokens',) + (('m_tokensToTransactions',)):
            c = {s.conts.get('obj#res.' + m) for s in R.st}
            c = c.pop() if len(c) == 1 else None
            g = sorted(vs(x[2 if 'ToTokens' in m else 1]) for x in c[0]) if c and c[1] else None
            e = sorted(t for t in tokens for _ in (tokens[t] if 'ToTokens' in m else '1'))
            if (g or []) != e:
                note('tokens', 'the resource holds transactions of %s, expected %s' % (g, e))
        # what is known of flaws
        fi = {s.conts.get('obj#res.m_flawedInstants', ((), True)) for s in R.st}
        ft = {s.conts.get('obj#res.m_flawedTokens', ((), True)) for s in R.st}
        if len(fi) != 1 or len(ft) != 1:
            return note('order', 'what is flawed is not determined')
        fi = {x[1][1]: vs(x[2]) for x in fi.pop()[0]}
        ft = {vs(x[1]): set(vs(y) for y in R.st[0].conts.get(vs(x[2]), ((), True))[0]) for x in ft.pop()[0]}
        for e in (R.trace() or ())[tr:]:
            if e[0] == 'notifyOrderingRequired':
                if e[1] in asked:
                    note('order', 'ordering %s is required again' % e[1])
                asked.add(e[1])
            elif e[0] == 'notifyOrderingNoLongerRequired':
                if e[1] not in asked:
                    note('order', 'ordering %s is no longer required, but was not' % e[1])
                asked.discard(e[1])
        if asked != set(ft):
            note('order', 'ordering is required of %s, announced is %s' % (sorted(ft), sorted(asked)))
        if any(fi[i] != I.get(i) for i in fi):
            note('order', 'an instant at %s is kept that is not in the profile' % sorted(i for i in fi if fi[i] != I.get(i)))
        if any(y not in I.values() for v in ft.values() for y in v):
            note('order', 'a token keeps a flaw at an instant that is not in the profile')
        if any(t not in tokens for t in ft):
            note('order', 'a token that has left requires ordering')
        if step[0] not in ('compute', 'limit', 'cap'):
            continue
        want = w.find()
        stop = None
        for i in sorted(want):
            p, f, low, up = want[i]
            g = R.field(I[i], 'm_violated')
            if g is not (p is not None):
                note('violated', 'violated at %s: %s, expected %s' % (i, g, p or False))
            g = R.field(I[i], 'm_flawed'), R.field(I[i], 'm_lowerFlaw'), R.field(I[i], 'm_upperFlaw')
            if g != (f, low is not None, up is not None):
                note('flawed', 'at %s flawed, below, above: %s, expected %s' % (i, g, (f, low is not None, up is not None)))
            elif R.field(I[i], 'm_lowerFlawMagnitude') != (low or 0) or R.field(I[i], 'm_upperFlawMagnitude') != (up or 0):
                note('flawed', 'at %s the magnitudes are %s and %s, expected %s and %s' % (i, R.field(I[i], 'm_lowerFlawMagnitude'), R.field(I[i], 'm_upperFlawMagnitude'), low or 0, up or 0))
            if p and not allow:
                stop = i
                break
        emptied = [e[1] for e in (R.trace() or ())[tr:] if e[0] == 'emptied']
        if not allow:
            here = {'q:' + v.split(':')[1] for v in (w.at(stop) if stop is not None else ())}
            if len(emptied) != (stop is not None) or not set(emptied) <= here:
                note('reported', 'emptied %s, expected %s' % (emptied, 'one of %s' % sorted(here) if here else 'nothing'))
            if stop is not None:
                spoilt = emptied[0] if emptied else None
                if spoilt is None:
                    return
                continue
        else:
            if emptied:
                note('reported', 'emptied %s' % emptied)
            exp = {}
            for i, (p, f, low, up) in want.items():
                for v in w.at(i) if p else ():
                    if w.tx[v][2] == (p in CONS):
                        exp.setdefault(v.split(':')[1], set()).add((i, p))
            for t in tokens:
                g = R.field('#viol:obj#rtr:' + t, '') if False else {s.store.get('#viol:obj#rtr:' + t, K(0))[1] for s in R.st}
                if g != {1 if t in exp else 0}:
                    note('reported', 'the constraint of %s is violated: %s, expected %s' % (t, sorted(g), sorted(exp.get(t, ()))))
                elif t in exp:
                    o = 'obj#rtr:' + t
                    g = (R.field(o, 'm_violationTime'), vs(R.st[0].store.get(o + '.m_violationProblem', S('?'))).strip("'").rsplit('::', 1)[-1])
                    if g not in exp[t]:
                        note('reported', 'the violation of %s is explained by %s, expected %s' % (t, g, sorted(exp[t])))
        asks += 1
        if allow and asks == 2 and w.tx:
            answers(R, w, lambda t: note('answers', t))
        if fi != {i: I[i] for i in want if want[i][1]}:
            note('order', 'the flawed instants are at %s, expected %s' % (sorted(fi), sorted(i for i in want if want[i][1])))
        e = {}
        for i in want:
            if want[i][1]:
                for v in w.at(i):
                    e.setdefault(v.split(':')[1], set()).add(I[i])
        if ft != e:
            note('order', 'ordering is required of %s, expected %s' % (sorted(ft), sorted(e)) if set(ft) != set(e) else 'a token keeps flaws at the wrong instants')


def answers(R, w, note):
    ts = sorted(w.use)
    times = [ts[0] - 1, *ts, ts[-1] + 1] + [t + 1 for t in ts[:-1]]
    last = lambda t: [i for i in ts if i <= t][-1:]
    for get, cls, want, at in (('getUsage', 'PSUsageProfile', lambda t: w.use[last(t)[0]] if last(t) else (0, 0), times),
                               ('getLimits', 'PSGenericProfile', lambda t: w.within(w.lim, t), times),
                               ('getCapacity', 'PSGenericProfile', lambda t: w.within(w.cap, t), times),
                               ('getFDLevels', 'GenericFVProfile', w.fd.get, ts), ('getVDLevels', 'GenericFVProfile', w.vd.get, ts)):
        o = R.call('Resource', get, 'obj#res')
        if o is None:
            note('%s answers nothing' % get)
            continue
        for t in at:
            g = tuple(R.call(cls, m, vs(o), K(t)) for m in ('getLowerBound', 'getUpperBound'))
            g = tuple(x[1] if x is not None and x[0] == 'k' else None for x in g)
            if g != tuple(want(t)):
                note('%s at %s is %s, expected %s' % (get, t, g, tuple(want(t))))


def choices(ck, r):
    """what may be ordered at a flawed instant"""
    P = lambda f: 'Instant' in f['p'][0]['t']
    for key, toks, dist, can, must in (
            ('free', {'A': ((5, 20), (10, 10), True), 'B': ((7, 9), (1, 3), False), 'C': ((0, 8), (1, 3), False)}, {}, {'AB', 'BA', 'AC', 'CA', 'BC', 'CB'}, set()),
            ('constrained', {'A': ((5, 20), (10, 10), True), 'B': ((5, 9), (1, 3), False), 'C': ((0, 8), (9, 9), False)}, {'AB': (0, 4), 'BC': (-3, 0), 'AC': (-1, 4)}, {'AB', 'CB', 'AC', 'CA'}, {'AB', 'CA'}),
            ('fixed', {'A': ((5, 20), (10, 10), True), 'B': ((7, 7), (6, 6), True), 'C': ((7, 7), (1, 3), False), 'D': ((30, 31), (1, 1), True)}, {'AB': (0, 0), 'AC': (-2, 0)}, {'AB', 'BA', 'CA', 'AD', 'DA'}, {'AD'})):
        bad, n = [], 0
        R = Res(ck, 'TimetableProfile', 'Reservoir', 'ClosedWorldFVDetector', True, (0, 0, -5, 5) + (PINF,) * 4)
        for t, (tm, q, c) in toks.items():
            R.var('at:' + t, tm)
            R.var('q:' + t, q)
            R.token(t, getTime=S('at:' + t), getQuantity=S('q:' + t), isConsumer=K(c), start=S('at:' + t), end=S('at:' + t))
            R.call('Reservoir', 'add', 'obj#res', S(t), pick=lambda f: 'Token' in f['p'][0]['t'])
            R.call('Reservoir', 'addToProfile', 'obj#res', S(t), pick=lambda f: 'Token' in f['p'][0]['t'])
            for x in R.members('obj#prof', 'm_transactions') or ():
                R.differ(x, R.members('obj#prof', 'm_transactions'))
        for k, v in dist.items():
            R.dist['at:' + k[0], 'at:' + k[1]] = v
        R.can |= {tuple(x) for x in can}
        R.must |= {tuple(x) for x in must}
        R.run('Profile::recompute', 'obj#prof')
        of = {x: vs(R.st[0].store.get(x + '.m_time', S('?')))[3:] for x in R.members('obj#prof', 'm_transactions')}
        I = {i: x for i, x in R.instants().items() if R.field(x, 'm_flawed')}
        at = lambda i: {t for t in toks if toks[t][0][0] <= i <= toks[t][0][1]}
        meet = lambda a, b: max(toks[a][0][0], toks[b][0][0]) <= min(toks[a][0][1], toks[b][0][1])

        def ask(what, f, *args, pick):
            # each question is put to the same resource
            kept, R.st = R.st, [s.cp() for s in R.st]
            for s in R.st:
                s.conts['obj#out'] = ((), True)
            R.call('Reservoir', f, 'obj#res', *args, pick=pick)
            out = {s.conts.get('obj#out') for s in R.st}
            R.st = kept
            out = out.pop() if len(out) == 1 else None
            if out is None or not out[1]:
                bad.append('%s: the choices are not determined' % what)
                return None
            return [''.join(of.get(vs(y), vs(y)) for y in x[1:]) for x in out[0]]
        for i in I:
            g = ask('at %s' % i, 'getOrderingChoices', S(I[i]), S('obj#out'), K(9999), pick=P)
            e = {a + b for a in toks for b in toks if a != b and meet(a, b) and (a in at(i) or b in at(i))
                 and R.distance('at:' + a, 'at:' + b, R.st[0])[1] >= 0 > R.distance('at:' + a, 'at:' + b, R.st[0])[0]}
            n += 1
            if g is not None and (set(g) != e or len(g) != len(e)):
                bad.append('at %s the orderings are %s, expected %s' % (i, sorted(g), sorted(e)))
        for t in toks:
            for lim in (9999, 1, 2):
                g = ask('for %s' % t, 'getOrderingChoices', S(t), S('obj#out'), K(lim), pick=lambda f: not P(f))
                e = {a + b for i in I if toks[t][0][0] <= i <= toks[t][0][1] for a in at(i) for b in at(i) if a != b and a + b in can and a + b not in must}
                n += 1
                if g is not None and (not set(g) <= e or len(g) != min(lim, len(e)) or len(set(g)) != len(g)):
                    bad.append('for %s the orderings are %s, expected %s%s' % (t, sorted(g), '%s of ' % lim if lim < len(e) else '', sorted(e)))
        for s in R.st:
            s.conts['obj#out'] = ((), True)
        R.call('Reservoir', 'getTokensToOrder', 'obj#res', S('obj#out'))
        g, e = R.st[0].conts['obj#out'], {t for i in I for t in at(i)}
        if sorted(vs(x) for x in g[0]) != sorted(e):
            bad.append('the tokens to order are %s, expected %s' % (sorted(vs(x) for x in g[0]), sorted(e)))
        ck.ob(r['choices'], key, not bad, bad[0] if bad else '', 'Resource.cc')
        ck.counters['orderings asked (%s)' % key] = n
