"""Domains announce every change of their contents, as what it is."""
from rules.domlib import *
from rules.C04 import I, X, B, E, T, DM, KINDS, pairs, meet, minus, norm, relation, srel, ivs, subsets, hull, member
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'the listener of a variable\'s domain hands each change to the constraint engine, which is the subject of other properties']


def kind_of(d, old, new):
    """the announcement a restriction from old to new calls for"""
    if not new:
        return 'EMPTIED'
    if len(new) == 1 if d.enum else new[0] == new[1]:
        return 'RESTRICT_TO_SINGLETON'
    if d.enum:
        return 'VALUE_REMOVED'
    return {(True, True): 'BOUNDS_RESTRICTED', (True, False): 'LOWER_BOUND_INCREASED', (False, True): 'UPPER_BOUND_DECREASED'}[(new[0] != old[0], new[1] != old[1])]


def run(ck):
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('restriction', 'a restriction is announced once, as what it did; nothing is announced when nothing changed', 40),
        ('equate', 'equating announces every domain that changed, ending with its final state', 20),
        ('value', 'setting, removing and inserting a value is announced as what it did', 12),
        ('relaxation', 'relaxation and reset are announced when the contents changed', 7),
        ('opening', 'opening and closing are announced, and that a closed domain is empty', 8),
        ('listener', 'a listener attached late learns that the domain is closed and empty', 4),
        ('delivery', 'every kind of change reaches the listeners of the engine as the same kind', 11))}

    def judge(rule, inst, cases, f):
        bad = None
        for desc, rn, chk in cases:
            rs = rn.rets()
            if not rs:
                bad = bad or ('%s: the operation fails on every path' % (desc,), None)
            for v, p in rs:
                t = chk(v, p)
                if t is not True:
                    bad = bad or ('%s: %s' % (desc, t), p.why())
        ck.counters['order_types'] = ck.counters.get('order_types', 0) + len(cases)
        if not cases:
            raise Broken('no cases for %s' % inst)
        ck.ob(rule, inst, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)

    def says(p, tag, want):
        got = notes(p, tag)
        return True if got == want else 'announces %s, expected %s' % (got, want)

    def restricted(p, tag, d):
        """one announcement that fits what happened to the contents"""
        now = norm(d.cls, read(p.st, tag, d.cls))
        if now is None:
            return 'contents unknown'
        return says(p, tag, [] if now == d.vals else [kind_of(d, d.vals, now)])

    def both_(a, b):
        return a if a is not True else b

    def group(kind, ok=lambda a, b: True):
        g = {}
        for a, b, l in pairs(kind):
            if ok(a, b):
                g.setdefault(l, []).append((a, b))
        return sorted(g.items())
    for kind in KINDS:
        for op in ('intersect', 'difference'):
            if op == 'difference' and kind in ((X, E), (B, B)):
                continue
            f = meth(ck, kind[0], op, 1, DM)
            for l, ab in group(kind, lambda a, b: op == 'intersect' or a.enum or not (a.vals[0] < hull(b)[0] and hull(b)[1] < a.vals[1])):
                judge('restriction', '%s.%s(%s): %s' % (kind[0], op, kind[1], l), [('%s and %s' % (a, b), Run(ck, f, a, b),
                      lambda v, p, a=a: both_(restricted(p, 'A', a), says(p, 'B', []))) for a, b in ab], f)
        f = meth(ck, kind[0], 'equate', 1)

        def ended(p, tag, d):
            now, ns = norm(d.cls, read(p.st, tag, d.cls)), notes(p, tag)
            if now is None:
                return 'contents unknown'
            if now == d.vals:
                return True if not ns else '%s is unchanged but announces %s' % (tag, ns)
            last = [k for k in ('EMPTIED', 'RESTRICT_TO_SINGLETON') if kind_of(d, d.vals, now) == k] or ['VALUE_REMOVED'] if d.enum or kind_of(d, d.vals, now) in ('EMPTIED', 'RESTRICT_TO_SINGLETON') else ['BOUNDS_RESTRICTED', 'LOWER_BOUND_INCREASED', 'UPPER_BOUND_DECREASED']
            if not ns or ns[-1] not in last:
                return '%s changed from %s to %s but announces %s' % (tag, d, now, ns)
            if any(x in ('EMPTIED', 'RELAXED', 'RESET', 'SET_TO_SINGLETON', 'CLOSED', 'OPENED') for x in ns[:-1]) or len(ns) > 2:
                return '%s announces %s' % (tag, ns)
            if not d.enum and len(last) > 1:
                lo = any(x in ('LOWER_BOUND_INCREASED', 'BOUNDS_RESTRICTED') for x in ns)
                hi = any(x in ('UPPER_BOUND_DECREASED', 'BOUNDS_RESTRICTED') for x in ns)
                if (lo, hi) != (now[0] != d.vals[0], now[1] != d.vals[1]):
                    return '%s changed from %s to %s but announces %s' % (tag, d, now, ns)
            return True
        for l, ab in group(kind):
            judge('equate', '%s.equate(%s): %s' % (kind + (l,)), [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b: both_(ended(p, 'A', a), ended(p, 'B', b))) for a, b in ab], f)
    for cls, vals, bs in ((I, (0, 1, 2, 3), ivs((-INF, 0, 1, 2, INF)) + [(0.5, 2.5), (1.25, 1.75)]), (X, (-INF, 0, 4, 8, INF), ivs((-INF, 0, 4, 8, INF))),
                          (B, (0, 1), ((0, 0), (0, 1), (1, 1))), (E, None, ivs((0, 2, 4, 8, INF)))):
        f = meth(ck, cls, 'intersect', 2)
        judge('restriction', '%s.intersect(bounds)' % cls, [('%s and bounds %s' % (d, b), Run(ck, f, d, None, (K(b[0]), K(b[1]))), lambda v, p, d=d: restricted(p, 'A', d))
              for d in [D(cls, a) for a in (ivs(vals) if vals else subsets((0, 4, 8)))] for b in bs], f)
    f = meth(ck, X, 'intersect', 2)
    judge('restriction', 'IntervalDomain.intersect(bounds) below the precision', [('%s' % (b,), Run(ck, f, D(X, (0, 8)), None, (K(b[0]), K(b[1]))), lambda v, p: says(p, 'A', [])) for b in ((0.5, 7.5), (-0.5, 8.5))], f)
    # values
    doms = {I: [D(I, a) for a in ivs((-INF, 0, 1, 3, INF))], X: [D(X, a) for a in ivs((-INF, 0, 4, INF))], B: [D(B, a) for a in ((0, 0), (0, 1), (1, 1))], E: [D(E, a) for a in subsets((0, 4, 8))]}
    for cls, ds in doms.items():
        f = meth(ck, cls, 'set', 1, hasnt='st')
        judge('value', '%s.set' % cls, [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d, x=x: says(p, 'A', ['SET_TO_SINGLETON' if member(d, x) else 'EMPTIED']))
              for d in ds for x in (-5, 0, 1, 2, 4, 8, 12)], f)
        f = meth(ck, cls, 'remove', 1)
        judge('value', '%s.remove' % cls, [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d: restricted(p, 'A', d))
              for d in ds for x in ((0, 1) if cls == B else (-5, 0, 1, 4, 8)) if d.enum or not member(d, x) or x in d.vals], f)
        f = meth(ck, cls, 'empty', 0)
        judge('value', '%s.empty' % cls, [(repr(d), Run(ck, f, d), lambda v, p: says(p, 'A', ['EMPTIED'])) for d in ds], f)
        f = meth(ck, cls, 'touch', 0)
        judge('value', '%s.touch' % cls, [(repr(d), Run(ck, f, d), lambda v, p, d=d: says(p, 'A', ['RESTRICT_TO_SINGLETON' if (len(d.vals) == 1 if d.enum else d.vals[0] == d.vals[1]) else 'BOUNDS_RESTRICTED'])) for d in ds], f)
    f = meth(ck, I, 'insert', 1, hasnt='list')
    judge('value', 'IntervalIntDomain.insert', [('%s, value %s' % (D(I, a), x), Run(ck, f, D(I, a), None, (K(x),)), lambda v, p, w=w: says(p, 'A', w)) for a, x, w in (
        ((2, 4), 1, ['RELAXED']), ((2, 4), 5, ['RELAXED']), ((2, 4), 2, []), ((2, 4), 3, []), ((3, -2), 7, ['RELAXED']))], f)
    f = meth(ck, E, 'insert', 1, hasnt='list')
    judge('value', 'EnumeratedDomain.insert', [('%s, value %s' % (a, x), Run(ck, f, D(E, a, closed=False), None, (K(x),)), lambda v, p: says(p, 'A', [])) for a in subsets((0, 4), True) for x in (0, 2, 8)], f)
    f = meth(ck, E, 'remove', 1)
    judge('value', 'EnumeratedDomain.remove while open', [('%s, value %s' % (a, x), Run(ck, f, D(E, a, closed=False), None, (K(x),)), lambda v, p, w=w: says(p, 'A', w)) for a, x, w in (
        ((0, 4, 8), 4, ['VALUE_REMOVED']), ((0,), 0, ['VALUE_REMOVED']), ((0,), 4, []))], f)
    # relaxation
    for cls, bs, em in ((I, doms[I], D(I, (3, -2))), (X, doms[X], D(X, (3, -2))), (E, doms[E], D(E, ()))):
        f = meth(ck, cls, 'relax', 1, DM)
        if cls != E:
            judge('relaxation', '%s.relax' % cls, [('%s to %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b: says(p, 'A', ['RELAXED'] if b.vals != a.vals else []))
                  for b in bs for a in bs if meet(a, b) == a.vals], f)
        else:
            judge('relaxation', '%s.relax' % cls, [('%s to %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b: says(p, 'A', ['RELAXED']) if b.vals != a.vals else True)
                  for b in bs for a in bs + [em] if meet(a, b) == a.vals], f)
        f = meth(ck, cls, 'reset', 1, DM)
        judge('relaxation', '%s.reset' % cls, [('%s to %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b: says(p, 'A', ['RELAXED', 'RESET'] if b.vals != a.vals else []))
              for b in bs for a in bs + [em] if meet(a, b) == a.vals], f)
        f = meth(ck, cls, 'relax', 1, hasnt='Domain')
        judge('relaxation', '%s.relax to a value' % cls, [('%s to 4' % em, Run(ck, f, em, None, (K(4),)), lambda v, p: says(p, 'A', ['RELAXED'])), ('4 to 4', Run(ck, f, D(cls, (4,) if em.enum else (4, 4)), None, (K(4),)), lambda v, p: says(p, 'A', []))], f)
    f = meth(ck, X, 'relax', 2)
    judge('relaxation', 'IntervalDomain.relax to bounds', [('%s to %s' % (a, b), Run(ck, f, a, None, (K(b[0]), K(b[1]))), lambda v, p, a=a, b=b: says(p, 'A', ['RELAXED'] if b != a.vals else []))
          for b in ivs((-INF, 0, 4, INF)) for a in doms[X] if b[0] <= a.vals[0] and a.vals[1] <= b[1]], f)
    # open and closed
    O, C = (lambda *v: D(E, v, closed=False)), (lambda *v: D(E, v))
    f = meth(ck, E, 'close', 0)
    judge('opening', 'close', [('%s' % d, Run(ck, f, d), lambda v, p, w=w: says(p, 'A', w)) for d, w in ((O(), ['CLOSED', 'EMPTIED']), (O(4), ['CLOSED']), (O(0, 4), ['CLOSED']), (C(4), []), (C(), []))], f)
    f = meth(ck, E, 'open', 0)
    judge('opening', 'open', [('%s' % d, Run(ck, f, d), lambda v, p: says(p, 'A', ['OPENED'])) for d in (C(4), C(0, 4))], f)
    f = meth(ck, E, 'set', 1, hasnt='st')
    judge('opening', 'set while open', [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, w=w: says(p, 'A', w)) for d, x, w in (
        (O(0, 4), 4, ['CLOSED', 'SET_TO_SINGLETON']), (O(0, 4), 8, ['CLOSED', 'EMPTIED']))], f)
    f = meth(ck, T, 'set', 1, 'edouble')
    judge('opening', 'string set while open', [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p: says(p, 'A', ['CLOSED', 'SET_TO_SINGLETON'])) for d, x in (
        (D(T, (), closed=False), 4), (D(T, (0, 4), closed=False), 4), (D(T, (0, 4), closed=False), 8))], f)
    f = meth(ck, E, 'intersect', 1, DM)
    judge('opening', 'open meets closed', [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, w=w: both_(says(p, 'A', w), says(p, 'B', []))) for a, b, w in (
        (O(0, 4), C(4, 8), ['CLOSED']), (O(), C(4), ['CLOSED']), (O(0), O(4), []), (C(0, 4), O(4), []))], f)
    f = meth(ck, E, 'equate', 1)
    judge('opening', 'open equated with closed', [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, w=w: both_(says(p, 'A', w[0]), says(p, 'B', w[1]))) for a, b, w in (
        (O(0, 4), C(4, 8), (['CLOSED'], [])), (C(4, 8), O(0, 4), ([], ['CLOSED'])), (O(0), O(4), ([], [])))], f)
    f = meth(ck, E, 'relax', 1, DM)
    judge('opening', 'closed relaxed to open', [('%s to %s' % (a, O(0, 4)), Run(ck, f, a, O(0, 4)), lambda v, p: says(p, 'A', ['OPENED', 'RELAXED'])) for a in (C(), C(4))], f)
    f = meth(ck, E, 'reset', 1, DM)
    judge('opening', 'closed reset to open', [('%s to %s' % (a, O(0, 4)), Run(ck, f, a, O(0, 4)), lambda v, p: says(p, 'A', ['OPENED', 'RELAXED', 'RESET'])) for a in (C(), C(4), C(0, 4))], f)
    # listener
    f = meth(ck, E, 'setListener', 1)
    L = lambda d: D(d.cls, d.vals, d.closed, listener=False)
    for n, d, w in (('closed', C(0, 4), ['CLOSED']), ('closed and empty', C(), ['CLOSED', 'EMPTIED']), ('open', O(0, 4), []), ('open and empty', O(), []),
                    ('interval', D(I, (0, 4)), ['CLOSED']), ('empty interval', D(I, (3, -2)), ['CLOSED', 'EMPTIED'])):
        judge('listener', n, [(n, Run(ck, f, L(d), None, (S('lstA'),)), lambda v, p: both_(says(p, 'A', w), True if p.st.store.get(L(d).name('A') + '.m_listener') == S('lstA') else 'the listener is not kept'))], f)
    # delivery
    order = ['UPPER_BOUND_DECREASED', 'LOWER_BOUND_INCREASED', 'BOUNDS_RESTRICTED', 'VALUE_REMOVED', 'RESTRICT_TO_SINGLETON', 'SET_TO_SINGLETON', 'RESET', 'RELAXED', 'CLOSED', 'OPENED', 'EMPTIED']
    ps = [f for f in ck.P.byq.get('PSConstraintEngineListener::notifyChanged', []) if 'ChangeType &' in f['p'][1]['t']]
    if len(ps) != 1:
        raise Broken('PSConstraintEngineListener::notifyChanged')
    vl = ck.fn('VariableChangeListener::notifyChange')
    for k in order:
        c = K('enum:DomainListener::' + k)
        cx = 'enum:PSConstraintEngineListener::' + k
        bad = None

        def rc(ev, st, fl):
            if ev.kind == 'call' and ev.m in ('notifyChanged', 'notify'):
                return ('c', ev.m, tuple(ev.args), ev.node.get('u') != ps[0]['u'])
        for f, args, m in ((ps[0], (S('V'), c), 'notifyChanged'), (vl, (c,), 'notify')):
            q = Seq(ck, rc, scope=('PSConstraintEngineListener',), self_cls=short(f['cls']))
            for p in q.call(f, 'this', args):
                ev = [t for t in p.trace if t[0] == 'c' and t[1] == m]
                v = [t[2][1] for t in ev if len(t[2]) > 1]
                num_ = lambda x: ck.P.enumc.get(x[1][5:]) if x[0] == 'k' and isinstance(x[1], str) else x[1] if x[0] == 'k' else None
                if len(v) != 1 or num_(v[0]) is None or num_(v[0]) != ck.P.enumc.get((cx if m == 'notifyChanged' else c[1])[5:]):
                    bad = '%s reaches %s as %s' % (k, 'PS listeners' if m == 'notifyChanged' else 'the constraint engine', [vs(x) for x in v])
        ck.ob('delivery', k, bad is None, bad or '', ck.where(ps[0] if 'PS' in (bad or 'PS') else vl))
