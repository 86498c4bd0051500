"""Domains: the operations are the set operations they claim to be."""
from rules.domlib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'minDelta of a domain is positive; bounds lie on its grid (integers for integer domains)',
               'an interval sees an enumeration as the interval between its least and its greatest member']
I, X, B, E, T = 'IntervalIntDomain', 'IntervalDomain', 'BoolDomain', 'EnumeratedDomain', 'StringDomain'
DM = 'const EUROPA::Domain'


def hull(d):
    return (min(d.vals), max(d.vals)) if d.enum else d.vals


def relation(a, b):
    """how two intervals lie"""
    (l, u), (m, v) = a, b
    s = lambda x, y: 'before' if x < y else 'at' if x == y else 'after'
    if u < m or v < l:
        return 'disjoint'
    return 'low end %s, high end %s' % (s(l, m), s(u, v))


def srel(a, b):
    a, b = set(a), set(b)
    return 'equal' if a == b else 'subset' if a < b else 'superset' if a > b else 'disjoint' if not a & b else 'overlapping'


def ivs(vals):
    return [(a, b) for a in vals for b in vals if a <= b and a != INF and b != -INF]


def subsets(u, empty=False):
    return [s for n in range(0 if empty else 1, len(u) + 1) for s in itertools.combinations(u, n)]


def pairs(kind):
    """(A, B, label) of every order type"""
    iv = ivs((-INF, 0, 1, 2, 3, INF))
    rv = ivs((-INF, 0, 4, 8, 12, INF))
    en = subsets((0, 4, 8, 12))
    if kind == (I, I):
        return [(D(I, a), D(I, b), relation(a, b)) for a in iv for b in iv]
    if kind == (X, X):
        return [(D(X, a), D(X, b), relation(a, b)) for a in rv for b in rv]
    if kind == (B, B):
        bv = ((0, 0), (0, 1), (1, 1))
        return [(D(B, a), D(B, b), relation(a, b)) for a in bv for b in bv]
    if kind == (E, E):
        return [(D(E, a), D(E, b), srel(a, b)) for a in en for b in en]
    if kind == (E, X):
        return [(D(E, a), D(X, b), srel(a, [x for x in a + b if b[0] <= x <= b[1]])) for a in en for b in rv]
    if kind == (X, E):
        return [(D(X, a), D(E, b), relation(a, (min(b), max(b)))) for a in rv for b in en]
    if kind == (I, E):
        return [(D(I, a), D(E, b), relation(a, (min(b), max(b)))) for a in rv for b in en]
    raise Broken('pairs')


KINDS = [(I, I), (X, X), (B, B), (E, E), (E, X), (X, E)]


def norm(cls, v):
    """what is held, with every empty interval the same"""
    if v is None:
        return None
    if cls not in ENUM and v[0] > v[1]:
        return ()
    return v


def meet(a, b):
    """what A holds after intersection with B"""
    if a.enum and b.enum:
        return tuple(sorted(set(a.vals) & set(b.vals)))
    if a.enum:
        return tuple(v for v in a.vals if b.vals[0] <= v <= b.vals[1])
    m, v = hull(b)
    l, u = max(a.vals[0], m), min(a.vals[1], v)
    return (l, u) if l <= u else ()


def run(ck):
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('intersect', 'intersect leaves exactly the common values and answers whether it changed the domain', 20),
        ('bounds', 'intersect with bounds leaves exactly the values between them', 8),
        ('equate', 'equate leaves both domains with exactly the common values and answers whether either changed', 20),
        ('difference', 'difference leaves exactly the values that are not in the argument', 12),
        ('compare', 'isSubsetOf, intersects, == and != answer by the contents', 40),
        ('members', 'isMember, size, bounds and the list of values describe the contents', 12),
        ('value', 'set, remove and insert do to the contents what they say', 14),
        ('relax', 'relax and reset restore the given contents; assignment and copies take over contents', 12),
        ('open', 'an open enumeration is unconstrained until it is closed or meets a closed one', 10),
        ('precision', 'differences below the precision of the type are ignored', 6))}

    def judge(rule, inst, cases, f):
        """cases: [(description, Run, check(val, path) -> True | text)]"""
        bad = None
        n = 0
        for desc, rn, chk in cases:
            rs = rn.rets()
            if not rs:
                bad = bad or ('%s: the operation fails on every path' % (desc,), None)
            for v, p in rs:
                n += 1
                t = chk(v, p)
                if t is not True:
                    bad = bad or ('%s: %s' % (desc, t), p.why())
        ck.counters['order_types'] = ck.counters.get('order_types', 0) + len(cases)
        if not cases:
            raise Broken('no cases for %s' % inst)
        ck.ob(rule, inst, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)

    def group(kind, ok=lambda a, b: True):
        g = {}
        for a, b, l in pairs(kind):
            if ok(a, b):
                g.setdefault(l, []).append((a, b))
        return sorted(g.items())

    def holds(p, tag, d, want):
        got = norm(d.cls, read(p.st, tag, d.cls))
        return True if got == want else '%s holds %s, expected %s' % (tag, got, want)

    def same(d):
        return d.vals

    def also(*ts):
        for t in ts:
            if t is not True:
                return t
        return True

    def answers_(v, want):
        return True if v is want or v == want and type(v) in (bool, int, float) else 'answers %s, expected %s' % (vs(v) if isinstance(v, tuple) else v, want)

    # intersect
    for kind in KINDS:
        f = meth(ck, kind[0], 'intersect', 1, DM)
        for l, ab in group(kind):
            judge('intersect', '%s.intersect(%s): %s' % (kind + (l,)), [('%s and %s' % (a, b), Run(ck, f, a, b),
                  lambda v, p, a=a, b=b: also(holds(p, 'A', a, meet(a, b)), holds(p, 'B', b, same(b)), answers_(v, meet(a, b) != a.vals))) for a, b in ab], f)
    # equate
    for kind in KINDS:
        f = meth(ck, kind[0], 'equate', 1)
        for l, ab in group(kind):
            cs = []
            for a, b in ab:
                wa, wb = fix(a, b)
                cs.append(('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b, wa=wa, wb=wb: equated(p, a, b, wa, wb, v)))
            judge('equate', '%s.equate(%s): %s' % (kind + (l,)), cs, f)
    # difference
    for kind in ((I, I), (X, X), (E, E), (E, X)):
        f = meth(ck, kind[0], 'difference', 1)
        for l, ab in group(kind, lambda a, b: a.enum or not (a.vals[0] < hull(b)[0] and hull(b)[1] < a.vals[1])):
            judge('difference', '%s.difference(%s): %s' % (kind + (l,)), [('%s without %s' % (a, b), Run(ck, f, a, b),
                  lambda v, p, a=a, b=b: also(holds(p, 'A', a, minus(a, b)), holds(p, 'B', b, same(b)), answers_(v, minus(a, b) != a.vals))) for a, b in ab], f)

    # intersect with bounds
    for cls, vals, bs in ((I, (-INF, 0, 1, 2, 3, INF), ivs((-INF, 0, 1, 2, INF)) + [(0.5, 2.5), (1.5, 2), (1, 2.5), (1.25, 1.75)]),
                          (X, (-INF, 0, 4, 8, INF), ivs((-INF, 0, 4, 8, INF))), (B, (0, 1), ((0, 0), (0, 1), (1, 1))), (E, None, ivs((-INF, 0, 2, 4, 8, INF)) + [(8, 4)])):
        f = meth(ck, cls, 'intersect', 2)
        g = {}
        for a in (ivs(vals) if vals else subsets((0, 4, 8))):
            for b in bs:
                l = ('members' if vals is None else relation(a, b)) + (', fractional' if b[0] not in (INF, -INF) and b[1] not in (INF, -INF) and (b[0] != int(b[0]) or b[1] != int(b[1])) else '')
                g.setdefault(l, []).append((a, b))
        for l, ab in sorted(g.items()):
            cs = []
            for a, b in ab:
                d = D(cls, a)
                up = b if cls != I else tuple(x if x in (INF, -INF) else getattr(math, n)(x) for x, n in zip(b, ('ceil', 'floor')))
                w = meet(d, D(X, up)) if up[0] <= up[1] else ()
                cs.append(('%s and bounds %s' % (d, b), Run(ck, f, d, None, (K(b[0]), K(b[1]))), lambda v, p, d=d, w=w: also(holds(p, 'A', d, w), answers_(v, w != d.vals))))
            judge('bounds', '%s.intersect(bounds): %s' % (cls, l), cs, f)
    # comparisons
    for kind in ((I, I), (X, X), (B, B), (E, E), (E, X)):
        for op in ('isSubsetOf', 'intersects', 'operator==', 'operator!='):
            if kind == (E, X) and op.startswith('op'):
                continue
            f = meth(ck, kind[0], op, 1)
            for l, ab in group(kind):
                def want(a, b):
                    m = meet(a, b)
                    return {'isSubsetOf': m == a.vals, 'intersects': m != (), 'operator==': a.vals == b.vals, 'operator!=': a.vals != b.vals}[op]
                judge('compare', '%s.%s(%s): %s' % (kind[0], op, kind[1], l), [('%s and %s' % (a, b), Run(ck, f, a, b),
                      lambda v, p, a=a, b=b: also(answers_(v, want(a, b)), holds(p, 'A', a, a.vals), holds(p, 'B', b, b.vals))) for a, b in ab], f)
    f = meth(ck, E, 'operator==', 1)
    judge('compare', 'EnumeratedDomain == an integer interval', [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, w=w: answers_(v, w)) for a, b, w in (
        (D(E, (1, 2)), D(I, (1, 2)), True), (D(E, (1, 3)), D(I, (1, 3)), False), (D(E, (1,)), D(I, (1, 2)), False), (D(E, (4,)), D(I, (1, 1)), False))], f)
    # contents
    doms = [D(I, a) for a in ivs((-INF, 0, 1, 3, INF))] + [D(X, a) for a in ivs((-INF, 0, 4, INF))] + [D(B, a) for a in ((0, 0), (0, 1), (1, 1))] + [D(E, a) for a in subsets((0, 4, 8))]
    empties = [D(I, (3, -2)), D(X, (3, -2)), D(B, (3, -2)), D(E, ())]
    by = lambda ds: [(c, [d for d in ds if d.cls == c]) for c in (I, X, B, E)]
    for cls, ds in by(doms):
        f = meth(ck, cls, 'isMember', 1)
        cs = []
        for d in ds:
            for x in (-5, 0, 1, 2, 4, 8, 12) + ((0.5, 2.5) if cls == I else ()):
                w = x in d.vals if d.enum else d.vals[0] <= x <= d.vals[1] and (cls != I or x == int(x))
                cs.append(('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, w=w, d=d: also(answers_(v, w), holds(p, 'A', d, d.vals))))
        judge('members', '%s.isMember' % cls, cs, f)
        n = lambda d: len(d.vals) if d.enum else (1 if d.vals[0] == d.vals[1] else d.vals[1] - d.vals[0] + 1)
        fin = lambda d: d.enum or cls == B or d.vals[0] == d.vals[1] or cls == I and INF not in d.vals and -INF not in d.vals
        for op, w, sel in (('isSingleton', lambda d: n(d) == 1, lambda d: True), ('isEmpty', lambda d: False, lambda d: True), ('getSize', n, fin),
                           ('isFinite', fin, lambda d: True), ('getSingletonValue', lambda d: d.vals[0], lambda d: n(d) == 1),
                           ('getLowerBound', lambda d: d.vals[0], lambda d: True), ('getUpperBound', lambda d: d.vals[-1], lambda d: True)):
            f = meth(ck, cls, op, 0)
            judge('members', '%s.%s' % (cls, op), [(repr(d), Run(ck, f, d), lambda v, p, d=d: also(answers_(v, w(d)), holds(p, 'A', d, d.vals))) for d in ds if sel(d)], f)
        f = meth(ck, cls, 'getBounds', 2)
        judge('members', '%s.getBounds' % cls, [(repr(d), Run(ck, f, d, None, (('ref', 'LO'), ('ref', 'HI'))),
              lambda v, p, d=d: also(answers_(p.st.store.get('LO', S('?'))[1], d.vals[0]), answers_(p.st.store.get('HI', S('?'))[1], d.vals[-1]), answers_(v, -INF in d.vals or INF in d.vals))) for d in ds], f)
        f = meth(ck, cls, 'getValues', 1)
        judge('members', '%s.getValues' % cls, [(repr(d), Run(ck, f, d, None, (S('OUT'),)),
              lambda v, p, d=d: True if listed(p) == [str(x) for x in (d.vals if d.enum else range(d.vals[0], d.vals[1] + 1))] else 'lists %s' % (listed(p),)) for d in ds if fin(d)], f)
    for cls, ds in by(empties):
        for op, w in (('isEmpty', True), ('isSingleton', False), ('getSize', 0)):
            f = meth(ck, cls, op, 0)
            judge('members', '%s.%s when empty' % (cls, op), [(repr(d), Run(ck, f, d), lambda v, p: answers_(v, w)) for d in ds], f)
        f = meth(ck, cls, 'empty', 0)
        judge('value', '%s.empty' % cls, [(repr(d), Run(ck, f, d), lambda v, p, d=d: also(holds(p, 'A', d, ()))) for d in dict(by(doms))[cls]], f)
    # single values
    for cls, ds in by(doms):
        f = meth(ck, cls, 'set', 1, hasnt='st')
        judge('value', '%s.set' % cls, [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d, x=x: holds(p, 'A', d, (((x,) if d.enum else (x, x)) if member(d, x) else ())))
              for d in ds for x in (-5, 0, 1, 2, 4, 8, 12)], f)
        f = meth(ck, cls, 'remove', 1)
        cs = []
        for d in ds:
            for x in (0, 1) if cls == B else (-5, 0, 1, 2, 4, 8, 12):
                if d.enum or not member(d, x) or x in d.vals:
                    w = tuple(y for y in d.vals if y != x) if d.enum else d.vals if not member(d, x) else () if d.vals == (x, x) else (x + 1, d.vals[1]) if x == d.vals[0] else (d.vals[0], x - 1)
                    cs.append(('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d, w=w: holds(p, 'A', d, w)))
        judge('value', '%s.remove' % cls, cs, f)
    f = meth(ck, X, 'remove', 1)
    judge('value', 'IntervalDomain.remove steps by minDelta', [('%s, value %s' % (a, x), Run(ck, f, D(X, a), None, (K(x),), delta=.25), lambda v, p, a=a, w=w: holds(p, 'A', D(X, a), w))
          for a, x, w in (((0, 4), 0, (.25, 4)), ((0, 4), 4, (0, 3.75)), ((4, 4), 4, ()), ((-INF, 4), 4, (-INF, 3.75)))], f)
    f = meth(ck, I, 'insert', 1, hasnt='list')
    judge('value', 'IntervalIntDomain.insert', [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d, w=w: holds(p, 'A', d, w)) for d, x, w in (
        (D(I, (2, 4)), 1, (1, 4)), (D(I, (2, 4)), 5, (2, 5)), (D(I, (2, 4)), 2, (2, 4)), (D(I, (2, 4)), 3, (2, 4)), (D(I, (2, 2)), 1, (1, 2)), (D(I, (2, 2)), 3, (2, 3)), (D(I, (3, -2)), 7, (7, 7)))], f)
    f = meth(ck, E, 'insert', 1, hasnt='list')
    judge('value', 'EnumeratedDomain.insert', [('%s, value %s' % (a, x), Run(ck, f, D(E, a, closed=False), None, (K(x),)), lambda v, p, a=a, x=x: holds(p, 'A', D(E, a), tuple(sorted(set(a) | {x}))))
          for a in subsets((0, 4, 8), True) for x in (-4, 0, 2, 4, 6, 8, 12)], f)
    # restoring and copying
    for cls, bs, em in ((I, [D(I, a) for a in ivs((-INF, 0, 1, 2, INF))], D(I, (3, -2))), (X, [D(X, a) for a in ivs((-INF, 0, 4, 8, INF))], D(X, (3, -2))),
                        (E, [D(E, a) for a in subsets((0, 4, 8))], D(E, ()))):
        for op in ('relax', 'reset'):
            f = meth(ck, cls, op, 1, DM)
            judge('relax', '%s.%s' % (cls, op), [('%s to %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a, b=b: also(holds(p, 'A', a, b.vals), holds(p, 'B', b, b.vals)))
                  for b in bs for a in bs + [em] if meet(a, b) == a.vals or a is em and (cls == E or op == 'reset')], f)
        f = meth(ck, cls, 'relax', 1, hasnt='Domain')
        judge('relax', '%s.relax to a value' % cls, [('%s to 4' % em, Run(ck, f, em, None, (K(4),)), lambda v, p: holds(p, 'A', em, (4,) if em.enum else (4, 4)))], f)
        f = meth(ck, cls, 'operator=', 1, DM)
        judge('relax', '%s assigned' % cls, [('%s = %s' % (a, b), Run(ck, f, D(cls, a.vals, listener=False), b), lambda v, p, a=a, b=b: also(holds(p, 'A', a, b.vals), holds(p, 'B', b, b.vals)))
              for b in bs for a in bs[:3]], f)
    f = meth(ck, X, 'relax', 2)
    judge('relax', 'IntervalDomain.relax to bounds', [('%s to %s' % (a, b), Run(ck, f, a, None, (K(b[0]), K(b[1]))), lambda v, p, a=a, b=b: also(holds(p, 'A', a, b), answers_(v, b != a.vals)))
          for b in ivs((-INF, 0, 4, 8, INF)) for a in [D(X, a) for a in ivs((-INF, 0, 4, 8, INF)) if b[0] <= a[0] and a[1] <= b[1]]], f)
    for cls in (I, X, B, E, T, 'SymbolDomain', 'NumericDomain'):
        fs = [f for f in ck.P.byq.get('%s::%s' % (cls, cls), []) if len(f['p']) == 1 and DM in f['p'][0]['t']]
        if len(fs) != 1:
            raise Broken('copy constructor of %s' % cls)
        for op in (True, False):
            if not op and cls not in ENUM:
                continue
            src = D(cls, (0, 4) if cls in ENUM else (0, 1), closed=op)
            judge('relax', '%s copied%s' % (cls, '' if op else ' while open'), [('copy of %s' % src, Run(ck, fs[0], D(cls, (9,) if cls in ENUM else (9, 9), listener=False), src),
                  lambda v, p: also(holds(p, 'A', src, src.vals), True if closed(p.st, 'A', cls) == op else 'the copy is %s' % ('open' if op else 'closed')))], fs[0])
    fs = [f for f in ck.P.byq.get('Domain::Domain', []) if len(f['p']) == 1 and DM in f['p'][0]['t']]
    if len(fs) != 1:
        raise Broken('copy constructor of Domain')
    for src in (D(E, (0, 4)), D(E, (0, 4), closed=False), D(X, (0, 4))):
        judge('relax', 'the base of %s copied' % src, [('copy of %s' % src, Run(ck, fs[0], D(E if not src.enum else X, (9, 9), closed=not src.closed, listener=False), src),
              lambda v, p, src=src: also(*[True if p.st.store.get('%s%s' % (D(E if not src.enum else X, ()).name('A'), m)) in w else 'the copy has a wrong %s' % m[3:]
                                          for m, w in (('.m_closed', (K(src.closed),)), ('.m_enumerated', (K(src.enum),)), ('.m_dataType', (S('dtB'),)), ('.m_listener', (NULL, None)))]))], fs[0])
    for cls in (I, X, B, E, T, 'SymbolDomain', 'NumericDomain'):
        f = meth(ck, cls, 'copy', 0)
        cs = []
        for d in [D(cls, v, closed=c) for v in (((0, 4), (4,)) if cls in ENUM else ((0, 1), (1, 1))) for c in ((True, False) if cls in ENUM else (True,))]:
            def cp(v, p, d=d):
                v = v[1] if isinstance(v, tuple) else v
                m = re.match(r'new (\w+)@', str(v))
                if not m or m.group(1) != cls or v == d.name('A'):
                    return 'answers %s' % (v,)
                if v.endswith('(%s)' % d.name('A')) and not any(k.startswith(v + '.') for k in list(p.st.store) + list(p.st.conts)):
                    return holds(p, 'A', d, d.vals)      # the copy constructor made by the compiler: every member, and the copied base
                g = tuple(sorted(x[1] for x in p.st.conts.get(v + '.m_values', ((), 0))[0])) if d.enum else tuple(p.st.store.get(v + b, S('?'))[1] for b in ('.m_lb', '.m_ub'))
                return also(True if g == d.vals else 'the copy holds %s' % (g,), True if p.st.store.get(v + '.m_closed') == K(d.closed) else 'the copy is open or closed wrongly',
                            True if p.st.store.get(v + '.m_listener') in (None, NULL) else 'the copy has the listener of the original', holds(p, 'A', d, d.vals))
            cs.append((repr(d), Run(ck, f, d, inline=lambda g: True), cp))
        judge('relax', '%s.copy()' % cls, cs, f)
    # open enumerations
    O, C = (lambda *v: D(E, v, closed=False)), (lambda *v: D(E, v))
    oc = [(O(0, 4), C(4, 8)), (O(), C(4, 8)), (O(4), C(4)), (C(0, 4), O(4, 8)), (C(0, 4), O()), (O(0), O(4)), (O(0), O(0))]
    st = lambda d: 'open' if not d.closed else 'closed'
    for n, w in (('isSubsetOf', lambda a, b: not b.closed), ('intersects', lambda a, b: True), ('operator==', lambda a, b: a.closed == b.closed and a.vals == b.vals)):
        f = meth(ck, E, n, 1)
        for a, b in oc:
            judge('open', '%s: %s and %s' % (n, st(a) + repr(a.vals), st(b) + repr(b.vals)), [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p: answers_(v, w(a, b)))], f)
    f = meth(ck, E, 'intersect', 1, DM)
    g = meth(ck, E, 'equate', 1)
    for a, b in oc:
        for n, fn in (('intersect', f), ('equate', g)):
            wa = b if not a.closed and b.closed else a
            wb = a if n == 'equate' and a.closed and not b.closed else b
            judge('open', '%s: %s and %s' % (n, st(a) + repr(a.vals), st(b) + repr(b.vals)), [('%s and %s' % (a, b), Run(ck, fn, a, b),
                  lambda v, p: also(holds(p, 'A', a, wa.vals), holds(p, 'B', b, wb.vals), answers_(v, wa is not a or wb is not b),
                                    True if closed(p.st, 'A', E) == wa.closed and closed(p.st, 'B', E) == wb.closed else 'left open or closed wrongly'))], fn)
    f = meth(ck, T, 'set', 1, 'edouble')
    judge('open', 'an open string domain is set to any string', [('%s, value %s' % (d, x), Run(ck, f, d, None, (K(x),)), lambda v, p, d=d, x=x: also(holds(p, 'A', d, (x,)), closed(p.st, 'A', T) is True or 'it stays open'))
          for d in (D(T, (), closed=False), D(T, (4,), closed=False)) for x in (0, 4, 8)], f)
    judge('open', 'a closed string domain is set to a member', [('%s, value %s' % (d, 4), Run(ck, f, d, None, (K(4),)), lambda v, p, d=d: holds(p, 'A', d, (4,))) for d in (D(T, (4,)), D(T, (0, 4, 8)))], f)
    f = meth(ck, T, 'isMember', 1, 'edouble')
    judge('open', 'membership of an open string domain', [('%s, value 8' % d, Run(ck, f, d, None, (K(8),)), lambda v, p, d=d: answers_(v, not d.closed or 8 in d.vals))
          for d in (D(T, (4,), closed=False), D(T, (4,)), D(T, (4, 8)))], f)
    f = meth(ck, E, 'relax', 1, DM)
    judge('open', 'a closed enumeration relaxed to an open one opens', [('%s' % a, Run(ck, f, a, O(0, 4)), lambda v, p: also(holds(p, 'A', C(), (0, 4)), closed(p.st, 'A', E) is False or 'it stays closed')) for a in (C(), C(4))], f)
    judge('open', 'an enumeration relaxed to an open one without values opens', [('%s' % a, Run(ck, f, a, O()), lambda v, p: also(holds(p, 'A', C(), ()), closed(p.st, 'A', E) is False or 'it stays closed')) for a in (C(), C(4))], f)
    f = meth(ck, E, 'close', 0)
    judge('open', 'closing', [('%s' % a, Run(ck, f, a), lambda v, p, a=a: also(holds(p, 'A', a, a.vals), closed(p.st, 'A', E) is True or 'it stays open')) for a in (O(), O(4), O(0, 4), C(0))], f)
    # precision
    h = 0.5
    f = meth(ck, X, 'intersect', 2)
    judge('precision', 'IntervalDomain.intersect', [('%s and %s' % (a, b), Run(ck, f, a, None, (K(b[0]), K(b[1]))), lambda v, p, a=a: also(holds(p, 'A', a, a.vals), answers_(v, False)))
          for a, b in ((D(X, (0, 8)), (h, 8 - h)), (D(X, (0, 8)), (-h, 8 + h)), (D(X, (4, 4)), (4 - h, 4 - h)), (D(X, (4, 4)), (4 + h, 8)))], f)
    f = meth(ck, X, 'isMember', 1)
    judge('precision', 'IntervalDomain.isMember', [('%s' % x, Run(ck, f, D(X, (0, 8)), None, (K(x),)), lambda v, p, w=w: answers_(v, w)) for x, w in ((-h, True), (8 + h, True), (-1, False), (9, False))], f)
    for n, cs in (('isSingleton', (((4, 4 + h), True), ((4, 5), False), ((4, 4), True))), ('isEmpty', (((4 + h, 4), False), ((5, 4), True), ((4, 4 + h), False)))):
        f = meth(ck, X, n, 0)
        judge('precision', 'IntervalDomain.' + n, [('%s' % (a,), Run(ck, f, D(X, a)), lambda v, p, w=w: answers_(v, w)) for a, w in cs], f)
    f = meth(ck, X, 'operator==', 1)
    judge('precision', 'IntervalDomain ==', [('%s and %s' % (a, b), Run(ck, f, D(X, a), D(X, b)), lambda v, p, w=w: answers_(v, w)) for a, b, w in (((0, 8), (h, 8 - h), True), ((0, 8), (1, 8), False), ((0, 8), (0, 7), False))], f)
    f = meth(ck, E, 'isMember', 1)
    judge('precision', 'EnumeratedDomain.isMember', [('%s' % x, Run(ck, f, D(E, (0, 4, 8)), None, (K(x),)), lambda v, p, w=w: answers_(v, w))
          for x, w in [(y + e, abs(e) < 1) for y in (0, 4, 8) for e in (-1, -h, 0, h, 1)]], f)
    near = [(D(E, (0, 4)), D(E, (h, 4 - h, 8))), (D(E, (h, 4 - h)), D(E, (0, 4))), (D(E, (4,)), D(E, (4 + h,)))]
    for n, w in (('intersect', False), ('isSubsetOf', True), ('intersects', True)):
        f = meth(ck, E, n, 1)
        judge('precision', 'EnumeratedDomain.' + n, [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p, a=a: also(holds(p, 'A', a, a.vals), answers_(v, w))) for a, b in near], f)
    f = meth(ck, E, 'operator==', 1)
    judge('precision', 'EnumeratedDomain ==', [('%s and %s' % (a, b), Run(ck, f, a, b), lambda v, p: answers_(v, True)) for a, b in near[1:]], f)


def member(d, x):
    return x in d.vals if d.enum else d.vals[0] <= x <= d.vals[1]

def fix(a, b):
    """mutual intersection"""
    x, y = a, b
    wa, wb = a.vals, b.vals
    for i in range(4):
        na = meet(D(a.cls, wa), D(b.cls, wb)) if wa and wb else ()
        nb = meet(D(b.cls, wb), D(a.cls, na)) if na and wb else ()
        wa, wb = na, nb
    return wa, wb


def equated(p, a, b, wa, wb, v):
    ga, gb = norm(a.cls, read(p.st, 'A', a.cls)), norm(b.cls, read(p.st, 'B', b.cls))
    if not wa or not wb:
        if ga != () and gb != ():
            return 'no common value, yet the domains hold %s and %s' % (ga, gb)
    elif (ga, gb) != (wa, wb):
        return 'the domains hold %s and %s, expected %s and %s' % (ga, gb, wa, wb)
    ch = (ga, gb) != (a.vals, b.vals)
    return True if v is ch else 'answers %s, but %s' % (v, 'something changed' if ch else 'nothing changed')


def minus(a, b):
    if a.enum:
        if b.enum:
            return tuple(x for x in a.vals if x not in b.vals)
        return tuple(x for x in a.vals if not b.vals[0] <= x <= b.vals[1])
    (l, u), (m, v) = a.vals, b.vals
    if v < l or u < m:
        return a.vals
    if m <= l and u <= v:
        return ()
    return (v + 1, u) if m <= l else (l, m - 1)
