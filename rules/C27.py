"""The constraint library: what one execution of a built-in constraint may and must remove from its arguments' domains.

The constructor and handleExecute of each constraint class are interpreted over representative argument domains and the
domains left are compared with the relation, tuple by tuple."""
import itertools, random, os
from rules.conlib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['arguments are all intervals of integers, all booleans, all symbols or all enumerated numbers, closed, except where a rule says otherwise',
               'a division 0 / 0 has every quotient', 'the representative bounds lie between -4 and 6 or are infinite; resolution of a real domain 1/1024',
               'distance, sine, union, lock and membership-implication constraints are outside the rules',
               'a composed constraint is judged by the relation of the constraints it posts']
I, X, B, E, NM = 'IntervalIntDomain', 'IntervalDomain', 'BoolDomain', 'EnumeratedDomain', 'NumericDomain'
R = [x / 2 for x in range(-16, 27)]


def ivs(lo, hi, inf=False, cls=I):
    o = [(a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]
    if inf:
        o += [(-INF, b) for b in range(lo, hi + 1)] + [(a, INF) for a in range(lo, hi + 1)] + [(-INF, INF)]
    return [D(cls, v) for v in o]


BV = [D(B, v) for v in ((0, 0), (0, 1), (1, 1))]
SUBS = [s for n in (1, 2, 3) for s in itertools.combinations((0, 1, 2), n)]
EV, NV = [D(E, s) for s in SUBS], [D(NM, s) for s in SUBS]
OV = EV + [D(E, s, closed=False) for s in SUBS]
SG, SGI, SM, S3, RX = ivs(-3, 3), ivs(-2, 2, True), ivs(0, 3), ivs(0, 2), ivs(-2, 2, True, X)
RI = RX + ivs(-1, 2, True)
RF = ivs(-3, 2, False, X) + ivs(-3, 2)
FRESH = 97


def same(v):
    return len(set(v)) == 1


def diff(v):
    return len(set(v)) == len(v)


add, mul = (lambda x, y, z: x + y == z), (lambda x, y, z: x * y == z)
ceq, cne = (lambda c, *a: c == same(a)), (lambda c, *a: c == diff(a))
mn, mx = (lambda c, *a: c == min(a)), (lambda c, *a: c == max(a))
# class, name, argument pools, relation, strength: H every supported value exactly; F exactly when at most one argument is not a singleton;
# V exactly argument 0 when the others are singletons; D a violation by singletons empties a domain; S nothing but soundness
TABLE = [
    ('AddEqualConstraint', 'integers', [SG] * 3, add, 'H'),
    ('AddEqualConstraint', 'unbounded integers', [SGI] * 3, add, 'H'),
    ('AddEqualConstraint', 'reals and integers', [RI] * 3, add, 'S'),
    ('MultEqualConstraint', 'integers', [SG] * 3, mul, 'F'),
    ('MultEqualConstraint', 'reals and integers', [RF] * 3, mul, 'S'),
    ('DivEqualConstraint', 'integers', [SG] * 3, lambda x, y, z: x == y * z, 'F'),
    ('DivEqualConstraint', 'reals and integers', [RF] * 3, lambda x, y, z: x == y * z, 'S'),
    ('EqualConstraint', 'integers', [SG] * 3, lambda *a: same(a), 'H'),
    ('EqualConstraint', 'two integers', [SGI] * 2, lambda *a: same(a), 'H'),
    ('EqualConstraint', 'symbols', [EV] * 3, lambda *a: same(a), 'H'),
    ('EqualConstraint', 'reals and integers', [RI] * 2, lambda *a: same(a), 'S'),
    ('NotEqualConstraint', 'integers', [SGI] * 2, lambda x, y: x != y, 'H'),
    ('NotEqualConstraint', 'symbols', [EV] * 2, lambda x, y: x != y, 'H'),
    ('NotEqualConstraint', 'booleans', [BV] * 2, lambda x, y: x != y, 'H'),
    ('LessThanEqualConstraint', 'integers', [SGI] * 2, lambda x, y: x <= y, 'H'),
    ('LessThanEqualConstraint', 'enumerated numbers', [NV] * 2, lambda x, y: x <= y, 'H'),
    ('LessThanEqualConstraint', 'reals and integers', [RI] * 2, lambda x, y: x <= y, 'S'),
    ('LessThanConstraint', 'integers', [SGI] * 2, lambda x, y: x < y, 'H'),
    ('NegateConstraint', 'integers', [SGI] * 2, lambda x, y: x == -y, 'H'),
    ('CondAllSameConstraint', 'integers', [BV, SM, SM, SM], ceq, 'F'),
    ('CondAllSameConstraint', 'two integers', [BV, SM, SM], ceq, 'F'),
    ('CondAllSameConstraint', 'symbols', [BV, EV, EV, EV], ceq, 'F'),
    ('CondAllDiffConstraint', 'integers', [BV, SM, SM, SM], cne, 'D'),
    ('CondAllDiffConstraint', 'two integers', [BV, SM, SM], cne, 'D'),
    ('CondAllDiffConstraint', 'symbols', [BV, EV, EV, EV], cne, 'D'),
    ('CondAllDiffConstraint', 'open and closed symbols', [BV, OV, OV], cne, 'S'),
    ('CondAllDiffConstraint', 'three open and closed symbols', [BV, OV, OV, OV], cne, 'S'),
    ('CountZeroesConstraint', 'integers', [SM, S3, S3, S3], lambda c, *a: c == sum(v == 0 for v in a), 'H'),
    ('CountZeroesConstraint', 'enumerated numbers', [SM, NV, NV], lambda c, *a: c == sum(v == 0 for v in a), 'H'),
    ('EqualMinimumConstraint', 'two integers', [SG] * 3, mn, 'D'),
    ('EqualMinimumConstraint', 'three integers', [SM] * 4, mn, 'D'),
    ('EqualMinimumConstraint', 'enumerated numbers', [NV] * 3, mn, 'D'),
    ('EqualMaximumConstraint', 'two integers', [SG] * 3, mx, 'D'),
    ('EqualMaximumConstraint', 'three integers', [SM] * 4, mx, 'D'),
    ('EqualMaximumConstraint', 'enumerated numbers', [NV] * 3, mx, 'D'),
    ('TestEQ', 'integers', [BV, SM, SM], lambda c, a, b: c == (a == b), 'V'),
    ('TestEQ', 'symbols', [BV, EV, EV], lambda c, a, b: c == (a == b), 'V'),
    ('TestNEQ', 'integers', [BV, SM, SM], lambda c, a, b: c == (a != b), 'F'),
    ('TestNEQ', 'symbols', [BV, EV, EV], lambda c, a, b: c == (a != b), 'F'),
    ('TestOr', 'booleans', [BV] * 3, lambda c, a, b: c == (a or b), 'F'),
    ('TestAnd', 'booleans', [BV] * 3, lambda c, a, b: c == (a and b), 'F'),
    ('TestLessThan', 'integers', [BV, SGI, SGI], lambda c, a, b: c == (a < b), 'H'),
    ('TestLEQ', 'integers', [BV, SGI, SGI], lambda c, a, b: c == (a <= b), 'H'),
    ('WithinBounds', 'integers', [SG] * 3, lambda a, b, c: b <= a <= c, 'V'),
    ('AbsoluteValue', 'integers', [SGI] * 2, lambda a, b: a == abs(b), 'V'),
    ('SquareOfDifferenceConstraint', 'integers', [SM] * 3, lambda a, b, c: c == (a - b) ** 2, 'D'),
    ('MaxConstraint', 'integers', [SG] * 3, mx, 'V'),
    ('MinConstraint', 'integers', [SG] * 3, mn, 'V'),
    ('AbsConstraint', 'integers', [SG] * 2, lambda a, b: a == abs(b), 'V'),
    ('FloorConstraint', 'integers', [SG] * 2, lambda a, b: a == b, 'V'),
    ('CeilConstraint', 'integers', [SG] * 2, lambda a, b: a == b, 'V'),
]


def at_least(fs):
    return next(('the minimum can be %g but argument %d can be less' % (min(fs[0]), i + 1) for i, s in enumerate(fs[1:]) if min(s) < min(fs[0])), None)


def at_most(fs):
    return next(('the maximum can be %g but argument %d can be more' % (max(fs[0]), i + 1) for i, s in enumerate(fs[1:]) if max(s) > max(fs[0])), None)


def distinct(fs):
    if fs[0] == {1}:
        for i, s in enumerate(fs[1:]):
            for j, t in enumerate(fs[1:]):
                if i != j and len(s) == 1 and s & t and min(s) in (min(t), max(t)):
                    return 'argument %d is %g, which argument %d can still take' % (i + 1, min(s), j + 1)


POST = {'EqualMinimumConstraint': at_least, 'EqualMaximumConstraint': at_most, 'CondAllDiffConstraint': distinct}


def mem(d, h):
    if d.enum:
        return list(h) if d.closed else [v for v in (0, 1, 2, FRESH, FRESH + 1) if v in h or v not in d.vals]
    if h == ():
        return []
    return [v for v in R if h[0] <= v <= h[1] and (d.cls == X or v == int(v))]


def judge(c, p, rel_, level):
    """problems one execution leaves: text or None"""
    doms = c.doms
    fin = [held(p.st, i, d) for i, d in enumerate(doms)]
    if any(f is None for f in fin):
        return 'what the execution leaves is not determined'
    sets = [mem(d, d.vals) for d in doms]
    sols = [t for t in itertools.product(*sets) if rel_(*t)]
    left = ', '.join('()' if f == () else ('{%s}' if d.enum else '[%s]') % ','.join('%g' % v for v in f) for d, f in zip(doms, fin))
    for i, (d, f) in enumerate(zip(doms, fin)):
        if d.enum:
            if not set(f) <= set(d.vals):
                return 'argument %d gains a value: %s' % (i, left)
        elif f and not (d.vals[0] <= f[0] and f[1] <= d.vals[1]):
            return 'argument %d gains values: %s' % (i, left)
        if not d.closed and c.closed(p.st, i) is not False:
            return 'argument %d is closed' % i
    fs = [set(mem(d, f)) for d, f in zip(doms, fin)]
    for t in sols:
        for i, v in enumerate(t):
            if v not in fs[i]:
                return 'the solution (%s) is lost from argument %d: %s' % (', '.join('%g' % x for x in t), i, left)
    post = POST.get(c.cls)
    if post and level != 'S' and all(fs):
        r = post(fs)
        if r:
            return '%s: %s' % (r, left)
    if level == 'S' or any(abs(v) == INF for d in doms for v in d.vals):
        return None
    empty = any(not s for s in fs)
    free = [i for i, s in enumerate(sets) if len(s) > 1]
    if not free and not sols:
        return None if empty else 'the violation goes unnoticed: %s' % left
    if not (level == 'H' or level == 'F' and len(free) <= 1 or level == 'V' and free in ([], [0])):
        return None
    if not sols:
        return None if empty else 'there is no solution and no domain is emptied: %s' % left
    for i, (d, f) in enumerate(zip(doms, fin)):
        s = set(t[i] for t in sols)
        if (set(f) != s) if d.enum else f != (min(s), max(s)):
            return 'argument %d keeps more than the values with a solution: %s' % (i, left)
    return None


def combos(pools, limit, seed):
    """every singleton combination and a spread of the others"""
    total = 1
    for p in pools:
        total *= len(p)
    if total <= limit:
        return list(itertools.product(*pools))
    rnd = random.Random(seed)
    one = [[d for d in p if len(mem(d, d.vals)) == 1] for p in pools]
    out = []
    for k in range(limit):
        free = set(range(len(pools))) if k % 3 == 0 else {rnd.randrange(len(pools))} if k % 3 == 1 else {i for i in range(len(pools)) if rnd.random() < .5}
        out.append(tuple(rnd.choice(pools[i]) if i in free or not one[i] else rnd.choice(one[i]) for i in range(len(pools))))
    return list(dict.fromkeys(out))


def run(ck):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    LIM = 1500 if thorough else 260
    REL = ck.rule('RELATION', 'one execution loses no value that has a solution over the current domains, adds none, and removes the values without one as far as the constraint promises', len(TABLE))
    IGN = ck.rule('IGNORED', 'a change a constraint ignores leaves nothing for it to remove (for neq, nothing it would find violated while the argument has several values, more than two if an interval)', 5)
    COMP = ck.rule('COMPOSED', 'a composed constraint posts constraints whose conjunction is its relation', 24)
    NAME = ck.rule('REGISTERED', 'each constraint name makes the constraint of its relation', 30)
    n = 0
    for cls, name, pools, rl, level in TABLE:
        bad = None
        cs = combos(pools, LIM, cls + name)
        for doms in cs:
            c = Con(ck, cls, list(doms))
            ps = c.execute()
            n += 1
            if len(ps) != 1:
                raise Broken('%s over %s has %d paths (%s)' % (cls, doms, len(ps), [p.st.why[-2:] for p in ps][:2]))
            bad = 'the execution does not complete (%s)' % ps[0].outcome if ps[0].outcome != 'ret' else judge(c, ps[0], rl, level)
            if bad:
                break
        ck.ob(REL, '%s over %s' % (cls, name), not bad, 'with arguments %s: %s' % (', '.join(map(repr, doms)), bad), ck.where(c.fn))
    ck.counters['executions interpreted'] = n
    ignored(ck, IGN, 120 if thorough else 60)
    composed(ck, COMP)
    registered(ck, NAME)


# --- changes ignored
def kinds(d, h, e):
    """change kinds a restriction of d's domain from h to e sends"""
    if d.enum:
        return ['VALUE_REMOVED'] if e else ['EMPTIED']
    k = ['BOUNDS_RESTRICTED'] if h[0] != e[0] and h[1] != e[1] else ['LOWER_BOUND_INCREASED'] if h[0] != e[0] else ['UPPER_BOUND_DECREASED']
    if e[0] == e[1]:
        k += ['RESTRICT_TO_SINGLETON', 'SET_TO_SINGLETON']
    return k


def ignored(ck, rid, limit):
    kind = lambda k: K('enum:DomainListener::' + k)
    pool = {'LessThanEqualConstraint': [SGI] * 2, 'NotEqualConstraint:': [EV] * 2, 'LessThanConstraint': [SGI] * 2, 'SubsetOfConstraint': [SGI] * 2, 'NotEqualConstraint': [ivs(-2, 2)] * 2}
    for name, pools in pool.items():
        cls = name.rstrip(':')
        f = [f for f in ck.P.byq.get(cls + '::canIgnore', [])]
        if len(f) != 1:
            ck.ob(rid, cls, True)       # inherits the default, which ignores nothing: judged below
            continue
        bad, seen = None, 0
        for doms in combos(pools, limit, cls):
            c = Con(ck, cls, list(doms))
            p = c.execute()[0]
            h = [held(p.st, i, d) for i, d in enumerate(doms)]
            if p.outcome != 'ret' or () in h:
                continue
            for i, d in enumerate(doms):
                for e in (shrink(h[i]) if not d.enum else [x for n in range(1, len(h[i])) for x in itertools.combinations(h[i], n)]):
                    nd = [D(x.cls, h[j] if j != i else e) for j, x in enumerate(doms)]
                    c2 = Con(ck, cls, nd)
                    ks = [k for k in kinds(d, h[i], e) if c2.ignores(f[0], i, kind(k))]
                    if not ks:
                        continue
                    seen += 1
                    q = c2.execute()[0]
                    g = [held(q.st, j, x) for j, x in enumerate(nd)]
                    if cls == 'NotEqualConstraint' and (len(e) > 1 if d.enum else e[1] - e[0] > 1):
                        if () in g:
                            bad = 'with %s the change to %s of argument %d is ignored (%s), though it violates the constraint' % (h, e, i, ks[0])
                    elif [tuple(x) for x in g] != [tuple(map(float, x.vals)) for x in nd]:
                        bad = 'with %s the change to %s of argument %d is ignored (%s), though execution leaves %s' % (h, e, i, ks[0], g)
                if bad:
                    break
            if bad:
                break
        if not seen and not bad and cls != 'NotEqualConstraint':
            ck.counters.setdefault('ignores nothing', []).append(cls)
        ck.ob(rid, cls + (' on symbols' if name != cls else ''), not bad, bad or '', ck.where(f[0]))
    # relaxations are never ignored
    bad = None
    for f in [f for f in ck.P.fns.values() if short(f['sq']).split('::')[-1] == 'canIgnore' and len(f['p']) == 3 and f['file'].endswith(('component/Constraints.cc', 'component/Constraints.hh'))]:
        for k in ('RESET', 'RELAXED'):
            for i in (0, 1):
                cls = short(f['cls'])
                if cls == 'UnaryConstraint' and i:
                    continue
                q = Seq(ck, lambda ev, s, fl: None, scope=('Constraint',), self_cls=cls, value_of=None, st=St())
                for b, _ in ask_bool(q, f, [S('v'), K(i), kind(k)]):
                    if b and not bad:
                        bad = (f, '%s ignores that argument %d was %s' % (cls, i, 'reset' if k == 'RESET' else 'relaxed'))
    ck.ob(rid, 'relaxations', not bad, bad[1] if bad else '', ck.where(bad[0]) if bad else '')


def ask_bool(q, f, args):
    out = []
    for p in q.call(f, 'this', args):
        if p.outcome == 'ret' and p.val is not None:
            out += [(b, s) for b, s in q.fl.truth(p.val, p.st)]
    return out


def shrink(h):
    lo, hi = h
    L = [lo] + [v for v in (-2, 0, 1) if lo < v <= hi] if abs(lo) == INF else [x for x in (lo, lo + 1, lo + 2) if x <= hi]
    H = [hi] + [v for v in (-1, 0, 2) if lo <= v < hi] if abs(hi) == INF else [x for x in (hi, hi - 1, hi - 2) if x >= lo]
    return [(a, b) for a in L for b in H if a <= b and (a, b) != (lo, hi)]


# --- composed constraints
def pieces(ck, cls, n, extra=()):
    """constraints the constructor posts: (class, scope), and the domains of the variables it makes"""
    made, doms = [], {}
    st = St()
    st.conts['vars'] = (tuple(S('v%d' % i) for i in range(n)), True)
    st.conts['this.m_variables'] = st.conts['vars']

    def rec(ev, s, fl):
        if ev.kind in ('new', 'ctor') and isc(ck, ev.name) and len(ev.args) >= 4:
            a = ev.args[3]
            c = s.conts.get(vs(a))
            if c is None or not c[1]:
                raise Broken('scope of the %s that %s posts' % (ev.name, cls))
            return ('post', short(ev.name), tuple(vs(x) for x in c[0]))
        if ev.kind == 'call' and ev.m == 'createConstraint' and len(ev.args) >= 2:
            c = s.conts.get(vs(ev.args[1]))
            if c is None or not c[1]:
                raise Broken('scope of the constraint that %s posts' % cls)
            return ('post', vs(ev.args[0]), tuple(vs(x) for x in c[0]))
        return None

    def val(ev, s, fl):
        if ev.kind == 'ctor' and ev.name.startswith('Variable<'):
            k = 'w%d' % len(doms)
            doms[k] = bounds(vs(ev.args[1]))
            return [(S(k), s)]
        if ev.m == 'getId' and ev.recv in doms:
            return [(S(ev.recv), s)]
        if ev.m == 'makeScope':
            k = 'sc%d' % (len(s.conts))
            s2 = s.cp()
            s2.conts[k] = (tuple(S(vs(a)[:-5] if vs(a).endswith('.m_id') else vs(a)) for a in ev.args), True)
            return [(S(k), s2)]
        r = maths(ev, s, fl)
        return r
    q = Seq(ck, rec, scope=CSC, newdisp=False, sat=60, trip=14, st=st, maxdepth=12, recur=2, self_cls=cls, value_of=val,
            opaque=lambda x: short(x).endswith('Constraint') or short(x) in OPAQUE or short(x) == 'makeScope')
    q.fl.value_ctor = val
    fs = [f for f in ck.P.byq.get('%s::%s' % (cls, cls), []) if len(f['p']) == 4 + len(extra)]
    if len(fs) != 1:
        raise Broken('constructor of ' + cls)
    ps = [p for p in q.call(fs[0], 'this', [S('name'), S('prop'), S('ce'), S('vars')] + [K(e) if not isinstance(e, str) else S(e) for e in extra]) if p.outcome == 'ret']
    if len(ps) != 1:
        raise Broken('%s with %d arguments: %d paths' % (cls, n, len(ps)))
    fix = lambda x: x[:-5] if x.endswith('.m_id') else x
    return fs[0], [(t[1], tuple(fix(x) for x in t[2])) for t in ps[0].st.trace if t[0] == 'post'], doms


def isc(ck, name):
    n = short(name)
    return n in CLS


CLS = ('AddEqualConstraint', 'MultEqualConstraint', 'EqualSumConstraint', 'EqualProductConstraint', 'SubsetOfConstraint', 'CountZeroesConstraint', 'CountNonZeroesConstraint',
       'CondAllDiffConstraint', 'CondAllSameConstraint', 'LessThanEqualConstraint', 'LessThanConstraint', 'EqualConstraint', 'NotEqualConstraint')


def bounds(t):
    """(lb, ub) of the domain a variable is made with"""
    if '(' not in t:
        raise Broken('domain ' + t)
    inner, depth, parts, cur = t[t.index('(') + 1:t.rindex(')')], 0, [], ''
    for ch in inner:
        depth += ch in '(<['
        depth -= ch in ')>]'
        if ch == ',' and not depth:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    v = []
    for x in parts:
        x = x.strip()
        if 'DT' in x or not x:
            continue
        if x in ('true', 'false'):
            v.append(x == 'true')
        elif 'infinity' in x or 'INFINITY' in x:
            v.append(-INF if x.startswith('-') or 'MINUS' in x else INF)
        else:
            try:
                v.append(float(x))
            except ValueError:
                raise Broken('domain ' + t)
    b = t.startswith('Bool')
    return (0, 1) if b and not v else (-INF, INF) if not v else (v[0], v[0]) if len(v) == 1 else (v[0], v[1])


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def consistent(posts, doms, env):
    """can the variables made inside be given values so that every posted constraint holds?"""
    env = dict(env)
    todo = [x for x in posts if x[0] != 'SubsetOfConstraint']
    subs = [x for x in posts if x[0] == 'SubsetOfConstraint']
    OUT = {'AddEqualConstraint': (lambda a: a[0] + a[1], 2, (0, 1)), 'MultEqualConstraint': (lambda a: a[0] * a[1], 2, (0, 1)),
           'EqualSumConstraint': (lambda a: sum(a[1:]), 0, None), 'EqualProductConstraint': (lambda a: prod(a[1:]), 0, None),
           'CountZeroesConstraint': (lambda a: sum(v == 0 for v in a[1:]), 0, None), 'CountNonZeroesConstraint': (lambda a: sum(v != 0 for v in a[1:]), 0, None),
           'CondAllDiffConstraint': (lambda a: float(diff(a[1:])), 0, None), 'CondAllSameConstraint': (lambda a: float(same(a[1:])), 0, None)}
    TEST = {'LessThanEqualConstraint': lambda a: a[0] <= a[1], 'LessThanConstraint': lambda a: a[0] < a[1], 'EqualConstraint': same, 'NotEqualConstraint': lambda a: a[0] != a[1]}
    for w, (lo, hi) in doms.items():
        if lo == hi:
            env[w] = lo
    move = True
    while todo and move:
        move = False
        for c in list(todo):
            cls, sc = c
            if cls in TEST:
                if all(v in env for v in sc):
                    if not TEST[cls]([env[v] for v in sc]):
                        return False
                    todo.remove(c)
                    move = True
                continue
            f, o, _ = OUT[cls]
            un = [i for i, v in enumerate(sc) if v not in env]
            if not un or un == [o]:
                r = f([env.get(v) for v in sc])
                if sc[o] in env and env[sc[o]] != r:
                    return False
                env[sc[o]] = r
            elif len(un) == 1 and cls == 'AddEqualConstraint':
                env[sc[un[0]]] = env[sc[2]] - env[sc[1 - un[0]]]
            else:
                continue
            todo.remove(c)
            move = True
    if todo:
        raise Broken('the variables inside are not determined by %s' % todo)
    for w, (lo, hi) in doms.items():
        if w in env and not lo <= env[w] <= hi:
            return False
    for _, (a, b) in subs:
        if a in env and b in doms and not doms[b][0] <= env[a] <= doms[b][1]:
            return False
    return True


def composed(ck, rid):
    def one(cls, n, tuples, rel_):
        f, posts, doms = pieces(ck, cls, n)
        bad = None
        for t in tuples:
            got = consistent(posts, doms, {'v%d' % i: v for i, v in enumerate(t)})
            if got != rel_(t):
                bad = '(%s) is %s by the constraints posted: %s' % (', '.join('%g' % v for v in t), 'accepted' if got else 'refused', ', '.join('%s(%s)' % (c, ' '.join(s)) for c, s in posts))
                break
        ck.ob(rid, '%s of %d arguments' % (cls, n), not bad, bad or '', ck.where(f))
    for cls, op, base in (('EqualSumConstraint', sum, 10), ('EqualProductConstraint', prod, 0)):
        primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29]
        for n in range(3, 11):
            xs = [primes[i] if not base else base ** i for i in range(n - 1)]
            ts = [[op(xs)] + xs] + [[op(xs[:i] + xs[i + 1:])] + xs for i in range(n - 1)] + [[op(xs + [x])] + xs for x in xs]
            one(cls, n, ts, lambda t: t[0] == op(t[1:]))
    for n in (2, 3, 4):
        one('CountNonZeroesConstraint', n, list(itertools.product(range(n + 1), *[(0, 1)] * (n - 1))), lambda t: t[0] == sum(v != 0 for v in t[1:]))
    for n in (1, 2, 3):
        one('OrConstraint', n, list(itertools.product(*[(0, 1)] * n)), lambda t: any(t))
    for n in (2, 3):
        one('AllDiffConstraint', n, list(itertools.product(*[(0, 1, 2)] * n)), diff)
    one('WithinBounds', 3, list(itertools.product((0, 1), (0, 1, 2), (0, 1, 2))), lambda t: t[1] <= t[2])
    for n in (2, 3, 4):
        for k in (1, 2, -1, -2):
            if abs(k) >= n:
                continue
            f, posts, _ = pieces(ck, 'RotateScopeRightConstraint', n, ('other', k))
            v = tuple('v%d' % i for i in range(n))
            want = v[-k:] + v[:-k]
            ck.ob(rid, 'rotation of %d arguments by %d' % (n, k), posts == [('other', want)], 'posts %s' % posts, ck.where(f))
    for n in (2, 3):
        for a, b in ((0, 1), (0, -1), (n - 1, 0)):
            if a % n == b % n:
                continue
            f, posts, _ = pieces(ck, 'SwapTwoVarsConstraint', n, ('other', a, b))
            v = ['v%d' % i for i in range(n)]
            v[a % n], v[b % n] = v[b % n], v[a % n]
            ck.ob(rid, 'swap of arguments %d and %d of %d' % (a, b, n), posts == [('other', tuple(v))], 'posts %s' % posts, ck.where(f))


NAMES = dict(absVal='AbsoluteValue', addEq='AddEqualConstraint', multEq='MultEqualConstraint', mulEq='MultEqualConstraint', divEq='DivEqualConstraint', allDiff='AllDiffConstraint',
             condAllDiff='CondAllDiffConstraint', condEq='CondAllSameConstraint', countNonZeroes='CountNonZeroesConstraint', countZeroes='CountZeroesConstraint', eq='EqualConstraint',
             eqMaximum='EqualMaximumConstraint', eqMinimum='EqualMinimumConstraint', eqProduct='EqualProductConstraint', eqSum='EqualSumConstraint', lt='LessThanConstraint',
             leq='LessThanEqualConstraint', neg='NegateConstraint', neq='NotEqualConstraint', diffSquare='SquareOfDifferenceConstraint', subsetOf='SubsetOfConstraint',
             testAnd='TestAnd', testEq='TestEQ', testLessThan='TestLessThan', testLeq='TestLEQ', testNeq='TestNEQ', testOr='TestOr', UNARY='UnaryConstraint', withinBounds='WithinBounds',
             maxf='MaxConstraint', minf='MinConstraint', abs='AbsConstraint', floor='FloorConstraint', ceil='CeilConstraint', pow='PowConstraint', sqrt='SqrtConstraint', mod='ModConstraint',
             **{'or': 'OrConstraint'})
ROT = dict(allMax='eqMaximum', max='eqMaximum', allMin='eqMinimum', min='eqMinimum')


def registered(ck, rid):
    f = method(ck, 'ModuleConstraintLibrary', 'initialize', 1)

    def rec(ev, s, fl):
        if ev.kind == 'new' and short(ev.name).startswith(('DataTypeCheck<', 'ConcreteConstraintType<', 'RotatedNaryConstraintType<')):
            return ('make', short(ev.name), ev.recv, tuple(fl.deref(a, s) for a in ev.args))
        if ev.m == 'registerConstraintType' and ev.kind == 'call':
            return ('reg', vs(ev.args[0]))
        return None
    ps = [p for p in ck.flow(f, rec, scope=('ModuleConstraintLibrary',))[0] if p.outcome == 'ret']
    if len(ps) != 1:
        raise Broken('ModuleConstraintLibrary::initialize')
    made = {}
    regs = [t[1] for t in ps[0].st.trace if t[0] == 'reg']
    for t in ps[0].st.trace:
        if t[0] == 'make':
            if any(t[2] == r or r.startswith(t[2]) for r in regs):
                made[t[3][0][1]] = (t[1], t[3])
    for n, cls in sorted(NAMES.items()):
        got = made.get(n)
        c = got and got[0][got[0].index('<') + 1:].split(',')[0].rstrip('>').strip()
        ck.ob(rid, n, bool(got) and c == cls, 'the name makes %s instead of %s' % (c, cls) if got else 'the name is not registered', ck.where(f))
    for n, o in sorted(ROT.items()):
        got = made.get(n)
        ok = got and got[0].startswith('RotatedNaryConstraintType<RotateScopeRightConstraint') and len(got[1]) == 4 and got[1][2:] == (K(o), K(1))
        ck.ob(rid, n, bool(ok), 'does not rotate the arguments of %s by one: %s' % (o, got), ck.where(f))
