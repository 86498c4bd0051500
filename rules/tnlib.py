"""The temporal network over representative constraints: the source of TemporalNetwork and DistanceGraph is interpreted
from its constructor on; the queue is an abstract priority queue; the reference is the all-pairs shortest path."""
import re
from vf.lib import *
from vf.flow import *
from vf.ir import Broken, short
MAXT, PINF, MINF = 1000, 9999, -9999
POS, NEG = MAXT // 2 + 1, -(MAXT // 2) - 1
SCP = ('TemporalNetwork.cc', 'DistanceGraph.cc', 'TemporalNetwork.hh', 'DistanceGraph.hh')
QUIET = ('hasNode', 'isValid', 'isValidId', 'preventNodeMarkOverflow', 'preventGenerationOverflow')


def numbers(ev, st, fl):
    m = ev.m
    if ev.name in ('std::max', 'std::min') and len(ev.args) == 2:
        a = [fl.deref(x, st) for x in ev.args]
        if all(x[0] == 'k' for x in a):
            return [(K((max if m == 'max' else min)(a[0][1], a[1][1])), st)]
    if m == 'cast_basis' and ev.args:
        a = vs(ev.args[0])
        if 'infinity' in a:
            return [(K(MINF if 'minus' in a else PINF), st)]
        if 'max' in a or 'min' in a:
            return [(K(MAXT if 'max' in a else -MAXT), st)]
        if ev.args[0][0] == 'k':
            return [(ev.args[0], st)]
    return None


def queue(ev, st, fl):
    m = ev.m
    if m == 'initializeBqueue' or m == 'reset' and 'Queue' in ev.name:
        s = st.cp()
        s.conts['#q'] = ((), True)
        return [(S('queue'), s)]
    if m == 'popMinFromQueue':
        el = st.conts.get('#q', ((), True))[0]
        if not el:
            return [(K(None), st)]
        i = min(range(len(el)), key=lambda i: (el[i][2][1], i))
        s = st.cp()
        s.conts['#q'] = (el[:i] + el[i + 1:], True)
        return [(el[i][1], s)]
    if m == 'insertInQueue':
        a = [fl.deref(x, st) for x in ev.args]
        if a[0][0] == 'k':
            return [(K(None), st)]
        if len(a) == 2:
            k = a[1]
        else:
            d, p = (st.store.get(vs(a[0]) + f) for f in ('.distance', '.potential'))
            if d is None or p is None or d[0] != 'k' or p[0] != 'k':
                raise Broken('the key of queued node %s is not known' % (a,))
            k = K(d[1] - p[1])
        if k[0] != 'k':
            raise Broken('the key of queued node %s is not known' % (a,))
        el = st.conts.get('#q', ((), True))[0]
        if any(x[1] == a[0] and x[2][1] < k[1] for x in el):
            return [(K(None), st)]
        s = st.cp()
        s.conts['#q'] = (tuple(x for x in el if x[1] != a[0]) + (('pair', a[0], k),), True)
        return [(K(None), s)]
    return None


def made(ev, st, fl):
    """make_shared: the constructor of the class runs on a new object"""
    if ev.m != 'make_shared':
        return None
    t = short(re.sub(r'^.*shared_ptr<(.*)>$', r'\1', ev.node['t']).strip())
    c = [f for f in fl.P.byq.get('%s::%s' % (t, t), []) if len(f['p']) == len(ev.args)]
    if len(c) != 1:
        raise Broken('the constructor make_shared<%s> runs' % t)
    s, i = st.cp(), 1
    while '#obj.%s%d' % (t, i) in s.store:
        i += 1
    n = 'obj.%s%d' % (t, i)
    s.store['#' + n] = K(1)
    for x in [x[1:] for x in s.store if x.startswith('#obj.') and x != '#' + n]:
        s.facts['eq(%s,%s)' % (n, x)] = s.facts['eq(%s,%s)' % (x, n)] = False
    for b in [t] + fl.P.bases(t):
        s.facts['isa<%s>(%s)' % (short(b), n)] = True
    s.facts[n] = True
    s.facts['eq(%s,null)' % n] = s.facts['eq(%s,0)' % n] = False
    return [(S(n), x) for _, x, oc in fl.call_body(c[0], S(n), list(ev.args), s, 2) if oc == 'ret']


def value(ev, st, fl):
    m = ev.m
    if m in QUIET:
        return [(K(True), st)]
    if m == 'get' and not ev.args and ev.recv.startswith('obj.'):
        return [(S(ev.recv), st)]
    if ev.name in ('boost::ref', 'boost::cref') or m in ('dynamic_pointer_cast', 'static_pointer_cast') and 'boost' in ev.name:
        return [(fl.deref(ev.args[0], st), st)]
    return numbers(ev, st, fl) or queue(ev, st, fl) or made(ev, st, fl)


class Net:
    """an abstract temporal network with n time points besides the origin"""
    def __init__(self, ck, n=3):
        self.ck = ck
        st = St()
        st.store['Dnode::markGlobal'] = K(0)
        self.q = Seq(ck, lambda *a: None, st=st, scope=SCP, sat=60, value_of=value, newdisp=True, trip=20, self_cls='TemporalNetwork', recur=4, maxdepth=16)
        self.q.fl.grow = 40
        self.q.fl.value_ctor = lambda ev, st, fl: [(ev.args[0], st)] if 'shared_ptr' in ev.name and ev.args else None
        c = [f for f in ck.P.byq.get('TemporalNetwork::TemporalNetwork', []) if not f['p']]
        if len(c) != 1:
            raise Broken('constructor of TemporalNetwork')
        self.st = [p.st for p in self.q.call(c[0]) if p.outcome == 'ret']
        self.fns = {}
        self.pt = [self.do('getOrigin')]
        for i in range(n):
            self.pt.append(self.do('addTimepoint'))
        self.cons = []

    def f(self, name, np):
        k = (name, np)
        if k not in self.fns:
            fs = [f for c in ('TemporalNetwork', 'DistanceGraph') for f in self.ck.P.byq.get('%s::%s' % (c, name), []) if len(f['p']) == np and not f.get('pure')]
            fs = [f for f in fs if short(f['cls']) == 'TemporalNetwork'] or fs
            if not fs:
                raise Broken('no TemporalNetwork::%s' % name)
            self.fns[k] = fs
        return self.fns[k]

    def do(self, name, *args, pick=None):
        """run the operation; the value it returns (None when the analysis does not know one value)"""
        fs = self.f(name, len(args))
        f = fs[0] if pick is None else [x for x in fs if pick(x)][0]
        self.fn = f
        self.q.runs = [Path('ret', None, s) for s in self.st]
        ps = [p for p in self.q.call(f, 'this', list(args)) if p.outcome == 'ret']
        if not ps:
            self.st = []
            return None
        self.st = [p.st for p in ps]
        vals = {self.q.fl.deref(p.val, p.st) if p.val is not None else None for p in ps}
        return vals.pop() if len(vals) == 1 else None

    def out(self, loc):
        vals = {s.store.get(loc) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return v[1] if v is not None and v[0] == 'k' else None

    def bounds(self, i):
        self.do('getTimepointBounds', self.pt[i], ('ref', '#lb'), ('ref', '#ub'))
        return self.out('#lb'), self.out('#ub')

    def list(self, loc):
        vals = {s.conts.get(loc) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return [x[1] for x in v[0]] if v is not None and v[1] else None


    def nums(self, loc):
        xs = self.list_(loc)
        return None if xs is None or any(x[0] != 'k' for x in xs) else [x[1] for x in xs]

    def list_(self, loc):
        vals = {s.conts.get(loc) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return list(v[0]) if v is not None and v[1] else None


def shortest(n, cons):
    """least distances d[i][j] between the n+1 points; None when there is a negative cycle"""
    d = [[0 if i == j else POS for j in range(n + 1)] for i in range(n + 1)]
    for a, b, lb, ub in cons:
        if ub < POS:
            d[a][b] = min(d[a][b], ub)
        if lb > NEG:
            d[b][a] = min(d[b][a], -lb)
    for k in range(n + 1):
        for i in range(n + 1):
            for j in range(n + 1):
                if d[i][k] < POS and d[k][j] < POS:
                    d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return None if any(d[i][i] < 0 for i in range(n + 1)) else d


class Prop:
    """an abstract temporal propagator with its network, attached to a few time variables and constraints.
    The constraint engine around it is modelled: domains are bounds, and every change of a domain is put in the trace"""
    INF = {'PLUS_INFINITY': PINF, 'MINUS_INFINITY': MINF}

    def __init__(self, ck, doms, allow=False, tokens=None, opaque_net=False):
        self.ck, self.allow = ck, allow
        self.key = {}
        self.scope, self.name, self.inactive, self.violated = {}, {}, set(), set()
        self.tokens = tokens or {}
        scp = SCP + ('TemporalPropagator', 'TemporalPropagator.cc', 'TemporalPropagator.hh')
        st = St()
        st.facts['Entity::isPurging()'] = False
        st.store['Dnode::markGlobal'] = K(0)
        for i, (v, d) in enumerate(doms.items()):
            self.key[v] = i + 1
            for f, x in zip(('lb', 'ub'), d):
                st.store['D:%s.%s' % (v, f)] = K(x)
        for v in doms:
            st.facts['eq(%s,null)' % v] = False
            for w in doms:
                if w != v:
                    st.facts['eq(%s,%s)' % (v, w)] = False
        self.q = Seq(ck, self.rec, scope=scp, sat=60, value_of=self.value, newdisp=True, trip=24, st=st, self_cls='TemporalPropagator', recur=4, maxdepth=20, inline=lambda f: True if f.get('ctor') and short(f.get('cls', '')) in ('TemporalNetwork', 'DistanceGraph', 'Timepoint', 'Tspec') else None, opaque=lambda q: q in ('Propagator::Propagator',))
        self.q.fl.grow = 40
        self.q.fl.value_ctor = self.made
        c = [f for f in ck.P.byq.get('TemporalPropagator::TemporalPropagator', []) if len(f['p']) == 2]
        if len(c) != 1:
            raise Broken('constructor of TemporalPropagator')
        self.st = [p.st for p in self.q.call(c[0], 'this', [S('name'), S('ce')]) if p.outcome == 'ret']

    def made(self, ev, st, fl):
        if not ev.args:
            return None
        n = ev.name.split('::')[-1]
        if 'shared_ptr' in ev.name or n in ('eint', 'edouble') or n == 'IntervalIntDomain' and len(ev.args) == 1 and vs(ev.args[0]).startswith('D:'):
            return [(ev.args[0], st)]
        return None

    # the constraint engine
    def value(self, ev, st, fl):
        m, r = ev.m, ev.recv
        b = lambda v, f: st.store['D:%s.%s' % (v, f)]
        one = lambda v: [(v, st)]
        if m in ('cast_int', 'cast_long', 'cast_double', 'cast_basis') and ev.args:
            a = fl.deref(ev.args[0], st)
            if a[0] == 'k':
                return one(K(int(a[1])))
            t = vs(a)
            if t in self.INF or 'infinity' in t:
                return one(K(self.INF.get(t, MINF if 'minus' in t else PINF)))
        if m in ('infinity', 'minus_infinity') and 'numeric_limits' in ev.name:
            return one(K(MINF if m == 'minus_infinity' else PINF))
        if m in ('max', 'min') and 'numeric_limits' in ev.name:
            return one(K(MAXT if m == 'max' else -MAXT))
        if m in ('lastDomain', 'getLastDomain', 'baseDomain') and r in self.key:
            return one(S('D:' + r))
        if m == 'getCurrentDomain' and (ev.args or r in self.key):
            return one(S('D:' + (vs(fl.deref(ev.args[0], st)) if ev.args else r)))
        if r.startswith('D:'):
            v = r[2:]
            lb, ub = b(v, 'lb')[1], b(v, 'ub')[1]
            if m in ('getLowerBound', 'getUpperBound'):
                return one(K(lb if m == 'getLowerBound' else ub))
            if m == 'isEmpty':
                return one(K(lb > ub))
            if m in ('areBoundsFinite', 'isFinite'):
                return one(K(lb > MINF and ub < PINF))
            if m == 'isSingleton':
                return one(K(lb == ub))
            if m == 'isInterval':
                return one(K(True))
            if m == 'isMember':
                a = fl.deref(ev.args[0], st)
                return one(K(lb <= a[1] <= ub)) if a[0] == 'k' else None
            if m == 'intersects':
                o = vs(fl.deref(ev.args[0], st))[2:]
                return one(K(max(lb, b(o, 'lb')[1]) <= min(ub, b(o, 'ub')[1])))
            if m in ('intersect', 'empty'):
                s = st.cp()
                if m == 'empty':
                    n = (1, 0)
                else:
                    a = [fl.deref(x, st) for x in ev.args]
                    if len(a) == 1 and vs(a[0]).startswith('D:'):
                        a = [b(vs(a[0])[2:], f) for f in ('lb', 'ub')]
                    if len(a) != 2 or any(x[0] != 'k' for x in a):
                        raise Broken('the bounds domain %s is intersected with are not known: %s' % (v, [vs(x) for x in a]))
                    n = (max(lb, a[0][1]), min(ub, a[1][1]))
                ch = n != (lb, ub)
                s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = K(n[0]), K(n[1])
                if n[0] > n[1]:
                    s.store['#empty'] = K(True)
                if ch:
                    s.trace = tuple(s.trace) + (('dom', v, n),)
                return [(K(ch), s)]
            if m == 'getListener':
                return one(S('listener'))
        if m == 'getConstraintEngine':
            return one(S('ce'))
        if m == 'provenInconsistent':
            return one(K(st.store.get('#empty', K(False))[1]))
        if m == 'getAllowViolations':
            return one(K(self.allow))
        if m == 'mostRecentRepropagation' and r == 'ce':
            return one(K(7))
        if m == 'isActive' and (r in self.scope or r in self.key):
            return one(K(r not in self.inactive))
        if m == 'getScope' and r in self.scope:
            s = st.cp()
            s.conts['scope:' + r] = (tuple(S(v) for v in self.scope[r]), True)
            return [(S('scope:' + r), s)]
        if m == 'getName' and r in self.name:
            return one(K(self.name[r]))
        if m == 'getViolation' and r in self.scope:
            return one(K(1 if r in self.violated else 0))
        if m == 'getKey' and r in self.key:
            return one(K(self.key[r]))
        if m in ('notifyConstraintViolated', 'notifyVariableEmptied'):
            s = st.cp()
            s.trace = tuple(s.trace) + ((m, vs(fl.deref(ev.args[0], st))),)
            return [(K(None), s)]
        if m == 'setCurrentPropagatingConstraint':
            return one(K(None))
        if m == 'convertable':
            v = vs(fl.deref(ev.args[0], st)) if ev.args else ''
            return one(K(v in self.tokens))
        if m == 'parent' and r in self.key:
            for t, vs_ in self.tokens.items():
                if r in vs_:
                    return one(S(t))
            return one(S('none'))
        if r in self.tokens and m in ('start', 'end', 'duration'):
            return one(S(self.tokens[r][('start', 'duration', 'end').index(m)]))
        if m == 'constraints' and r in self.key:
            s = st.cp()
            s.conts[vs(ev.args[0])] = (tuple(S(c) for c, vs_ in self.scope.items() if r in vs_), True)
            return [(K(None), s)]
        if m == 'isVariableOf' and r in self.scope:
            return one(K(vs(fl.deref(ev.args[0], st)) in self.scope[r]))
        if m in ('toString', 'toLongString'):
            return one(S('text'))
        if m == 'allValid':
            return one(K(True))
        if m in ('isNoId', 'isId') and (r in self.key or r in self.scope):
            return one(K(m == 'isId'))
        if m == 'getId':
            return one(S(r))
        if m in ('static_pointer_cast',):
            return one(fl.deref(ev.args[0], st))
        return value(ev, st, fl)

    def rec(self, ev, st, fl):
        return None

    def con(self, c, name, scope):
        self.scope[c], self.name[c] = list(scope), name
        for s in self.st:
            s.facts['eq(%s,null)' % c] = False
            for d in self.scope:
                if d != c:
                    s.facts['eq(%s,%s)' % (c, d)] = s.facts['eq(%s,%s)' % (d, c)] = False

    def call(self, name, *args, np=None):
        fs = [f for f in self.ck.P.byq.get('TemporalPropagator::' + name, []) if len(f['p']) == (len(args) if np is None else np)]
        if len(fs) != 1:
            raise Broken('TemporalPropagator::%s' % name)
        self.fn = fs[0]
        self.q.runs = [Path('ret', None, s) for s in self.st]
        self.ps = self.q.call(fs[0], 'this', list(args))
        ps = [p for p in self.ps if p.outcome == 'ret']
        self.st = [p.st for p in ps]
        vals = {self.q.fl.deref(p.val, p.st) if p.val is not None else None for p in ps}
        return vals.pop() if len(vals) == 1 else None

    def list_(self, loc):
        vals = {s.conts.get(loc) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return list(v[0]) if v is not None and v[1] else None

    def dom(self, v):
        ds = {tuple(s.store['D:%s.%s' % (v, f)][1] for f in ('lb', 'ub')) for s in self.st}
        return ds.pop() if len(ds) == 1 else None

    def set(self, v, d):
        for s in self.st:
            s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = K(d[0]), K(d[1])
