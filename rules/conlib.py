"""Constraints over abstract domains: construction, one execution, and what is left of each domain."""
from rules.domlib import *
CSC = SC + ('ConstraintEngine/component/Constraints.cc', 'ConstraintEngine/component/Constraints.hh')
EPS = FINE = 1 / 1024      # resolution of a real domain
OPAQUE = ('Constraint::Constraint',)
TAGS = 'ABCDEFGHJ'


def dname(cls, i):
    return 'new %s@%d(%s)' % (cls, i + 1, TAGS[i])


def place(st, i, d):
    n = dname(d.cls, i)
    t = TAGS[i]
    st.store[n + '.m_closed'] = K(d.closed)
    st.store[n + '.m_enumerated'] = K(d.enum)
    st.store[n + '.m_dataType'] = S('dt' + t)
    st.store[n + '.m_listener'] = S('lst' + t)
    st.facts['eq(lst%s,null)' % t] = False
    if d.enum:
        st.conts[n + '.m_values'] = (tuple(K(float(v)) for v in sorted(d.vals)), True)
    else:
        st.store[n + '.m_lb'] = K(float(d.vals[0]))
        st.store[n + '.m_ub'] = K(float(d.vals[1]))
    return S(n)


def held(st, i, d):
    """members / bounds the domain holds; () when empty; None when not known"""
    n = dname(d.cls, i)
    if d.enum:
        el, cl = st.conts.get(n + '.m_values', ((), False))
        if not cl or any(x[0] != 'k' for x in el):
            return None
        return tuple(sorted(x[1] for x in el))
    b = [st.store.get(n + f) for f in ('.m_lb', '.m_ub')]
    if any(x is None or x[0] != 'k' for x in b):
        return None
    b = tuple(x[1] for x in b)
    return () if b[0] > b[1] else b


MATH = {'min': min, 'max': max, 'abs': abs, 'fabs': abs, 'sqrt': math.sqrt, 'pow': math.pow, 'floor': lambda x: x if abs(x) == INF else math.floor(x),
        'ceil': lambda x: x if abs(x) == INF else math.ceil(x), 'fmod': math.fmod, 'sin': math.sin}


def maths(ev, s, fl):
    f = MATH.get(ev.m)
    if f is None or not (ev.name.startswith('std::') or '::' not in ev.name):
        return None
    a = [fl.deref(x, s) for x in ev.args]
    if not a or not all(num(x) for x in a):
        return None
    r = f(*[x[1] for x in a])
    return [(K(float(r)) if isinstance(r, (int, float)) else K(r), s)]


def build(f):
    """domains made on the way are built by their constructors"""
    return True if f.get('ctor') and short(f.get('cls', '')) in SC else None


class Con:
    """a constraint of class cls over the domains doms"""
    def __init__(self, ck, cls, doms, base=None, extra=None, vars_=None):
        self.ck, self.cls, self.doms = ck, cls, doms
        base = base or doms
        n = len(doms)
        st = St()
        val0 = answers(True, 1)
        names = [place(st, i, d) for i, d in enumerate(doms)]
        if base is not doms:
            for i, d in enumerate(base):
                raise Broken('base')
        vs_ = vars_ or ['v%d' % i for i in range(n)]
        st.conts['vars'] = (tuple(S(v) for v in vs_), True)
        st.conts['this.m_variables'] = (tuple(S(v) for v in vs_), True)
        kind = {}
        for i, d in enumerate(doms):
            kind['dt' + TAGS[i]] = 'B' if d.cls == 'BoolDomain' else 'N' if d.cls not in ('StringDomain', 'SymbolDomain', 'EnumeratedDomain') else 'E'
        at = {v: names[i] for i, v in enumerate(vs_)}

        def val(ev, s, fl):
            m = ev.m
            if m in ('getCurrentDomain', 'lastDomain', 'derivedDomain', 'baseDomain'):
                v = vs(ev.args[0]) if ev.args else ev.recv
                if v in at:
                    return [(at[v], s)]
            if m == 'isActive':
                return [(K(True), s)]
            if ev.recv in kind:
                k = kind[ev.recv]
                if m == 'isNumeric':
                    return [(K(k == 'N' or k == 'B'), s)]
                if m == 'isBool':
                    return [(K(k == 'B'), s)]
                if m in ('isSymbolic',):
                    return [(K(k == 'E'), s)]
                if m == 'minDelta' and ev.recv in kind:
                    return [(K(FINE if doms[TAGS.index(ev.recv[2])].cls == 'IntervalDomain' else 1), s)]
            if m == 'minDelta':
                return [(K(FINE if ev.recv == 'FloatDT::instance()' or ev.recv.startswith('new IntervalDomain@') else 1), s)]
            r = maths(ev, s, fl)
            if r:
                return r
            if 'epsilon' in m and 'numeric_limits' in ev.name:
                return [(K(EPS), s)]
            if extra:
                r = extra(ev, s, fl)
                if r:
                    return r
            r = copier(ev, s, fl)
            return r or val0(ev, s, fl)
        self.q = Seq(ck, recorder, scope=CSC, newdisp=True, sat=60, trip=12, st=st, value_of=val, maxdepth=12, recur=2, self_cls=cls, opaque=lambda q: short(q) in OPAQUE, inline=build)
        ctor = [f for f in ck.P.byq.get('%s::%s' % (cls, cls), []) if len(f['p']) == 4]
        if len(ctor) != 1:
            raise Broken('constructor of %s' % cls)
        self.q.call(ctor[0], 'this', [S('name'), S('prop'), S('ce'), S('vars')])

    def execute(self):
        ex = [f for f in self.ck.P.byq.get(self.cls + '::handleExecute', []) if len(f['p']) == 0]
        if len(ex) != 1:
            raise Broken('%s::handleExecute' % self.cls)
        self.fn = ex[0]
        return self.q.call(ex[0])

    def closed(self, st, i):
        v = st.store.get(dname(self.doms[i].cls, i) + '.m_closed')
        return v[1] if v is not None and v[0] == 'k' else None

    def ignores(self, f, i, kind):
        """may the constraint ignore this change of argument i?"""
        out = False
        for p in self.q.call(f, 'this', [S('v%d' % i), K(i), kind], paths=self.q.runs):
            if p.outcome == 'ret' and p.val is not None:
                out |= any(b for b, _ in self.q.fl.truth(p.val, p.st))
        return out
