"""Variables: what specifying, resetting, closing, restricting, relaxing, inserting and removing leave behind."""
from rules.domlib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rules, except where the rule says that the operation is refused',
               'a variable starts with its current domain within its base domain, and a specified one with its value or nothing']
VC = 'Variable<Domain>'
I, E = 'IntervalIntDomain', 'EnumeratedDomain'
SCV = SC + ('ConstrainedVariable', 'Variable', VC, 'PSVarValue')


class V:
    """an abstract variable: base and current contents, open or closed, the specified value or None"""
    def __init__(self, cls, base, cur, spec=None, bopen=False, copen=False):
        self.cls, self.base, self.cur, self.spec, self.bopen, self.copen = cls, tuple(base), tuple(cur), spec, bopen, copen

    def __repr__(self):
        f = lambda v, o: ('open ' if o else '') + (str(v) if self.cls == E else str(v or '[]')).replace(' ', '').replace(',)', ')')
        return 'base %s, current %s%s' % (f(self.base, self.bopen), f(self.cur, self.copen), '' if self.spec is None else ', specified %s' % self.spec)

    def key(self):
        return (self.base, self.bopen, self.cur, self.copen, self.spec)

    def but(self, **kw):
        v = V(self.cls, self.base, self.cur, self.spec, self.bopen, self.copen)
        v.__dict__.update(kw)
        return v

    def put(self, st):
        em = (3, -2)
        vals = lambda x: x if self.cls == E or x else em
        st.store['this.m_baseDomain'] = D(self.cls, vals(self.base), not self.bopen, listener=False).put(st, 'A')
        st.store['this.m_derivedDomain'] = D(self.cls, vals(self.cur), not self.copen).put(st, 'B')
        st.store['this.m_specifiedFlag'] = K(self.spec is not None)
        st.store['this.m_specifiedValue'] = K(self.spec if self.spec is not None else 4 if self.cls == E else 2)
        st.store['this.m_deactivationRefCount'] = K(0)
        st.store['this.m_canBeSpecified'] = K(True)
        st.store['this.m_deleted'] = K(False)

    def has(self, x, what=None):
        what = self.base if what is None else what
        return x in what if self.cls == E else bool(what) and what[0] <= x <= what[1]


def got(cls, st):
    """the variable as this state leaves it, or text"""
    r = []
    for t in 'AB':
        v = read(st, t, cls)
        if v is None:
            return 'contents unknown'
        if cls != E and v[0] > v[1]:
            v = ()
        r.append(v)
    c = [closed(st, t, cls) for t in 'AB']
    fl, sv = st.store.get('this.m_specifiedFlag'), st.store.get('this.m_specifiedValue')
    if None in c or fl is None or fl[0] != 'k':
        return 'state unknown'
    if fl[1] and (sv is None or sv[0] != 'k'):
        return 'the specified value is not the given one'
    return V(cls, r[0], r[1], sv[1] if fl[1] else None, not c[0], not c[1])


def variables(cls, opened=True, empty=True):
    """every way a variable over a few values can be"""
    out = []
    if cls == E:
        u = (0, 4, 8)
        for n in (1, 2, 3):
            for b in itertools.combinations(u, n):
                if b[0] != 0 and n < 2 and b != (4,):
                    continue
                for m in range(0 if empty else 1, n + 1):
                    for c in itertools.combinations(b, m):
                        out.append(V(E, b, c))
                        if m == 1:
                            out.append(V(E, b, c, c[0]))
                        if not c:
                            out.append(V(E, b, c, b[0]))
        if opened:
            for b in ((), (4,), (0, 4)):
                out.append(V(E, b, b, None, True, True))
                if b:
                    out.append(V(E, b, (), None, True, True))
                    out.append(V(E, b, (b[0],), b[0], True, True))
                for x in b:
                    out.append(V(E, b, (x,), x, True, False))
                    if len(b) > 1:
                        out.append(V(E, b, (x,), None, True, False))
    else:
        for b in ((0, 0), (0, 2), (0, 4), (0, INF), (-INF, INF)):
            for c in ((), (0, 0), (0, 1), (1, 2), (0, 2), (2, 4), (0, 4), (1, INF), (0, INF), (-INF, INF)):
                if not c and not empty:
                    continue
                if c and (c[0] < b[0] or c[1] > b[1]):
                    continue
                out.append(V(cls, b, c))
                if c and c[0] == c[1]:
                    out.append(V(cls, b, c, c[0]))
                if not c:
                    out.append(V(cls, b, c, 0))
    return out


def run(ck):
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('specify', 'specifying a value of the base domain leaves just that value, or nothing when it is no longer possible and violations are not allowed; the same value again does nothing', 5),
        ('reset', 'reset and relax bring back the base domain, or the specified value', 6),
        ('close', 'closing closes both domains and specifies a variable whose base domain has one value; opening undoes that', 4),
        ('members', 'insert and remove change the base domain, and the current one as far as the variable is still free', 6),
        ('restrict', 'restricting the base domain restricts both domains and tells the engine and every constraint of the variable', 4),
        ('birth', 'a new variable holds its base domain, and is specified when that has one value', 3),
        ('derived', 'the derived domain is up to date, and empty when the network is inconsistent', 4),
        ('planner', 'the planner interface reads and specifies a variable as it is', 8))}
    ck.P.cls.setdefault(VC, dict(ck.P.cls['Variable']))
    dom = answers()

    def seq(st, allow, extra=None):
        def val(ev, s, fl):
            if extra:
                x = extra(ev, s, fl)
                if x is not None:
                    return x
            if ev.m == 'getAllowViolations':
                return [(K(allow), s)]
            if ev.m == 'copy':
                return copier(ev, s, fl)
            if ev.m == 'isPurging':
                return [(K(False), s)]
            return dom(ev, s, fl)

        def rec(ev, s, fl):
            if ev.kind == 'call' and ev.m == 'notify' and ev.recv == 'this.m_constraintEngine':
                return ('engine', vs(ev.args[-1]).replace("'enum:DomainListener::", '').strip("'"))
            if ev.kind == 'call' and ev.m == 'notifyBaseDomainRestricted':
                return ('constraint', ev.recv)
            if ev.kind == 'call' and ev.m == 'propagate':
                return ('propagate',)
            return recorder(ev, s, fl)
        return Seq(ck, rec, scope=SCV, newdisp=True, sat=60, trip=12, st=st, value_of=val, maxdepth=14, recur=2, self_cls=VC)

    def after(fn, v, args=(), allow=True, extra=None, more=None):
        st = St()
        v.put(st)
        av = [more(st)] if more else []
        q = seq(st, allow, extra)
        return q, q.call(fn, 'this', av + [K(x) if isinstance(x, (int, float, bool)) else x for x in args])

    def judge(rule, inst, cases, f):
        """cases: (text, variable, args, allow, expected variable | None (refused), check on path or None, more)"""
        bad = None
        for text, v, args, allow, want, chk, more in cases:
            q, ps = after(f, v, args, allow, more=more)
            rs = [p for p in ps if p.outcome == 'ret']
            if want is None:
                if rs:
                    bad = bad or ('%s: accepted' % text, rs[0].why())
                for p in ps:
                    g = got(v.cls, p.st)
                    if isinstance(g, str) or g.key() != v.key():
                        bad = bad or ('%s: refused, but leaves %s' % (text, g), p.why())
                continue
            if not rs:
                bad = bad or ('%s: fails on every path' % text, None)
            for p in rs:
                g = got(v.cls, p.st)
                if isinstance(g, str) or g.key() != want.key():
                    bad = bad or ('%s: leaves %s, expected %s' % (text, g, want), p.why())
                elif chk and chk(p) is not True:
                    bad = bad or ('%s: %s' % (text, chk(p)), p.why())
        ck.counters['variables'] = ck.counters.get('variables', 0) + len(cases)
        if not cases:
            raise Broken('no cases for ' + inst)
        ck.ob(rule, inst, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)

    said = lambda p: [t[2] for t in p.trace if t[0] == 'n' and t[1] == 'B']
    quiet = lambda p: True if not p.trace else 'announces %s although nothing happens' % (fmt(p),)
    fmt = lambda p: [' '.join(str(x) for x in t) for t in p.trace]
    ends = lambda *ks: (lambda p: True if said(p) and said(p)[-1] in ks else 'announces %s' % said(p))

    def specified(v, x, allow):
        """what specifying x leaves"""
        if v.spec == x and v.spec is not None:
            return v
        if v.has(x, v.cur) or allow:
            return v.but(cur=(x,) if v.cls == E else (x, x), spec=x, copen=False)
        return v.but(cur=(), spec=x, copen=v.copen)
    fn = lambda n, np, t=None: ck.P.fn('ConstrainedVariable::' + n, np, t)
    # specify
    for name in ('specify', 'internalSpecify'):
        f = fn(name, 1)
        for cls in (E, I):
            vs_ = variables(cls)
            cs, again, out = [], [], []
            for v in vs_:
                for x in ((0, 4, 8) if cls == E else (0, 1, 2, 4)):
                    if not v.has(x):
                        if not v.bopen:
                            out.append(('%s, specify %s' % (v, x), v, (x,), True, None, None, None))
                        continue
                    for allow in (True, False):
                        w = specified(v, x, allow)
                        t = '%s, specify %s%s' % (v, x, '' if allow else ' without violations')
                        if w is v:
                            again.append((t, v, (x,), allow, v, quiet, None))
                        else:
                            cs.append((t, v, (x,), allow, w, ends('SET_TO_SINGLETON') if w.cur else ends('EMPTIED'), None))
            judge('specify', '%s: %s' % (name, cls), cs, f)
            judge('specify', '%s the same value again: %s' % (name, cls), again, f)
            judge('specify', '%s a value outside the base domain: %s' % (name, cls), out, f)
    # reset, relax
    for cls in (E, I):
        judge('reset', 'reset: ' + cls, [('%s, reset' % v, v, (), True, v.but(cur=v.base, spec=None, copen=v.bopen), None if (v.cur, v.copen) == (v.base, v.bopen) else ends('RESET'), None)
              for v in variables(cls) if v.base or not v.bopen], fn('reset', 0))
        judge('reset', 'relax: ' + cls, [('%s, relax' % v, v, (), True, v.but(cur=(v.spec,) if cls == E else (v.spec, v.spec)) if v.spec is not None else v.but(cur=v.base, copen=v.bopen),
                                          ends('RELAXED') if not v.cur and v.base else None, None) for v in variables(cls)], fn('relax', 0))
        cs = []
        for v in variables(cls, opened=False):
            for d in ((4,), (0, 4), (0, 8), (0, 4, 8)) if cls == E else ((0, 0), (0, 2), (1, 2), (0, 4)):
                if set(d) <= set(v.base) if cls == E else v.base[0] <= d[0] and d[1] <= v.base[1]:
                    if (set(v.cur) <= set(d)) if cls == E else not v.cur or d[0] <= v.cur[0] and v.cur[1] <= d[1]:
                        cs.append(('%s, reset to %s' % (v, d), v, (), True, v.but(cur=d, spec=None), None, lambda st, d=d: dom3(st, D(cls, d))))
        judge('reset', 'reset to a domain: ' + cls, cs, ck.P.fn('ConstrainedVariable::reset', 1))
    # close, open
    f = fn('close', 0)
    cs = []
    for v in variables(E):
        if v.bopen:
            w = v.but(bopen=False, copen=False)
            if len(v.base) == 1 and v.spec is None and v.cur:
                w = specified(w, v.base[0], True)
            cs.append(('%s, close' % v, v, (), True, w, None if v.base else ends('EMPTIED'), None))
    judge('close', 'close: ' + E, cs, f)
    judge('close', 'closing a closed variable is refused', [('%s, close' % v, v, (), True, None, None, None) for v in variables(E) if not v.bopen], f)
    f = fn('open', 0)
    judge('close', 'open: ' + E, [('%s, open' % v, v, (), True, v.but(bopen=True, copen=True, **(dict(spec=None, cur=v.base) if len(v.base) == 1 else {})), None, None)
          for v in variables(E, empty=False) if not v.bopen], f)
    judge('close', 'opening an open variable is refused', [('%s, open' % v, v, (), True, None, None, None) for v in variables(E) if v.bopen], f)
    # insert, remove
    f = fn('insert', 1)
    add = lambda s, x: tuple(sorted(set(s) | {x}))
    judge('members', 'insert while free', [('%s, insert %s' % (v, x), v, (x,), True, v.but(base=add(v.base, x), cur=add(v.cur, x) if v.copen else v.cur), None, None)
          for v in variables(E) if v.bopen and v.spec is None for x in (0, 4, 6)], f)
    judge('members', 'insert while specified', [('%s, insert %s' % (v, x), v, (x,), True, v.but(base=add(v.base, x)), quiet, None)
          for v in variables(E) if v.bopen and v.spec is not None for x in (0, 4, 6)], f)
    judge('members', 'inserting into a closed variable is refused', [('%s, insert %s' % (v, x), v, (x,), True, None, None, None) for v in variables(E) if not v.bopen for x in (0, 6)], f)
    f = fn('remove', 1)
    sub = lambda s, x: tuple(y for y in s if y != x)
    judge('members', 'remove a value still possible', [('%s, remove %s' % (v, x), v, (x,), True, v.but(base=sub(v.base, x), cur=sub(v.cur, x)), ends('VALUE_REMOVED', 'EMPTIED', 'RESTRICT_TO_SINGLETON'), None)
          for v in variables(E) for x in v.cur], f)
    judge('members', 'remove a value of the base domain only', [('%s, remove %s' % (v, x), v, (x,), True, v.but(base=sub(v.base, x)), quiet, None)
          for v in variables(E) for x in (0, 4, 8) if x in v.base and x not in v.cur], f)
    judge('members', 'remove a value that is not there', [('%s, remove %s' % (v, x), v, (x,), True, v, quiet, None) for v in variables(E) for x in (0, 4, 6) if x not in v.base], f)
    judge('members', 'remove a bound of an interval', [('%s, remove %s' % (v, x), v, (x,), True, w, None, None) for v, x, w in (
        (V(I, (0, 4), (0, 4)), 0, V(I, (1, 4), (1, 4))), (V(I, (0, 4), (0, 4)), 4, V(I, (0, 3), (0, 3))), (V(I, (0, 4), (1, 2)), 0, V(I, (1, 4), (1, 2))), (V(I, (0, 4), (0, 0)), 0, V(I, (1, 4), ())))], f)
    # restrict the base domain
    f = fn('restrictBaseDomain', 1)

    def told(yes):
        def t(p):
            e, c = [x for x in p.trace if x[0] == 'engine'], [x[1] for x in p.trace if x[0] == 'constraint']
            if not yes:
                return quiet(p)
            if e != [('engine', 'BOUNDS_RESTRICTED')]:
                return 'the engine is told %s' % (e,)
            return True if sorted(c) == ['c1', 'c2'] else 'constraints told: %s' % (c,)
        return t

    def withcons(st, d):
        st.conts['this.m_constraints'] = ((('pair', S('c1'), K(0)), ('pair', S('c2'), K(1))), True)
        return dom3(st, d)
    for cls in (E, I):
        some, none = [], []
        for v in variables(cls, empty=False):
            for d, do in (((4,), False), ((0, 4), False), ((0, 8), False), ((0, 4, 8), False), ((4, 12), False), ((0, 4), True)) if cls == E else (((0, 0), False), ((0, 2), False), ((1, 2), False), ((1, 9), False), ((-INF, INF), False)):
                if v.bopen or do:
                    if v.bopen and not do and not (set(v.cur) - set(d)) and v.spec is None and v.copen:
                        w = v.but(base=d, cur=d, bopen=False, copen=False)
                    elif do:
                        none.append(('%s, restricted to open %s' % (v, d), v, (), True, v, told(False), lambda st, d=d: withcons(st, D(cls, d, closed=False))))
                        continue
                    else:
                        continue
                else:
                    b, c = meet_(cls, v.base, d), meet_(cls, v.cur, d)
                    if not b:
                        continue
                    if b == v.base:
                        none.append(('%s, restricted to %s' % (v, d), v, (), True, v, told(False), lambda st, d=d: withcons(st, D(cls, d))))
                        continue
                    w = v.but(base=b, cur=c)
                    if v.spec is not None and not c:
                        continue
                if w.spec is None and len(set(w.base)) == 1:
                    w = specified(w, w.base[0], True)
                some.append(('%s, restricted to %s' % (v, d), v, (), True, w, told(True), lambda st, d=d: withcons(st, D(cls, d))))
        judge('restrict', 'restrictBaseDomain: ' + cls, some, f)
        judge('restrict', 'a restriction that leaves the base domain as it is: ' + cls, none, f)
    # derived domain
    f = ck.P.fn(VC + '::derivedDomain', 0)
    for v in (V(E, (0, 4, 8), (0, 4)), V(I, (0, 4), (0, 2)), V(E, (0, 4), (4,), 4)):
        bad = None
        for pend in (True, False):
            for busy in (True, False):
                for inc in (True, False):
                    def ans(ev, s, fl):
                        x = {'pending': pend, 'isPropagating': busy, 'provenInconsistent': inc}.get(ev.m)
                        return None if x is None else [(K(x), s)]
                    q, ps = after(f, v, extra=ans)
                    t = 'pending=%s, propagating=%s, inconsistent=%s' % (pend, busy, inc)
                    rs = [p for p in ps if p.outcome == 'ret']
                    if not rs:
                        bad = bad or (t + ': fails on every path', None)
                    for p in rs:
                        up = sum(1 for x in p.trace if x == ('propagate',))
                        g = got(v.cls, p.st)
                        w = v.but(cur=() if inc else v.cur)
                        if up != (1 if pend and not busy else 0):
                            bad = bad or ('%s: propagates %d times' % (t, up), p.why())
                        elif isinstance(g, str) or g.key() != w.key():
                            bad = bad or ('%s: leaves %s' % (t, g), p.why())
                        elif q.fl.deref(p.val, p.st) != p.st.store['this.m_derivedDomain']:
                            bad = bad or ('%s: answers %s, not the current domain' % (t, vs(p.val)), p.why())
        ck.ob('derived', 'derivedDomain: %s' % v, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)
    for n, tag in (('lastDomain', 'B'), ('baseDomain', 'A')):
        f = ck.P.fn(VC + '::' + n, 0)
        v = V(E, (0, 4, 8), (0, 4))
        q, ps = after(f, v)
        bad = None
        for p in ps:
            if p.outcome == 'ret' and (p.trace or q.fl.deref(p.val, p.st) != p.st.store['this.m_derivedDomain' if tag == 'B' else 'this.m_baseDomain']):
                bad = bad or ('answers %s' % vs(p.val), p.why())
        ck.ob('derived', n, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)
    birth(ck, seq)
    planner(ck, after, specified)


def meet_(cls, a, b):
    if cls == E:
        return tuple(x for x in a if x in b)
    if not a or not b:
        return ()
    l, u = max(a[0], b[0]), min(a[1], b[1])
    return (l, u) if l <= u else ()


def dom3(st, d):
    n = 'new %s@3(C)' % d.cls
    st.store[n + '.m_closed'] = K(d.closed)
    st.store[n + '.m_enumerated'] = K(d.enum)
    st.store[n + '.m_dataType'] = S('dtC')
    st.store[n + '.m_listener'] = NULL
    if d.enum:
        st.conts[n + '.m_values'] = (tuple(K(v) for v in sorted(d.vals)), True)
    else:
        st.store[n + '.m_lb'], st.store[n + '.m_ub'] = K(d.vals[0]), K(d.vals[1])
    return S(n)


def birth(ck, seq):
    fs = [f for f in ck.P.byq.get(VC + '::Variable', [])]
    if len(fs) != 1:
        raise Broken('constructor of ' + VC)
    f = fs[0]
    for cls, ds in ((E, [((0, 4, 8), True), ((4,), True), ((4,), False), ((0, 4), False), ((), False)]), (I, [((0, 4), True), ((2, 2), True), ((0, INF), True)]), ('IntervalDomain', [((0, 4), True), ((4, 4), True)])):
        bad = None
        for vals, cl in ds:
            st = St()
            d = dom3(st, D(cls, vals, closed=cl))
            q = seq(st, True)
            ps = q.call(f, 'this', [S('engine'), d, K(False), K(True), S('name'), S('parent'), K(0)])
            rs = [p for p in ps if p.outcome == 'ret']
            if not rs:
                bad = bad or ('over %s: fails on every path' % (vals,), None)
            one = cl and (len(vals) == 1 if cls == E else vals[0] == vals[1])
            for p in rs:
                s = p.st
                for m in ('m_baseDomain', 'm_derivedDomain'):
                    x = s.store.get('this.' + m)
                    if x is None or x[0] != 's' or x[1] == d[1]:
                        bad = bad or ('over %s: %s is %s, not a copy of its own' % (vals, m, x and vs(x)), p.why())
                        continue
                    g = tuple(y[1] for y in s.conts.get(x[1] + '.m_values', ((), 0))[0] if y[0] == 'k') if cls == E else tuple(s.store.get(x[1] + b, S('?'))[1] for b in ('.m_lb', '.m_ub'))
                    c = s.store.get(x[1] + '.m_closed')
                    if g != tuple(vals) or c != K(cl):
                        bad = bad or ('over %s%s: %s holds %s' % ('' if cl else 'open ', vals, m, g), p.why())
                a, b = s.store.get('this.m_baseDomain'), s.store.get('this.m_derivedDomain')
                if a == b:
                    bad = bad or ('over %s: base and current domain are one object' % (vals,), p.why())
                elif s.store.get(b[1] + '.m_listener') != s.store.get('this.m_listener') or s.store.get('this.m_listener') in (None, NULL):
                    bad = bad or ('over %s: the variable does not listen to its current domain' % (vals,), p.why())
                fl = s.store.get('this.m_specifiedFlag')
                if fl != K(one) or one and s.store.get('this.m_specifiedValue') != K(vals[0]):
                    bad = bad or ('over %s%s: specified is %s' % ('' if cl else 'open ', vals, fl and vs(fl)), p.why())
        ck.ob('birth', 'a variable over ' + cls, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)


def planner(ck, after, specified):
    P = ck.P
    # specifyValue
    f = P.fn('ConstrainedVariable::specifyValue', 1)
    bad = None
    for v in variables(E, opened=False):
        for x in v.base:
            for auto in (True, False):
                def ans(ev, s, fl):
                    if ev.m == 'getAutoPropagation':
                        return [(K(auto), s)]
                    if ev.m == 'asDouble':
                        return [(K(x), s)]
                    if ev.m == 'getType':
                        return [(S('type'), s)]
                    return None
                q, ps = after(f, v, (S('value'),), extra=ans)
                t = '%s, specifyValue %s, automatic propagation %s' % (v, x, 'on' if auto else 'off')
                w = specified(v, x, True)
                rs = [p for p in ps if p.outcome == 'ret']
                if not rs:
                    bad = bad or (t + ': fails on every path', None)
                for p in rs:
                    g = got(E, p.st)
                    n = sum(1 for e in p.trace if e == ('propagate',))
                    if isinstance(g, str) or g.key() != w.key():
                        bad = bad or ('%s: leaves %s' % (t, g), p.why())
                    elif w is not v and n != (1 if auto else 0):
                        bad = bad or ('%s: propagates %d times' % (t, n), p.why())
                    elif n and p.trace[-1] != ('propagate',):
                        bad = bad or ('%s: propagates before the value is specified' % t, p.why())
    ck.ob('planner', 'specifyValue', bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)
    n = lambda v: len(set(v.cur)) if v.cls == E else (0 if not v.cur else v.cur[1] - v.cur[0] + 1)
    qs = (('isNull', None, lambda v: n(v) == 0 and v.spec is None), ('isSingleton', None, lambda v: v.spec is not None or n(v) == 1),
          ('isSpecified', None, lambda v: v.spec is not None), ('specifiedFlag', None, lambda v: v.spec is not None), ('isEnumerated', None, lambda v: v.cls == E), ('isInterval', None, lambda v: v.cls != E),
          ('isClosed', None, lambda v: not v.bopen), ('getSpecifiedValue', lambda v: v.spec is not None, lambda v: v.spec),
          ('getLowerBound', lambda v: v.cls != E and v.cur, lambda v: v.cur[0]), ('getUpperBound', lambda v: v.cls != E and v.cur, lambda v: v.cur[1]))
    for name, sel, want in qs:
        f = P.fn('ConstrainedVariable::' + name, 0)
        bad = None
        k = 0
        for v in variables(E) + variables(I):
            if sel and not sel(v):
                continue
            q, ps = after(f, v)
            rs = [p for p in ps if p.outcome == 'ret']
            if not rs and not v.copen:
                bad = bad or ('%s: fails on every path' % v, None)
            k += 1
            for p in rs:
                for b, s in q.fl.truth(p.val, p.st) if p.val[0] in ('cmp', 'not') else [(p.val[1], p.st)]:
                    if b != want(v):
                        bad = bad or ('%s: answers %s, expected %s' % (v, b, want(v)), p.why())
                g = got(v.cls, p.st)
                if isinstance(g, str) or g.key() != v.key() or p.trace:
                    bad = bad or ('%s: the query leaves %s' % (v, g), p.why())
        if not k:
            raise Broken('no cases for ' + name)
        ck.ob('planner', name, bad is None, bad[0] if bad else '', ck.where(f), bad[1] if bad else None)
