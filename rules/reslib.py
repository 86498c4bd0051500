"""A resource over representative transactions: the source of Profile, Instant, the detectors and Resource is interpreted
from the constructors on.  The variables of the transactions and the engine around the resource are modelled."""
import re
from vf.lib import *
from vf.flow import *
from vf.ir import Broken, short
PINF, MINF = 9999, -9999
INF = {'PLUS_INFINITY': PINF, 'MINUS_INFINITY': MINF}
SCP = ('Profile', 'ProfileIterator', 'Instant', 'TimetableProfile', 'GroundedProfile', 'ExplicitProfile', 'Profile.cc', 'Profile.hh', 'Instant.cc', 'Instant.hh', 'TimetableProfile.cc', 'GroundedProfile.cc')
DET = ('FVDetector', 'GenericFVDetector', 'ClosedWorldFVDetector', 'OpenWorldFVDetector', 'GroundedFVDetector', 'GenericFVDetector.cc', 'GenericFVDetector.hh', 'FVDetector.hh', 'OpenWorldFVDetector.cc', 'ClosedWorldFVDetector.cc', 'GroundedFVDetector.cc')


RES = ('Resource', 'Reservoir', 'Reusable', 'CBReusable', 'UnaryTimeline', 'Uses', 'Transaction', 'ResourceTokenRelation', 'GenericFVProfile', 'PSGenericProfile', 'PSUsageProfile', 'PSResource.cc', 'Profile::VariableListener', 'Profile::ConstraintAdditionListener',
       'Profile::ConstraintRemovalListener', 'VariableListener', 'ConstraintAdditionListener', 'Resource.cc', 'Resource.hh', 'Reservoir.cc', 'Reusable.cc', 'Transaction.cc', 'Transaction.hh', 'ResourceTokenRelation.cc', 'ResourceTokenRelation.hh')
ALL = SCP + DET + RES
EMPTY = (1, 0)


class Fails(Exception):
    pass


class Res:
    """an abstract resource (or a bare profile with a recorded detector) and the variables of its transactions"""
    def __init__(self, ck, profile='TimetableProfile', cls=None, detector=None, allow=False, args=(), trip=30):
        self.ck, self.profile, self.cls, self.detector, self.allow, self.args = ck, profile, cls, detector, allow, args
        self.vars, self.tx, self.tok, self.dist, self.can, self.must = set(), {}, {}, {}, set(), set()
        st = St()
        for k, v in INF.items():
            st.store[k] = K(v)
        for o, c in (('prof', profile), ('det', detector), ('res', cls)):
            if c:
                st.store['obj#%s.#cls' % o] = K(c)
                st.facts['eq(obj#%s,null)' % o] = False
        st.facts['Entity::isPurging()'] = False
        self.q = Seq(ck, self.rec, st=st, scope=ALL, sat=60, value_of=self.value, newdisp=True, trip=trip, recur=4, maxdepth=20,
                     inline=lambda f: True if f.get('ctor') and (short(f.get('cls', '')) in ALL or f.get('cls', '').rsplit('::', 1)[-1] in ALL) else None)
        self.q.fl.grow = 60
        self.q.fl.value_ctor = self.made
        self.st = [p.st for p in self.q.runs]
        if cls:
            c = [f for f in ck.P.byq.get('%s::%s' % (cls, cls), []) if any(p['n'] == 'detectorName' for p in f['p'])]
            if len(c) != 1:
                raise Broken('constructor of ' + cls)
            vals = dict(zip(('initCapacityLb', 'initCapacityUb', 'lowerLimit', 'upperLimit', 'maxInstProduction', 'maxInstConsumption', 'maxProduction', 'maxConsumption'), self.args))
            self.runf(c[0], 'obj#res', *[K(vals[p['n']]) if p['n'] in vals else S(p['n']) for p in c[0]['p']])
        else:
            self.run('%s::%s' % (profile, profile), 'obj#prof', S('db'), S('obj#det'))

    # running the source
    def run(self, q, this, *args, pick=None):
        fs = [f for f in self.ck.P.byq.get(q, []) if len(f['p']) == len(args) and not f.get('pure') and (pick is None or pick(f))]
        if len(fs) != 1:
            raise Broken('%s (%d)' % (q, len(fs)))
        return self.runf(fs[0], this, *args)

    def call(self, cls, name, this, *args, pick=None):
        """the method a call on an object of this class reaches"""
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            fs = [f for f in self.ck.P.byq.get(c + '::' + name, []) if len(f['p']) == len(args) and not f.get('pure') and (pick is None or pick(f))]
            if len(fs) == 1:
                return self.runf(fs[0], this, *args)
            todo += [short(b) for b in (self.ck.P.cls.get(c) or {}).get('bases', [])]
        raise Broken('no %s::%s' % (cls, name))

    def runf(self, f, this, *args):
        self.fn = f
        self.q.runs = [Path('ret', None, s) for s in self.st]
        self.ps = self.q.call(f, S(this), list(args))
        ps = [p for p in self.ps if p.outcome == 'ret']
        d = {}
        for p in ps:
            d.setdefault((p.st.key(), p.val), p)
        ps = list(d.values())
        self.st = [p.st for p in ps]
        if not ps and any(p.outcome == 'throw' for p in self.ps):
            t = [x for p in self.ps if p.outcome == 'throw' for x in p.st.trace[-1:]]
            raise Fails('%s fails a check%s' % (f['sq'], ' in %s:%s' % t[0][1:] if t and t[0][0] == 'throw' else ''))
        if not ps:
            raise Broken('%s does not return: %s' % (f['sq'], [(p.outcome, p.st.trace[-1:], p.st.why[-1:]) for p in self.ps][:3]))
        vals = {self.q.fl.deref(p.val, p.st) if p.val is not None else None for p in ps}
        return vals.pop() if len(vals) == 1 else None

    # the variables
    def var(self, v, d):
        self.vars.add(v)
        for s in self.st:
            s.facts['eq(%s,null)' % v] = False
            for w in self.vars:
                if w != v:
                    s.facts['eq(%s,%s)' % (v, w)] = s.facts['eq(%s,%s)' % (w, v)] = False
        self.dom(v, d)

    def dom(self, v, d):
        for s in self.st:
            s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = K(d[0]), K(d[1])

    def bounds(self, v):
        vals = {tuple(s.store['D:%s.%s' % (v, f)][1] for f in ('lb', 'ub')) for s in self.st}
        return vals.pop() if len(vals) == 1 else None

    def add(self, t, time, qty, consumer):
        """a transaction that is not backed by a token"""
        self.tx[t] = consumer
        self.var('time:' + t, time)
        self.var('qty:' + t, qty)
        self.differ(t, self.tx)
        self.run('Profile::addTransaction', 'obj#prof', S(t))

    def differ(self, t, others):
        for s in self.st:
            s.facts['eq(%s,null)' % t] = False
            for u in others:
                if u != t:
                    s.facts['eq(%s,%s)' % (t, u)] = s.facts['eq(%s,%s)' % (u, t)] = False

    def change(self, v, d, kind):
        """the domain of the variable changes: the listeners of the profile hear of it"""
        self.dom(v, d)
        ls = {tuple(vs(x[2]) for x in s.conts['obj#prof.m_variableListeners'][0] if x[0] == 'pair') for s in self.st}
        if len(ls) != 1:
            raise Broken('the variable listeners of the profile are not known')
        for l in ls.pop():
            self.run('Profile::VariableListener::notifyChanged', l, S(v), K('enum:DomainListener::' + kind))

    def made(self, ev, st, fl):
        n = ev.name.split('::')[-1]
        if n == 'IntervalDomain' and (not ev.args or vs(ev.args[0]).startswith('FloatDT')):
            s, i = st.cp(), 1
            while 'D:tmp%d.lb' % i in s.store:
                i += 1
            s.store['D:tmp%d.lb' % i], s.store['D:tmp%d.ub' % i] = K(MINF), K(PINF)
            return [(S('D:tmp%d' % i), s)]
        if not ev.args:
            return None
        if 'shared_ptr' in ev.name or n in ('eint', 'edouble', 'TimeVarId') or 'Domain' in n and vs(ev.args[0]).startswith('D:'):
            return [(fl.deref(ev.args[0], st), st)]
        return None

    def rec(self, ev, st, fl):
        if ev.kind == 'call' and ev.recv == 'obj#det' and not self.detector:
            return (ev.m,) + tuple(vs(fl.deref(a, st)) for a in ev.args)
        if ev.kind == 'delete':
            return ('delete', ev.recv)
        if ev.kind == 'throw':
            return ('throw', ev.fn, ev.line)
        return None

    def note(self, st, *what):
        s = st.cp()
        s.trace = tuple(s.trace) + (what,)
        return s

    def shared(self, ev, st, fl):
        t = re.sub(r'^.*shared_ptr<(.*?)>$', r'\1', ev.node['t']).strip().split('EUROPA::')[-1]
        c = [f for q in self.ck.P.byq if q.endswith('%s::%s' % (t, t.rsplit('::', 1)[-1])) for f in self.ck.P.byq[q] if f.get('ctor')]
        c = [f for f in c if len(f['p']) >= len(ev.args)]
        if len(c) != 1:
            raise Broken('the constructor make_shared<%s> runs' % t)
        s, i = st.cp(), 1
        while 'obj#%s%d.#cls' % (t, i) in s.store:
            i += 1
        n = 'obj#%s%d' % (t, i)
        s.store[n + '.#cls'] = K(t)
        args = list(ev.args)
        if len(args) < len(c[0]['p']):
            args += [K(False)] * (len(c[0]['p']) - len(args))   # the only default argument says that it listens to the time
        out = []
        for _, s2, oc in fl.call_body(c[0], S(n), args, s, fl.cur[3] + 1):
            if oc == 'ret':
                out.append((S(n), s2))
        return out

    def value(self, ev, st, fl):
        m, r = ev.m, ev.recv
        one = lambda v: [(v, st)]
        if r == 'obj#det' and not self.detector:
            return one(K(False if m == 'detect' else None))
        b = lambda v, f: st.store['D:%s.%s' % (v, f)]
        if m in ('infinity', 'minus_infinity') and 'numeric_limits' in ev.name:
            return one(K(MINF if m == 'minus_infinity' else PINF))
        if m in ('cast_int', 'cast_long', 'cast_double', 'cast_basis', 'abs', 'fabs') and ev.args:
            a = fl.deref(ev.args[0], st)
            if a[0] == 'k':
                return one(K(abs(a[1]) if 'abs' in m else a[1]))
        if m in ('max', 'min') and ev.name.startswith('std::') and len(ev.args) == 2:
            a = [fl.deref(x, st) for x in ev.args]
            if all(x[0] == 'k' for x in a):
                return one(K((max if m == 'max' else min)(a[0][1], a[1][1])))
        if r in self.tx:
            if m in ('time', 'quantity'):
                return one(S(('time:' if m == 'time' else 'qty:') + r))
            if m == 'isConsumer':
                return one(K(self.tx[r]))
            if m == 'getOwner':
                return one(K(None))
        if r in self.vars:
            if m in ('lastDomain', 'getLastDomain', 'baseDomain', 'derivedDomain'):
                return one(S('D:' + r))
            if m == 'parent':
                return one(S(r.split(':')[1]))
            if m == 'getKey':
                return one(K(sorted(self.vars).index(r)))
        if r.startswith('D:'):
            v = r[2:]
            lb, ub = b(v, 'lb')[1], b(v, 'ub')[1]
            if m in ('getLowerBound', 'getUpperBound', 'getSingletonValue'):
                return one(K(ub if m == 'getUpperBound' else lb))
            if m == 'getBounds':
                s = st.cp()
                for x, y in zip(ev.node['a'], (lb, ub)):
                    ls = [l for l, _ in fl.lv(x, st)]
                    if len(ls) != 1 or ls[0][0] != 'loc':
                        raise Broken('getBounds into %s' % (ls,))
                    s.store[ls[0][1]] = K(y)
                return [(K(True), s)]
            if m == 'isEmpty':
                return one(K(lb > ub))
            if m == 'isSingleton':
                return one(K(lb == ub))
            if m == 'isMember':
                a = fl.deref(ev.args[0], st)
                return one(K(lb <= a[1] <= ub)) if a[0] == 'k' else None
            if m == 'intersects':
                o = vs(fl.deref(ev.args[0], st))[2:]
                return one(K(max(lb, b(o, 'lb')[1]) <= min(ub, b(o, 'ub')[1])))
            if m == 'intersect' and len(ev.args) == 2:
                a = [fl.deref(x, st) for x in ev.args]
                if all(x[0] == 'k' for x in a):
                    s = st.cp()
                    s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = K(max(lb, a[0][1])), K(min(ub, a[1][1]))
                    return [(K(True), s)]
            if m == 'operator=':
                o = vs(fl.deref(ev.args[0], st))[2:]
                s = st.cp()
                s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = b(o, 'lb'), b(o, 'ub')
                return [(S(r), s)]
            if m == 'empty':
                s = self.note(st, 'emptied', v)
                s.store['D:%s.lb' % v], s.store['D:%s.ub' % v] = K(EMPTY[0]), K(EMPTY[1])
                s.store['#empty'] = K(True)
                return [(K(None), s)]
        if m in ('toString', 'toLongString', 'getName') and r not in self.tok and not r.startswith(('obj#rtr:', 'other:')):
            return one(S('text'))
        if m == 'make_shared':
            return self.shared(ev, st, fl)
        if m == 'makeScope':
            s = st.cp()
            n = 'scope(%s)' % ','.join(vs(fl.deref(a, st)) for a in ev.args)
            s.conts[n] = (tuple(fl.deref(a, st) for a in ev.args), True)
            return [(S(n), s)]
        if m == 'getConstraintEngine':
            return one(S('ce'))
        if m == 'getPlanDatabase':
            return one(S('db'))
        if m == 'getAllowViolations':
            return one(K(self.allow))
        if m == 'allowViolations':
            return None
        if m == 'provenInconsistent':
            return one(K(st.store.get('#empty', K(False))[1]))
        if m in ('propagate', 'constraintConsistent'):
            return one(K(not st.store.get('#empty', K(False))[1]))
        if m in ('isValid', 'isId') and not ev.args and (r.startswith(('obj#', 'new ')) or r in self.tok or r in self.tx or r in self.vars):
            return one(K(True))
        return self.resource(ev, st, fl)

    # the plan database around a resource
    def resource(self, ev, st, fl):
        m, r = ev.m, ev.recv
        one = lambda v: [(v, st)]
        if m == 'createInstance':
            o, c, args = ('det', self.detector, [S('obj#res')]) if 'etector' in vs(ev.args[0]) else ('prof', self.profile, [S('db'), S('obj#det')])
            fs = [f for f in self.ck.P.byq.get('%s::%s' % (c, c), []) if len(f['p']) == len(args)]
            return [(S('obj#' + o), s) for _, s, oc in fl.call_body(fs[0], S('obj#' + o), args, st, fl.cur[3] + 1) if oc == 'ret']
        if m in ('getComponent', 'getEngine', 'getPropagatorByName', 'polymorphic_cast'):
            return one(S(m))
        if m in ('addProfile', 'setUpdateRequired'):
            return [(K(None), self.note(st, m, *[vs(fl.deref(a, st)) for a in ev.args]))]
        if r in self.tok:
            d = self.tok[r]
            if m in d and not ev.args:
                return one(d[m])
            if m == 'getStandardConstraints':
                s = st.cp()
                s.conts['std:' + r] = ((S('other:' + r), S('obj#rtr:' + r)), True)
                return [(S('std:' + r), s)]
            if m in ('getPredicateName', 'toString', 'getName'):
                return one(S('text'))
            if m == 'getKey':
                return one(K(sorted(self.tok).index(r) + 100))
        if m == 'getName' and r.startswith(('other:', 'obj#rtr:')):
            return one(K('ResourceObjectRelation' if 'rtr' in r else 'other'))
        if r.startswith('other:') and m == 'getViolation':
            return one(K(0))
        if r == 'obj#res' and m == 'getKey':
            return one(K(77))
        if r.startswith('obj#rtr:') and m in ('notifyViolated', 'notifyNoLongerViolated', 'getViolation') and (m == 'getViolation' or ev.name.startswith(('Constraint::', 'EUROPA::Constraint::'))):
            if m == 'getViolation':
                return one(st.store.get('#viol:' + r, K(0)))
            s = st.cp()
            s.store['#viol:' + r] = K(1 if m == 'notifyViolated' else 0)
            return [(K(None), s)]
        if ev.name in ('Object::add', 'Object::remove', 'Object::notifyDeleted') and ev.args:
            s = st.cp()
            t = vs(fl.deref(ev.args[0], st))
            s.store['#on:' + t] = K(m == 'add')
            return [(K(None), s)]
        if m == 'tokens' and r == 'obj#res':
            s = st.cp()
            s.conts['#tokens'] = (tuple(S(t) for t in sorted(self.tok) if st.store.get('#on:' + t, K(False))[1]), True)
            return [(S('#tokens'), s)]
        if m == 'getTemporalAdvisor':
            return one(S('advisor'))
        if r == 'advisor' and m == 'getTemporalDistanceSigns':
            s = st.cp()
            a = [vs(fl.deref(x, st)) for x in ev.args]
            d = [self.distance(a[0], vs(x), st) for x in s.conts[a[1]][0]]
            for n, i in ((a[2], 0), (a[3], 1)):
                s.conts[n] = (tuple(K((x[i] > 0) - (x[i] < 0)) for x in d), True)
            return [(K(None), s)]
        if m in ('canPrecede', 'isConstrainedToPrecede') and len(ev.args) == 2:
            a = [vs(fl.deref(x, st)) for x in ev.args]
            if all(x in self.tok for x in a):
                return one(K(tuple(a) in (self.can if m == 'canPrecede' else self.must)))
        if m == 'notifyOrderingRequired' or m == 'notifyOrderingNoLongerRequired':
            return [(K(None), self.note(st, m, vs(fl.deref(ev.args[0], st))))]
        return None

    def token(self, t, **attrs):
        """attrs: the answers of the token (getTime, getQuantity, isConsumer, start, end …)"""
        self.tok[t] = attrs
        self.differ(t, self.tok)
        for s in self.st:
            s.store['obj#rtr:%s.#cls' % t] = K('ResourceTokenRelation')

    def distance(self, a, b, st):
        """the distance from one time to another: what is known of it, or what their bounds allow"""
        if (a, b) in self.dist:
            return self.dist[a, b]
        if (b, a) in self.dist:
            return tuple(-x for x in self.dist[b, a][::-1])
        g = lambda v, f: st.store['D:%s.%s' % (v, f)][1]
        return (0, 0) if a == b else (g(b, 'lb') - g(a, 'ub'), g(b, 'ub') - g(a, 'lb'))

    # what the profile looks like
    def instants(self):
        """time -> name of the instant object"""
        vals = {s.conts.get('obj#prof.m_instants') for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        if v is None or not v[1] or any(x[1][0] != 'k' for x in v[0]):
            return None
        return {x[1][1]: vs(x[2]) for x in v[0]}

    def members(self, inst, cont):
        vals = {s.conts.get('%s.%s' % (inst, cont)) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return None if v is None or not v[1] else [vs(x) for x in v[0]]

    def field(self, obj, f):
        vals = {s.store.get('%s.%s' % (obj, f)) for s in self.st}
        v = vals.pop() if len(vals) == 1 else None
        return v[1] if v is not None and v[0] == 'k' else None

    def trace(self):
        vals = {s.trace for s in self.st}
        return vals.pop() if len(vals) == 1 else None
