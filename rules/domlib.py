"""Abstract domains: intervals and enumerations over representative values.

The operations of a Domain only compare, copy and shift by minDelta the numbers they hold, so what one does is
determined by the order type of the bounds (members) involved.  The dataflow engine follows every operation for each
order type, represented by small constants with minDelta 1; infinite bounds are infinities."""
import itertools, math
from vf.lib import *
INF = float('inf')
MAXI = 10 ** 9
MODS = ['ConstraintEngine', 'Utils']
SC = ('EnumeratedDomain', 'IntervalDomain', 'IntervalIntDomain', 'BoolDomain', 'StringDomain', 'SymbolDomain', 'NumericDomain', 'Domain', 'DomainListener',
      'ConstraintEngine/component/Domains.cc', 'ConstraintEngine/component/Domains.hh', 'ConstraintEngine/base/Domain.cc', 'ConstraintEngine/base/Domain.hh')
ENUM = ('EnumeratedDomain', 'StringDomain', 'SymbolDomain', 'NumericDomain')


class D:
    """one abstract domain: cls; vals (bounds, or members); closed; listener attached"""
    def __init__(self, cls, vals, closed=True, listener=True):
        self.cls, self.vals, self.closed, self.listener = cls, tuple(vals), closed, listener
        self.enum = cls in ENUM

    def name(self, tag):
        return 'new %s@%d(%s)' % (self.cls, 1 if tag == 'A' else 2, tag)

    def put(self, st, tag):
        n = self.name(tag)
        st.store[n + '.m_closed'] = K(self.closed)
        st.store[n + '.m_enumerated'] = K(self.enum)
        st.store[n + '.m_dataType'] = S('dt' + tag)
        st.store[n + '.m_listener'] = S('lst' + tag) if self.listener else NULL
        st.facts['eq(lst%s,null)' % tag] = False
        if self.enum:
            st.conts[n + '.m_values'] = (tuple(K(v) for v in sorted(self.vals)), True)
        else:
            st.store[n + '.m_lb'] = K(self.vals[0])
            st.store[n + '.m_ub'] = K(self.vals[1])
        return S(n)

    def set(self):
        """members among the numbers of interest"""
        if self.enum:
            return frozenset(self.vals)
        return grid(self.cls, *self.vals)

    def __repr__(self):
        if self.enum:
            return '%s{%s}' % ('' if self.closed else 'open', ','.join(str(v) for v in self.vals))
        return '[%s,%s]' % self.vals


GRID = [-INF] + [x / 2 for x in range(-6, 27)] + [INF]


def grid(cls, lb, ub):
    return frozenset(x for x in GRID if lb <= x <= ub and (cls == 'IntervalDomain' or x == INF or x == -INF or x == int(x)))


def read(st, tag, cls, enum=None):
    """what the domain holds in this state: tuple of members / (lb, ub); None when not known"""
    n = 'new %s@%d(%s)' % (cls, 1 if tag == 'A' else 2, tag)
    if (cls in ENUM) if enum is None else enum:
        el, cl = st.conts.get(n + '.m_values', ((), False))
        if not cl or any(x[0] != 'k' for x in el):
            return None
        return tuple(sorted(x[1] for x in el))
    b = [st.store.get(n + f) for f in ('.m_lb', '.m_ub')]
    if any(x is None or x[0] != 'k' for x in b):
        return None
    return tuple(x[1] for x in b)


def closed(st, tag, cls):
    v = st.store.get('new %s@%d(%s).m_closed' % (cls, 1 if tag == 'A' else 2, tag))
    return v[1] if v is not None and v[0] == 'k' else None


def num(v):
    return v[0] == 'k' and isinstance(v[1], (int, float))


def answers(numeric=True, delta=1):
    def val(ev, st, fl):
        m = ev.m
        if m == 'minDelta':
            return [(K(delta), st)]
        if m in ('canBeCompared', 'isAssignableFrom'):
            return [(K(True), st)]
        if ev.recv.startswith('dt') and m in ('isNumeric', 'isSymbolic', 'isEntity', 'isString', 'isBool'):
            return [(K(numeric if m == 'isNumeric' else (not numeric) if m == 'isSymbolic' else False), st)]
        if 'infinity' in m and 'numeric_limits' in ev.name:
            return [(K(-INF if 'minus' in m else INF), st)]
        if m == 'max' and 'numeric_limits' in ev.name:
            return [(K(MAXI), st)]
        if m == 'isString' and 'LabelStr' in ev.name:
            return [(K(True), st)]
        if m in ('ceil', 'floor') and ev.args and num(ev.args[-1]):
            x = ev.args[-1][1]
            return [(K(x if x in (INF, -INF) else getattr(math, m)(x)), st)]
        if m in ('abs', 'fabs') and ev.args and num(ev.args[-1]):
            return [(K(abs(ev.args[-1][1])), st)]
        if m == 'cast_double' and ev.args and num(ev.args[0]):
            return [(ev.args[0], st)]
        if m == 'cast_int' and ev.args and num(ev.args[0]):
            x = ev.args[0][1]
            return [(K(x if x in (INF, -INF) else int(x)), st)]
        if m in ('operator eint', 'operator edouble') and ev.args == () and re.match(r'^-?[\d.]+$|^-?inf$', ev.recv):
            x = float(ev.recv)
            return [(K(x if x in (INF, -INF) else int(x)), st)]
        return None
    return val


def recorder(ev, st, fl):
    if ev.kind == 'call' and ev.m == 'notifyChange' and ev.recv.startswith('lst'):
        return ('n', ev.recv[3:], vs(ev.args[0]).replace("'enum:DomainListener::", '').strip("'"))
    return None


def copier(ev, st, fl):
    """copy() of an abstract domain: a new object of that class with those contents"""
    mt = re.match(r'new (\w+)@', ev.recv)
    if ev.m != 'copy' or not mt or ev.args:
        return None
    s = st.cp()
    i = 10
    while 'new %s@%d(copy).m_closed' % (mt.group(1), i) in s.store:
        i += 1
    n = 'new %s@%d(copy)' % (mt.group(1), i)
    for k, v in list(s.store.items()):
        if k.startswith(ev.recv + '.'):
            s.store[n + k[len(ev.recv):]] = v
    for k, v in list(s.conts.items()):
        if k.startswith(ev.recv + '.'):
            s.conts[n + k[len(ev.recv):]] = v
    s.store[n + '.m_listener'] = NULL
    return [(S(n), s)]


class Run:
    """follows one operation on abstract domain A (and B)"""
    def __init__(self, ck, fn, a, b=None, args=(), numeric=True, delta=1, quiet=False, **kw):
        self.ck = ck
        st = St()
        this = a.put(st, 'A')
        av = []
        if b is not None:
            av.append(b.put(st, 'B'))
        av += list(args)
        st.conts['OUT'] = ((), True)
        q = Seq(ck, recorder, scope=SC, newdisp=True, sat=60, trip=12, st=st, value_of=answers(numeric, delta), maxdepth=12, recur=2, **kw)
        self.paths = q.call(fn, this, av)
        self.a, self.b = a, b
        self.fl = q.fl

    def rets(self):
        out = []
        for p in self.paths:
            if p.outcome != 'ret':
                continue
            v = p.val
            if v is None or v == S('void'):
                out.append((None, p))
            else:
                if v[0] not in ('k',) and v[0] in ('cmp', 'not'):
                    out.extend((t, Path('ret', None, s)) for t, s in self.fl.truth(v, p.st))
                else:
                    out.append((v[1] if v[0] == 'k' else v, p))
        return out


def listed(p):
    return [vs(x) for x in p.st.conts.get('OUT', ((), False))[0]]


def notes(p, tag):
    return [t[2] for t in p.trace if t[0] == 'n' and t[1] == tag]


def meth(ck, cls, name, np=None, has='', hasnt='~'):
    """the function a call of cls::name reaches, chosen by parameter types"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        fs = [f for f in ck.P.byq.get(c + '::' + name, []) if (np is None or len(f['p']) == np) and has in ' '.join(p['t'] for p in f['p']) and hasnt not in ' '.join(p['t'] for p in f['p'])]
        if len(fs) == 1:
            return fs[0]
        if len(fs) > 1:
            raise Broken('%s::%s is ambiguous' % (c, name))
        todo += [short(b) for b in (ck.P.cls.get(c) or {}).get('bases', [])]
    raise Broken('no %s::%s' % (cls, name))
