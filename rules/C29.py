"""Numbers: extended arithmetic on integers and reals that saturates at, and never leaves, the two infinities.

Every operator of Number.hh is interpreted over abstract operands - minus infinity, a finite negative number, zero, a
finite positive number, plus infinity - with the finite ones symbolic.  Values are linear forms over these symbols and
over products, quotients and remainders of them; a comparison is decided from the ranges of the symbols or splits the
path.  Each path's result is compared with extended arithmetic."""
import math
from fractions import Fraction as Fr
from vf.lib import *
MODULES = ['Utils']
ASSUMPTIONS = ['machine arithmetic on doubles is exact up to 2^53',
               'inf - inf, 0 * inf, inf / inf, division by zero, remainder by minus infinity and not-a-number operands are outside the rules',
               'pow, sqrt, sin, fmod, streams and hashing are outside the rules']
INF = 4503599627370495
FLOATS = ('double', 'float', 'long double')
NARROW = ('int', 'short', 'unsigned int', 'float', 'char', 'bool', 'unsigned short')


class No(Exception):
    pass


class Thrown(Exception):
    pass


class Ret(Exception):
    pass


class L:
    """linear form: constant + sum of coefficient * atom"""
    def __init__(self, c=0, t=()):
        self.c, self.t = Fr(c), tuple(sorted((a, Fr(k)) for a, k in dict(t).items() if k))

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def plus(self, o, k=1):
        d = dict(self.t)
        for a, x in o.t:
            d[a] = d.get(a, 0) + k * x
        return L(self.c + k * o.c, d)

    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        n = lambda c: 'inf' if c == INF else '-inf' if c == -INF else str(c)
        if not self.t:
            return n(self.c)
        s = ' + '.join(('' if k == 1 else '-' if k == -1 else '%s*' % k) + atext(a) for a, k in self.t)
        return s + (' + ' + n(self.c) if self.c else '')


def atext(a):
    return a[1] if a[0] == 's' else '%s(%s)' % (a[0], ', '.join(repr(x) for x in a[1:]))


class Box:
    """an object of class eint / edouble"""
    def __init__(self, v=None):
        self.v = v


class Eval:
    """one path: decisions are replayed from the list given"""
    def __init__(self, P, ranges, ints, dec):
        self.P, self.dec, self.taken, self.alts = P, list(dec), [], []
        self.rng = {}                     # linear part -> (lo, hi); an open end is the bound +- 0 with a flag
        self.base, self.ints, self.depth = ranges, ints, 0
        self.why = []

    # --- ranges
    def arange(self, a):
        """(lo, lo open, hi, hi open) of an atom"""
        if a[0] == 's':
            return self.base[a[1]]
        if a[0] == 'trunc':
            r = self.rangeof(a[1])
            return tuple(x if x is None or abs(x) == float('inf') else x for x in (min(r[0], 0) if r[0] is not None else None, False, max(r[2], 0) if r[2] is not None else None, False)) if None not in (r[0], r[2]) else (None, True, None, True)
        if a[0] in ('*', '/'):
            x, y = self.rangeof(a[1]), self.rangeof(a[2])
            sg = lambda r: 1 if r[0] is not None and (r[0] > 0 or r[0] == 0 and r[1]) else -1 if r[2] is not None and (r[2] < 0 or r[2] == 0 and r[3]) else 0
            s = sg(x) * sg(y)
            m = lambda r: max(abs(v) for v in (r[0], r[2])) if None not in (r[0], r[2]) else None
            top = m(x) if a[0] == '/' and self.isint(a[2]) else None
            if s > 0:
                return (Fr(0), True, top, False)
            if s < 0:
                return (None if top is None else -top, False, Fr(0), True)
        if a[0] == '%':
            r = self.rangeof(a[1])
            return (None if r[0] is None else min(r[0], Fr(0)), False, None if r[2] is None else max(r[2], Fr(0)), False)
        if a[0] == 'abs':
            r = self.rangeof(a[1])
            if r[0] is not None and r[2] is not None:
                return (Fr(0), False, max(abs(r[0]), abs(r[2])), False)
            return (Fr(0), False, None, True)
        return (None, True, None, True)

    def isint(self, l):
        return l.c.denominator == 1 and all(k.denominator == 1 and (a[0] == 'trunc' or a[0] == 's' and a[1] in self.ints or a[0] in ('*', '%') and self.isint(a[1]) and self.isint(a[2])) for a, k in l.t)

    def rangeof(self, l):
        lo, lop, hi, hop = l.c, False, l.c, False
        for a, k in l.t:
            r = self.arange(a)
            if k < 0:
                r = (r[2], r[3], r[0], r[1])
            lo = None if lo is None or r[0] is None else lo + k * r[0]
            hi = None if hi is None or r[2] is None else hi + k * r[2]
            lop, hop = lop or r[1], hop or r[3]
        g, c, k = self.norm(l)
        if g in self.rng:
            r = self.rng[g]
            s = r if k > 0 else (r[2], r[3], r[0], r[1])
            n = (None if s[0] is None else s[0] * k + l.c, s[1], None if s[2] is None else s[2] * k + l.c, s[3])
            if n[0] is not None and (lo is None or n[0] > lo or n[0] == lo and n[1]):
                lo, lop = n[0], n[1]
            if n[2] is not None and (hi is None or n[2] < hi or n[2] == hi and n[3]):
                hi, hop = n[2], n[3]
        return (lo, lop, hi, hop)

    def norm(self, l):
        """linear part with leading coefficient 1, constant, factor"""
        if not l.t:
            return ((), l.c, Fr(1))
        k = l.t[0][1]
        return (tuple((a, x / k) for a, x in l.t), l.c, k)

    def sign(self, l):
        lo, lop, hi, hop = self.rangeof(l)
        opts = []
        if lo is None or lo < 0:
            opts.append(-1)
        if (lo is None or lo < 0 or lo == 0 and not lop) and (hi is None or hi > 0 or hi == 0 and not hop):
            opts.append(0)
        if hi is None or hi > 0:
            opts.append(1)
        if not opts:
            raise No('infeasible')
        if len(opts) > 1:
            i = len(self.taken)
            s = self.dec[i] if i < len(self.dec) else opts[0]
            if i >= len(self.dec):
                self.alts += [self.taken + [o] for o in opts[1:]]
            self.taken.append(s)
            self.why.append('%r %s 0' % (l, {-1: '<', 0: '=', 1: '>'}[s]))
            g, c, k = self.norm(l)
            b = -c / k                     # g compared with b
            t = s if k > 0 else -s
            o = list(self.rng.get(g, (None, True, None, True)))
            if t >= 0:
                o[0], o[1] = b, t > 0
            if t <= 0:
                o[2], o[3] = b, t < 0
            self.rng[g] = tuple(o)
            return s
        return opts[0]

    # --- arithmetic
    def arith(self, op, a, b, integral):
        if op == '+':
            return a.plus(b)
        if op == '-':
            return a.plus(b, -1)
        ca, cb = a.const(), b.const()
        if op == '*':
            if ca is not None or cb is not None:
                k, x = (ca, b) if ca is not None else (cb, a)
                return L(k * x.c, {t: k * v for t, v in x.t})
            return self.atom('*', *sorted((a, b), key=repr))
        if op == '/':
            if cb is not None and cb != 0:
                r = L(a.c / cb, {t: v / cb for t, v in a.t})
            elif ca == 0:
                return L(0)
            else:
                r = self.atom('/', a, b)
            return self.trunc(r) if integral else r
        if op == '%':
            if ca is not None and cb:
                return L(int(math.fmod(ca, cb)))
            if ca == 0:
                return L(0)
            return self.atom('%', a, b)
        raise Broken('arithmetic operator %s in Number.hh is not known' % op)

    def atom(self, op, a, b):
        """signs to the front"""
        k = 1
        if op in '*/':
            f = lambda l: (L(0, {l.t[0][0]: -l.t[0][1]}), -1) if l.c == 0 and len(l.t) == 1 and l.t[0][1] < 0 else (l, 1)
            (a, x), (b, y) = f(a), f(b)
            k = x * y
        return L(0, {(op, a, b): k})

    def trunc(self, l):
        if self.isint(l):
            return l
        if l.const() is not None:
            return L(int(l.c))
        if len(l.t) == 1 and l.t[0][1] == -1 and l.c == 0:
            return L(0, {('trunc', L(0, {l.t[0][0]: 1})): -1})
        return L(0, {('trunc', l): 1})

    # --- expressions
    def num(self, v):
        if isinstance(v, Box):
            v = v.v
        if isinstance(v, bool):
            v = L(1 if v else 0)
        if not isinstance(v, L):
            raise Broken('a value in Number.hh is not a number: %r' % (v,))
        return v

    def truth(self, v):
        return v if isinstance(v, bool) else self.sign(self.num(v)) != 0

    def loc(self, e, env):
        """the Box an expression denotes"""
        k = e['k']
        if k == 'this':
            return env['this']
        if k == 'un' and e['op'] == '*':
            return self.loc(e['e'], env)
        if k == 'v':
            return env[e['i']]
        if k == 'm' and e['n'].endswith('::m_v'):
            return self.loc(e['b'], env)
        if k in ('cast', 'conv') or k == 'paren':
            return self.loc(e['e'], env)
        if k == 'cond':
            return self.loc(e['x'] if self.truth(self.ev(e['c'], env)) else e['y'], env)
        v = self.ev(e, env)
        if isinstance(v, Box):
            return v
        b = Box(v)
        return b

    def typ(self, e):
        return e.get('t', '') .replace('const ', '')

    def cast(self, v, frm, to):
        to, frm = to.replace('const ', '').replace(' &', ''), frm.replace('const ', '')
        if short(to) in ('eint', 'edouble') or to == 'void':
            return v
        v = self.num(v)
        if to == 'bool':
            return self.sign(v) != 0
        if to in FLOATS:
            return v if to != 'float' or v.const() is not None and abs(v.c) < 2 ** 24 else L(0, {('to ' + to, v): 1})
        if frm in FLOATS or not self.isint(v):
            v = self.trunc(v)
        if to in NARROW and not (v.const() is not None and abs(v.c) < 2 ** 31) and frm != to:
            return L(0, {('to ' + to, v): 1})
        if to.startswith('unsigned') and self.rangeof(v)[0] is not None and self.rangeof(v)[0] < 0:
            return L(0, {('to ' + to, v): 1})
        return v

    def ev(self, e, env):
        k = e['k']
        if k == 'i':
            return L(int(e['v']))
        if k == 'fl':
            return L(Fr(float(e['v'])))
        if k == 'b':
            return bool(e['v'])
        if k == 'this':
            return env['this']
        if k == 'v':
            b = env.get(e['i'])
            if b is None:
                raise Broken('variable %s in Number.hh has no value' % e['n'])
            return b if short(self.typ(e).replace(' &', '')) in ('eint', 'edouble') else b.v
        if k == 'm':
            if e['n'].endswith('::m_v'):
                return self.loc(e['b'], env).v
            raise Broken('member %s in Number.hh' % e['n'])
        if k in ('cast', 'conv'):
            v = self.ev(e['e'], env)
            return self.cast(v, self.typ(e['e']), self.typ(e) if k == 'cast' else self.typ(e))
        if k == 'un':
            op = e['op']
            if op in ('p++', 'p--', '++', '--', '++p', '--p'):
                b = self.loc(e['e'], env)
                old = self.num(b.v)
                b.v = old.plus(L(1), 1 if '++' in op else -1)
                return old if op.startswith('p') else b.v
            v = self.ev(e['e'], env)
            if op == '*':
                return v
            if op == '!':
                return not self.truth(v)
            if op == '-':
                return L(0).plus(self.num(v), -1)
            if op in ('+', '__extension__'):
                return v
            raise Broken('operator %s in Number.hh' % op)
        if k == 'cond':
            return self.ev(e['x'] if self.truth(self.ev(e['c'], env)) else e['y'], env)
        if k == 'bin':
            op = e['op']
            if op == '&&':
                return self.truth(self.ev(e['x'], env)) and self.truth(self.ev(e['y'], env))
            if op == '||':
                return self.truth(self.ev(e['x'], env)) or self.truth(self.ev(e['y'], env))
            if op == ',':
                self.ev(e['x'], env)
                return self.ev(e['y'], env)
            if op == '=' or op[-1] == '=' and op[:-1] in ('+', '-', '*', '/', '%'):
                v = self.ev(e['y'], env)
                b = self.loc(e['x'], env)
                tx = self.typ(e['x'])
                if op != '=':
                    v = self.arith(op[:-1], self.num(b.v), self.num(v), tx not in FLOATS and self.typ(e['y']) not in FLOATS)
                b.v = v if isinstance(v, bool) else self.cast(v, self.typ(e['y']), tx)
                return b.v
            x, y = self.num(self.ev(e['x'], env)), self.num(self.ev(e['y'], env))
            tx, ty = self.typ(e['x']), self.typ(e['y'])
            if 'unsigned long' in (tx, ty) and not (set((tx, ty)) & set(FLOATS)):
                x, y = self.cast(x, tx, 'unsigned long'), self.cast(y, ty, 'unsigned long')
            if op in ('<', '<=', '>', '>=', '==', '!='):
                s = self.sign(x.plus(y, -1))
                return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]
            return self.arith(op, x, y, tx not in FLOATS and ty not in FLOATS)
        if k == 'throw':
            raise Thrown(e.get('t') or 'again')
        if k in ('ctor', 'call', 'op'):
            return self.call(e, env)
        if k == 'ilist' and len(e.get('a', e.get('s', []))) == 1:
            return self.ev(e.get('a', e.get('s'))[0], env)
        raise Broken('construct %s in Number.hh is not known to the numbers rule' % k)

    def call(self, e, env):
        f, a = e.get('f') or '', e.get('a', [])
        if f == '__assert_fail':
            raise Thrown('assert')
        sf = short(f)
        if k_is(e, 'op') and sf.endswith('operator=') or sf in ('eint::operator=', 'edouble::operator='):
            dst = self.loc(a[0] if k_is(e, 'op') else e['o'], env)
            dst.v = self.num(self.ev(a[-1], env))
            return dst
        tgt = ()
        fn = tgt[0] if tgt else by_usr(self.P, e.get('u'))
        args = list(a)
        this = None
        if fn is not None and fn.get('cls') and not fn.get('static') and not fn.get('ctor') and short(f).split('::')[0] in ('eint', 'edouble'):
            if e.get('o') is not None:
                this = self.loc(e['o'], env)
            else:
                this, args = self.loc(args[0], env), args[1:]
        if e['k'] == 'ctor' and (fn is None or len(a) == 1 and short(self.typ(a[0]).replace(' &', '')) == short(e['t'])):
            return Box(self.num(self.ev(a[0], env))) if a else Box(L(0))
        if fn is None or fn.get('body') is None:
            vals = [self.num(self.ev(x, env)) for x in args]
            m = sf.rsplit('::', 1)[-1]
            if m in ('max', 'min') and len(vals) == 2:
                s = self.sign(vals[0].plus(vals[1], -1))
                return vals[0] if (s >= 0) == (m == 'max') else vals[1]
            if m in ('abs', 'fabs', 'labs', 'llabs'):
                return vals[0] if self.sign(vals[0]) >= 0 else L(0).plus(vals[0], -1)
            if m in ('ceil', 'floor', 'trunc') and len(vals) == 1:
                v = vals[0]
                return L(int(getattr(math, m)(v.c))) if v.const() is not None else v if self.isint(v) else self.trunc(v) if m == 'trunc' else L(0, {(m, v): 1})
            raise Broken('%s is called in Number.hh and not known to the numbers rule' % f)
        vals = [self.ev(x, env) for x in args]
        return self.run(fn, this, vals)

    def run(self, fn, this, vals):
        self.depth += 1
        if self.depth > 30:
            raise Broken('recursion in Number.hh')
        env = {'this': this if this is not None else Box()}
        for p, v in zip(fn['p'], vals):
            t = p['t'].replace('const ', '')
            if t.endswith('&') and isinstance(v, Box):
                env[p['i']] = v
            elif isinstance(v, bool) and t == 'bool':
                env[p['i']] = Box(v)
            else:
                env[p['i']] = Box(self.cast(self.num(v), t, t) if short(t) not in ('eint', 'edouble') else self.num(v))
        try:
            for i in fn.get('inits', []):
                if (i.get('m') or '').endswith('::m_v'):
                    env['this'].v = self.cast(self.ev(i['e'], env), self.typ(i['e']), i.get('t', ''))
            self.stmt(fn['body'], env)
            r = None
        except Ret as x:
            r = x.args[0]
        self.depth -= 1
        if fn.get('ctor'):
            return env['this']
        ret = fn['ret'].replace('const ', '')
        if isinstance(r, Box) and not ret.endswith('&'):
            r = Box(r.v)
        if short(ret) in ('eint', 'edouble') and not isinstance(r, Box):
            # a number converts through the class's checked constructor
            c = [x for x in self.P.byq[short(ret) + '::' + short(ret)] if len(x['p']) == 1 and x['p'][0]['t'] == ('const long' if short(ret) == 'eint' else 'const double')]
            r = self.run(c[0], Box(), [r])
        return r

    def stmt(self, n, env):
        k = n['k']
        if k == 'block':
            for s in n['s']:
                self.stmt(s, env)
        elif k == 'if':
            if n.get('d'):
                self.stmt(n['d'], env)
            if self.truth(self.ev(n['c'], env)):
                self.stmt(n['x'], env)
            elif n.get('y'):
                self.stmt(n['y'], env)
        elif k == 'return':
            raise Ret(self.ev(n['e'], env) if n.get('e') else None)
        elif k == 'expr':
            self.ev(n['e'], env)
        elif k == 'decl':
            for d in n['v']:
                v = self.ev(d['e'], env) if d.get('e') else L(0)
                t = d['t'].replace('const ', '')
                if t.endswith('&'):
                    env[d['i']] = self.loc(d['e'], env)
                elif isinstance(v, bool) and t == 'bool':
                    env[d['i']] = Box(v)
                elif short(t) in ('eint', 'edouble'):
                    env[d['i']] = Box(self.num(v))
                else:
                    env[d['i']] = Box(self.cast(v, self.typ(d['e']) if d.get('e') else t, t))
        elif k in ('nop', 'null'):
            pass
        elif k == 'throw':
            raise Thrown(n.get('t') or 'again')
        elif k == 'do' and n.get('c', {}).get('k') in ('b', 'i'):
            self.stmt(n['b'] if 'b' in n else n['x'], env)
        else:
            raise Broken('statement %s in Number.hh is not known to the numbers rule' % k)


def k_is(e, k):
    return e['k'] == k


_byu = {}


def by_usr(P, u):
    if id(P) not in _byu:
        _byu[id(P)] = {f["u"]: f for fs in P.byq.values() for f in fs if f.get('body') is not None}
    return _byu[id(P)].get(u)


def paths(P, fn, this, args, ranges, ints):
    """(outcome, value, this after, Eval) of every path"""
    out, todo = [], [[]]
    while todo:
        dec = todo.pop()
        ev = Eval(P, ranges, ints, dec)
        box = Box(this) if this is not None else None
        try:
            r = ev.run(fn, box, [Box(a) if short(p['t'].replace('const ', '')) in ('eint', 'edouble') else a for a, p in zip(args, fn['p'])])
            out.append(('ret', r.v if isinstance(r, Box) else r, box.v if box else None, ev))
        except Thrown as x:
            out.append(('throw', x.args[0], box.v if box else None, ev))
        except No:
            continue
        todo += ev.alts
        if len(out) > 400:
            raise Broken('too many paths in %s' % fn['sq'])
    return out


INTS = ('int', 'long', 'long long', 'unsigned int', 'unsigned long', 'eint')
CLASSES = ('-inf', 'negative', '0', 'positive', '+inf')


def operand(t, name, cls, ranges, ints):
    """the operand of that type and class, or None where the type has no such value"""
    t = short(t.replace('const ', '').replace(' &', ''))
    big = {'int': 2 ** 31 - 1, 'unsigned int': 2 ** 32 - 1}.get(t)
    if t.startswith('unsigned') and cls in ('negative', '-inf') or big and 'inf' in cls:
        return None
    if cls == '0':
        return L(0)
    if cls == '-inf':
        return L(-INF)
    if cls == '+inf':
        return L(INF)
    i = t in INTS
    lo, op = (Fr(1), False) if i else (Fr(0), True)
    hi, hop = (Fr(big), False) if big else (Fr(INF - 1), False) if i else (Fr(INF), True)
    ranges[name] = (lo, op, hi, hop) if cls == 'positive' else (-hi, hop, -lo, op)
    if i:
        ints.add(name)
    return L(0, {('s', name): 1})


def sgn(c):
    return {'-inf': -1, 'negative': -1, '0': 0, 'positive': 1, '+inf': 1}[c]


def model(op, ca, cb, a, b, ev, integral):
    """extended arithmetic: a linear form, or None when outside the rules"""
    ia, ib = 'inf' in ca, 'inf' in cb
    inf = lambda s: L(INF * s)
    if op in '+-':
        sb = sgn(cb) * (1 if op == '+' else -1)
        if ia and ib:
            return None if sgn(ca) != sb else inf(sb)
        if ia:
            return inf(sgn(ca))
        if ib:
            return inf(sb)
    elif op == '*':
        if ia or ib:
            return None if '0' in (ca, cb) else inf(sgn(ca) * sgn(cb))
    elif op == '/':
        if cb == '0' or ia and ib:
            return None
        if ia:
            return inf(sgn(ca) * sgn(cb))
        if ib:
            return L(0)
    elif op == '%':
        if cb in ('0', '-inf'):
            return None
        if ia:
            return L(0)
        if ib:
            return a
        if ca == '0':
            return L(0)
    return ev.arith(op, a, b, integral)


def run(ck):
    P = ck.P
    r = {k: ck.rule(k, t, n) for k, t, n in (
        ('arith', 'an operator returns the value of extended arithmetic; a finite result beyond an infinity is an exception instead', 600),
        ('assign', 'a compound assignment, an increment or a decrement leaves what the operator returns', 150),
        ('compare', 'a comparison is that of the numbers, infinities being the least and the greatest', 1500),
        ('value', 'conversions, construction, negation, absolute value, rounding, minimum and maximum keep the value', 80),
        ('limits', 'the infinities are the opposite of each other, the same for integers and reals, and everything finite lies strictly between', 8))}
    seen = {}

    def judge(rule, fn, inst, ps, pred):
        ck.fnset.add(fn['u'])
        ck.paths += len(ps)
        bad = None
        if not any(p[0] == 'ret' for p in ps) and pred != 'throws':
            bad = 'the operation never returns: %s' % ', '.join(sorted(set(str(p[1]) for p in ps)))
        for p in ps:
            if bad:
                break
            m = pred(p)
            if m is not True:
                bad = '%s%s' % (m, ' when ' + ' and '.join(p[3].why) if p[3].why else '')
        ck.ob(r[rule], inst, not bad, '%s: %s' % (inst, bad), ck.where(fn))

    def within(v, ev):
        lo, lop, hi, hop = ev.rangeof(v)
        return lo is not None and hi is not None and lo >= -INF and hi <= INF

    def beyond(v, ev):
        lo, lop, hi, hop = ev.rangeof(v)
        if lo is not None and (lo > INF or lo == INF and lop):
            return 'over'
        if hi is not None and (hi < -INF or hi == -INF and hop):
            return 'under'
        return None

    def binary(fn, op, ta, tb, free):
        """arithmetic and comparison"""
        integral = ta in INTS and tb in INTS
        for ca in CLASSES:
            for cb in CLASSES:
                rg, it = {}, set()
                a, b = operand(ta, 'a', ca, rg, it), operand(tb, 'b', cb, rg, it)
                if a is None or b is None:
                    continue
                e0 = Eval(P, rg, it, [])
                inst = '%s %s %s, %s and %s' % (ta, op, tb, ca, cb)
                asg = op[-1] == '=' and op[:-1] in ('+', '-', '*', '/', '%') and len(op) == 2
                o = op[:-1] if asg else op
                if o in ('+', '-', '*', '/', '%'):
                    want = model(o, ca, cb, a, b, e0, integral)
                    if want is None:
                        continue
                    ps = paths(P, fn, None if free else a, [a, b] if free else [b], rg, it)

                    def pred(p, want=want, asg=asg):
                        out, v, this, ev = p
                        if out == 'throw':
                            w = beyond(want, ev)
                            return True if w and ('overflow' if w == 'over' else 'underflow') in v else 'the exact result %r ends in %s' % (want, short(v))
                        if not isinstance(v, L):
                            return 'the result is not a number'
                        if asg and this != want:
                            return 'the operand becomes %r, expected %r' % (this, want)
                        if v != want:
                            return 'the result is %r, expected %r' % (v, want)
                        if not within(want, ev):
                            return 'the result %r is returned although it may lie beyond an infinity' % want
                        return True
                    judge('assign' if asg else 'arith', fn, inst, ps, pred)
                else:
                    ps = paths(P, fn, None if free else a, [a, b] if free else [b], rg, it)

                    def pred(p):
                        out, v, this, ev = p
                        if out == 'throw':
                            return 'the comparison ends in %s' % short(v)
                        lo, lop, hi, hop = ev.rangeof(a.plus(b, -1))
                        signs = set()
                        if lo is None or lo < 0:
                            signs.add(-1)
                        if (lo is None or lo < 0 or lo == 0 and not lop) and (hi is None or hi > 0 or hi == 0 and not hop):
                            signs.add(0)
                        if hi is None or hi > 0:
                            signs.add(1)
                        ans = {{'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[o] for s in signs}
                        return True if ans == {v} else 'the answer is %s' % v
                    judge('compare', fn, inst, ps, pred)

    OPS = ('+', '-', '*', '/', '%', '+=', '-=', '*=', '/=', '%=', '<', '<=', '==', '>=', '>', '!=')
    num = lambda t: short(t.replace('const ', '').replace(' &', ''))
    own = [f for fs in P.byq.values() for f in fs if f['file'].endswith('Utils/Number.hh') and f.get('body') is not None]
    done = set()
    for fn in own:
        q = fn['sq']
        m = re.match(r'^(?:(eint|edouble)::)?operator\s*(\S+)$', q)
        if not m or m.group(2) not in OPS:
            continue
        free = fn.get('cls') is None or len(fn['p']) == 2
        ts = [num(p['t']) for p in fn['p']]
        if not free:
            ts = [m.group(1)] + ts
        if len(ts) != 2 or not set(ts) <= set(INTS + ('double', 'long double', 'edouble', 'long long int')):
            continue
        key = (m.group(2),) + tuple(ts)
        if key in done:
            continue
        done.add(key)
        binary(fn, m.group(2), ts[0], ts[1], free)

    # one operand
    for cls in ('eint', 'edouble'):
        for op, post, f in (('++', 0, 1), ('++', 1, 1), ('--', 0, -1), ('--', 1, -1)):
            fn = [x for x in P.byq['%s::operator%s' % (cls, op)] if len(x['p']) == post][0]
            for c in CLASSES:
                rg, it = {}, set()
                a = operand(cls, 'a', c, rg, it)
                new = a if 'inf' in c else a.plus(L(f))

                def pred(p):
                    out, v, this, ev = p
                    if out == 'throw':
                        return 'it ends in %s' % short(v)
                    if this != new:
                        return 'the operand becomes %r, expected %r' % (this, new)
                    w = a if post else new
                    return True if v == w else 'the result is %r, expected %r' % (v, w)
                judge('assign', fn, '%s %s%s, %s' % (cls, 'post' if post else '', op, c), paths(P, fn, a, [L(0)] * post, rg, it), pred)
        one = [('operator-', lambda a, c: L(0).plus(a, -1)), ('operator+', lambda a, c: a), ('operator!', lambda a, c: c == '0')]
        for q, w in one:
            fn = [x for x in P.byq['%s::%s' % (cls, q)] if len(x['p']) == 0][0]
            for c in CLASSES:
                rg, it = {}, set()
                a = operand(cls, 'a', c, rg, it)
                want = w(a, c)
                judge('value', fn, '%s %s, %s' % (cls, q, c), paths(P, fn, a, [], rg, it),
                      lambda p: True if p[0] == 'ret' and p[1] == want else 'the result is %s %r, expected %r' % (p[0], p[1], want))
    ident = [(f, num(f['p'][0]['t'])) for f in own if re.match(r'^cast_\w+$', f['sq'])]
    for fn, t in ident:
        real = fn['ret'] in FLOATS
        for c in CLASSES:
            rg, it = {}, set()
            a = operand(t, 'a', c, rg, it)
            want = a if real or t == 'eint' else Eval(P, rg, it, []).trunc(a)
            judge('value', fn, '%s(%s), %s' % (fn['sq'], t, c), paths(P, fn, None, [a], rg, it),
                  lambda p: True if p[0] == 'ret' and p[1] == want else 'the result is %s %r, expected %r' % (p[0], p[1], want))
    for cls in ('eint', 'edouble'):
        for fn in P.byq['%s::%s' % (cls, cls)]:
            if len(fn['p']) != 1 or num(fn['p'][0]['t']) == cls or fn.get('body') is None or fn.get('acc') != 'public':
                continue
            t = num(fn['p'][0]['t'])
            for c in CLASSES:
                rg, it = {}, set()
                a = operand(t, 'a', c, rg, it)
                if a is None:
                    continue
                judge('value', fn, '%s of %s, %s' % (cls, t, c), paths(P, fn, L(0), [a], rg, it),
                      lambda p: True if p[0] == 'ret' and p[1] == a else 'it ends in %s %r, expected %r' % (p[0], p[1], a))
    fn = P.byq['edouble::operator eint'][0]
    for c in CLASSES:
        rg, it = {}, set()
        a = operand('edouble', 'a', c, rg, it)
        want = Eval(P, rg, it, []).trunc(a)
        judge('value', fn, 'edouble to eint, %s' % c, paths(P, fn, a, [], rg, it),
              lambda p: True if p[0] == 'ret' and p[1] == want else 'the result is %s %r, expected %r' % (p[0], p[1], want))
    fn = P.byq['eint::asLong'][0]
    for c in CLASSES:
        rg, it = {}, set()
        a = operand('eint', 'a', c, rg, it)
        judge('value', fn, 'asLong, %s' % c, paths(P, fn, a, [], rg, it), lambda p: True if p[0] == 'ret' and p[1] == a else 'the result is %r, expected %r' % (p[1], a))
    ofme = lambda q: [f for f in P.byq['std::' + q] if f['file'].endswith('Number.hh')][0]
    for q in ('abs', 'ceil', 'floor'):
        fn = ofme(q)
        for c in CLASSES:
            rg, it = {}, set()
            a = operand('edouble', 'a', c, rg, it)
            want = (a if sgn(c) >= 0 else L(0).plus(a, -1)) if q == 'abs' else a if a.const() is not None else L(0, {(q, a): 1})
            judge('value', fn, '%s of a real, %s' % (q, c), paths(P, fn, None, [a], rg, it),
                  lambda p: True if p[0] == 'ret' and p[1] == want else 'the result is %s %r, expected %r' % (p[0], p[1], want))
    for q, s in (('max', 1), ('min', -1)):
        fn = ofme(q)
        for ca in CLASSES:
            for cb in CLASSES:
                rg, it = {}, set()
                a, b = operand('edouble', 'a', ca, rg, it), operand('edouble', 'b', cb, rg, it)

                def pred(p):
                    if p[0] != 'ret' or p[1] not in (a, b):
                        return 'the result is %s %r' % p[:2]
                    o = b if p[1] == a else a
                    lo, lop, hi, hop = p[3].rangeof((p[1] if s > 0 else o).plus(o if s > 0 else p[1], -1))
                    return True if lo is not None and lo >= 0 else 'the result is %r' % p[1]
                judge('value', fn, '%s of reals, %s and %s' % (q, ca, cb), paths(P, fn, None, [a, b], rg, it), pred)

    # the constants
    for cls in ('eint', 'edouble'):
        for q, want in (('infinity', INF), ('minus_infinity', -INF), ('max', INF - 1), ('min', 1 - INF)):
            fn = P.byq['std::numeric_limits<%s>::%s' % (cls, q)][0]
            judge('limits', fn, '%s of %s' % (q, cls), paths(P, fn, None, [], {}, set()),
                  lambda p: True if p[0] == 'ret' and p[1] == L(want) else 'it is %r' % (p[1],))
