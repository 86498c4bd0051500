"""Reusable rule templates."""
import re
from .core import *
from .flow import *
from .ir import walk, short, rel

EL = re.compile(r'^(.*)\[(\d+)\]$')


def container_of_registration(ck, rid, addfn, what):
    """The container a registration function inserts its argument into (on every normal path)."""
    ps, fl = ck.flow(addfn, lambda ev, st, f: ('ins', ev.recv, ev.args) if ev.kind == 'cins' else None)
    conts = set()
    for p in ps:
        if p.outcome != 'ret':
            continue
        got = [t[1] for t in p.trace if S('$0') in t[2] or any(a[0] == 'pair' and a[2] == S('$0') for a in t[2])]
        conts.add(tuple(sorted(set(got))))
    ok = len(conts) >= 1 and all(len(c) >= 1 for c in conts)
    ck.ob(rid, 'register %s' % what, ok, 'a path through the registration of a %s does not add it to the registered set' % what, ck.where(addfn))
    return conts.pop()[0] if ok else None


def teardown_flags(P, cls):
    """boolean fields of cls that become true only in its destructor"""
    c = P.cls.get(cls)
    out = set()
    for fq, t in (c['fields'] if c else []):
        if t != 'bool':
            continue
        n = short(fq).split('::')[-1]
        where = set()
        for f in P.fns.values():
            if short(f.get('cls', '')) != cls:
                continue
            for x in walk(f['body']):
                if x['k'] == 'bin' and x['op'] == '=' and x['x']['k'] == 'm' and short(x['x']['n']) == short(fq):
                    where.add('dtor' if f.get('dtor') else f['sq'])
        if where == {'dtor'}:
            out.add('this.' + n)
    return out


def removal_of_registration(ck, rid, rmfn, cont, what):
    ps, fl = ck.flow(rmfn, lambda ev, st, f: ('del', ev.recv, ev.args) if ev.kind in ('cdel',) else None, )

    td = teardown_flags(ck.P, short(rmfn.get('cls', '')))

    def pred(p):
        if any(t[1] == cont and S('$0') in t[2] for t in p.trace):
            return True
        if any(p.facts.get(x) for x in td):
            return True       # the publisher itself is being destroyed
        if 'size(%s)=0' % cont in p.st.why:
            return True       # nothing is registered
        if p.facts.get('in($0,%s)' % cont) is False:
            return True
        els = each(p, cont) or []
        same = [e for t in p.trace if t[1] == cont for e in map(vs, t[2])]
        if any(p.facts.get('eq($0,%s)' % e) for e in same):
            return True       # the element found equal is removed
        if els and all(p.facts.get('eq($0,%s)' % e) is False for e in els):
            return True       # compared with every element
        return 'listener stays registered'
    ck.forall_paths(rid, 'unregister %s' % what, rmfn, ps, pred, 'unregistration must remove the %s from the registered set' % what)


def rec_listener(iface, extra=None):
    """record calls whose static callee belongs to one of the listener interfaces"""
    def rec(ev, st, fl):
        out = []
        if ev.kind == 'call':
            c, _, m = ev.name.rpartition('::')
            if c in iface and m.startswith(('notify', 'handle', 'step', 'backtrack', 'decision', 'on')):
                out.append(('note', m, ev.recv, ev.args))
        if extra:
            r = extra(ev, st, fl)
            if r:
                out.extend(r if isinstance(r, list) else [r])
        return out or None
    return rec


def notes_for(p, cont):
    """notifications per representative listener: {i: [(name,args)]}"""
    n = len(p.st.conts[cont][0]) if cont in p.st.conts else None
    res = {}
    other = []
    for t in p.trace:
        if t[0] != 'note':
            continue
        m = EL.match(t[2])
        if m and m.group(1) == cont:
            res.setdefault(int(m.group(2)), []).append((t[1], t[3]))
        else:
            other.append(t)
    return n, res, other


def check_notes(p, cont, expected):
    """expected: list of (name, [argtext or None...]); exactly those, in order, to each listener"""
    n, res, other = notes_for(p, cont)
    if n is None:
        if not expected:
            return True
        return 'listeners are not visited on this path (expected %s)' % ', '.join(e[0] for e in expected)
    for i in range(n):
        got = res.get(i, [])
        if len(got) != len(expected):
            return 'listener %d of %d receives %s, expected exactly %s' % (i + 1, n, [g[0] for g in got] or 'nothing', [e[0] for e in expected])
        for (gn, ga), (en, ea) in zip(got, expected):
            if gn != en:
                return 'listener receives %s, expected %s' % (gn, en)
            if ea is not None:
                for k, a in enumerate(ea):
                    if a is None:
                        continue
                    g = vs(ga[k]) if k < len(ga) else '<missing>'
                    if callable(a):
                        if not a(g):
                            return '%s argument %d is %s' % (gn, k + 1, g)
                    elif g != a:
                        return '%s argument %d is %s, expected %s' % (gn, k + 1, g, a)
    return True


def order(p, a, b):
    """every a-event before every b-event (predicates on trace tuples)"""
    ia = [i for i, t in enumerate(p.trace) if a(t)]
    ib = [i for i, t in enumerate(p.trace) if b(t)]
    return not ia or not ib or max(ia) < min(ib)


def query(fl, st, fn, this='this', args=()):
    """possible boolean results of a predicate member function in state st"""
    sv = (fl.stack, getattr(fl, 'cur', None), fl.entry, getattr(fl, 'throws', []), fl.record)
    fl.stack, fl.cur, fl.entry, fl.throws = [], None, fn, []
    fl.record = lambda *a: None
    res = set()
    try:
        for v, s, oc in fl.call_body(fn, S(this), list(args), st, 0):
            if oc != 'ret' or v is None:
                continue
            for b, s2 in fl.truth(v, s):
                res.add(b)
    finally:
        fl.stack, fl.cur, fl.entry, fl.throws, fl.record = sv
    return res


# ---------------------------------------------------------------- recorder
def rec(calls=None, writes=None, conts=None, dels=True, news=None, throws=False, skip=None):
    """Generic recorder. Tags:
       ('c', method, recv, args, qualified name)   ('w', location, value)
       ('+', container, args) ('-', container, args) ('0', container)  ('=', container, args)
       ('d', object) delete / release   ('n', class, args, obj)   ('t', type)"""
    rc = re.compile(calls) if calls else None
    rw = re.compile(writes) if writes else None
    rk = re.compile(conts) if conts else None
    rn = re.compile(news) if news else None
    rs = re.compile(skip) if skip else None

    def r(ev, st, fl):
        k = ev.kind
        if k == 'call':
            if rc and rc.search(ev.name) and not (rs and rs.search(ev.name)):
                return ('c', ev.m, ev.recv, tuple(vs(a) for a in ev.args), ev.name, tuple(ctext(st, a) for a in ev.args))
        elif k == 'write':
            loc = '%s.%s' % (ev.recv, ev.m)
            if rw and rw.search(loc):
                return ('w', loc, vs(ev.args[0]) if ev.args else '?')
        elif k in ('cins', 'cdel', 'cclear', 'cassign', 'cswap'):
            rv = re.sub(r'~\d+', '', ev.recv)
            if rk and rk.search(rv):
                return ({'cins': '+', 'cdel': '-', 'cclear': '0', 'cassign': '=', 'cswap': '%'}[k], rv, tuple(vs(a) for a in ev.args))
        elif k in ('delete', 'release'):
            if dels:
                return ('d', ev.recv)
        elif k == 'new':
            if rn and rn.search(ev.name):
                return ('n', ev.name, tuple(vs(a) for a in ev.args))
        elif k == 'throw' and throws:
            return ('t', ev.name)
        return None
    return r


ANY = None


def split_args(s):
    d, o, out = 0, '', []
    for c in s:
        d += (c in '({[') - (c in ')}]')
        if c == ',' and d == 0:
            out.append(o)
            o = ''
        else:
            o += c
    return out + [o]


def ctext(st, a):
    """element texts of a container argument at the time of the call"""
    c = vs(a)
    if c.startswith('makeScope('):
        return tuple(split_args(c[10:-1]))
    c = st.conts.get(c)
    return None if c is None else tuple(vs(x) for x in c[0])


def find(p, kind, name=None, recv=None, args=None, start=0):
    """indices of matching events; name/recv/args: None, string, predicate or (for args) list"""
    def m(pat, x):
        return pat is None or (pat(x) if callable(pat) else pat == x)
    out = []
    for i, t in enumerate(p.trace):
        if i < start or t[0] != kind:
            continue
        if kind == 'c':
            if not m(name, t[1]) or not m(recv, t[2]):
                continue
            if args is not None and (len(t[3]) < len(args) or not all(m(a, x) for a, x in zip(args, t[3]))):
                continue
        elif kind in '+-0=%':
            if not m(recv, t[1]):
                continue
            if args is not None and not any(all(m(a, x) for a, x in zip(args, t[2][o:])) for o in range(max(1, len(t[2]) - len(args) + 1)) if len(t[2][o:]) >= len(args)):
                continue
        elif kind == 'w':
            if not m(recv, t[1]) or not m(name, t[2]):
                continue
        else:
            if not m(recv, t[1]):
                continue
        out.append(i)
    return out


def fin(p, loc):
    """final value text of a location (its own name if never written)"""
    v = p.st.store.get(loc)
    return loc if v is None else vs(v)


def contents(p, cont):
    """element values of a container in the final state, following a re-bound container value"""
    seen = set()
    while cont not in p.st.conts and cont not in seen:
        seen.add(cont)
        v = p.st.store.get(cont)
        if v is None or v[0] not in ('s', 'ref'):
            return None
        cont = v[1]
    c = p.st.conts.get(cont)
    return None if c is None else c[0]


def unchanged(p, loc):
    return fin(p, loc) == loc


def fn_of(ck, q, sub=None, np=None):
    """function by qualified name and (substring of) first parameter types"""
    fs = [f for f in ck.P.byq.get(q, []) if (np is None or len(f['p']) == np) and
          (sub is None or (len(f['p']) >= len(sub) and all(s is None or s in p['t'] for s, p in zip(sub, f['p']))))]
    if len(fs) != 1:
        raise Broken('%s%s: %d candidates' % (q, sub or '', len(fs)))
    return fs[0]


def purging(p):
    return p.facts.get('Entity::isPurging()') is True


def each(p, cont):
    """representative elements of a container on this path (None if never looked at)"""
    c = contents(p, cont)
    return None if c is None else [vs(x) for x in c]


def forward_to_all(p, cont, name, args):
    """exactly one call `name(args)` on each representative element of cont"""
    els = each(p, cont)
    if els is None:
        return 'members of %s are not visited' % cont
    for e in els:
        n = len(find(p, 'c', name, e, args))
        if n != 1:
            return '%s receives %s %d times' % (e, name, n)
    return True


def was(p, atom):
    """value an atom had when it was first decided on the path"""
    for w in p.st.why:
        if w == atom:
            return True
        if w == '!' + atom:
            return False
    return None


def decided(p, sub):
    """values of every decision on the path about an atom containing sub, in order (without repeats of the same atom)"""
    seen = {}
    for w in p.st.why:
        a, v = (w[1:], False) if w.startswith('!') else (w, True)
        if sub in a and not a.startswith('size(') and not a.startswith('*'):
            seen.setdefault(a, v)
    return list(seen.values())


# ---------------------------------------------------------------- call sequences
class Seq:
    """Drives a sequence of calls on one abstract object: states flow from one call into the next."""
    def __init__(self, ck, record, **kw):
        self.ck = ck
        st = kw.pop('st', None)
        self.cls = kw.get('self_cls')
        self.fl = Flow(ck.P, record, **kw)
        s = (st or St()).cp()
        for a, v in self.fl.assume.items():
            if isinstance(v, bool):
                s.facts[a] = v
            else:
                s.store[a] = v
        self.runs = [Path('ret', None, s)]

    def call(self, fn, this='this', args=(), keep=lambda p: True, paths=None):
        """continue every live path with this call; returns the finished ones (all outcomes)"""
        out = []
        fl = self.fl
        for p in (self.runs if paths is None else paths):
            if p.outcome != 'ret':
                continue
            fl.entry = fn
            fl.stack, fl.cur = [], None
            fl.this_cls = fl.self_cls or short(fn.get('cls', '')) or None
            vals = [(args[i] if i < len(args) and args[i] is not None else S('$%d' % i)) for i in range(len(fn['p']))]
            for v, s, oc in fl.call_body(fn, S(this) if isinstance(this, str) else this, vals, p.st.cp(), 0):
                q = Path(oc, v, s)
                if keep(q):
                    out.append(q)
        self.ck.fnset |= fl.visited
        self.ck.paths += len(out)
        if paths is None:
            self.runs = out
        return out

    def ask(self, fn, p, this='this', args=()):
        """boolean answers of a predicate: [(bool, path)]"""
        out = []
        for q in self.call(fn, this, args, paths=[p]):
            if q.outcome != 'ret' or q.val is None:
                continue
            for b, s in self.fl.truth(q.val, q.st):
                out.append((b, Path('ret', None, s)))
        return out

    def mark(self, p, *what):
        s = p.st.cp()
        s.trace = tuple(s.trace) + (('#',) + what,)
        return Path('ret', None, s)


def method(ck, cls, name, np=None):
    """the function a call of cls::name reaches (searching the bases)"""
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        fs = [f for f in ck.P.byq.get(c + '::' + name, []) if np is None or len(f['p']) == np]
        if len(fs) == 1:
            return fs[0]
        if len(fs) > 1:
            raise Broken('%s::%s is ambiguous' % (c, name))
        todo += [short(b) for b in (ck.P.cls.get(c) or {}).get('bases', [])]
    raise Broken('no %s::%s' % (cls, name))


def distinct(*names):
    """assumptions: these names denote different entities, none of them null"""
    a = {'eq(%s,%s)' % (x, y): False for x in names for y in names if x != y}
    a.update({'eq(%s,null)' % x: False for x in names})
    return a
