"""Path-sensitive dataflow over the resolved AST (property simulation).

The abstract state at a program point is
  store  location -> abstract value   (locations are access paths rooted in
                                       `this`, parameters $i, locals, globals)
  facts  atom -> truth value          (branch outcomes on symbolic atoms)
  trace  the recorded rule-relevant events so far (saturating)
Containers are abstracted to at most two representative elements; loops run to
a fixpoint of abstract states (with a trip bound for counters).  No path
condition is ever solved: an atom is undetermined, true or false.
"""
import re
from .ir import short, walk, Broken, rel

K = lambda v: ('k', v)
S = lambda n: ('s', n)
NULL = K(None)
TRUE, FALSE = K(True), K(False)

CONT = re.compile(r'^(const )?(std::(__cxx11::)?(vector|list|set|multiset|map|multimap|deque|unordered_map|unordered_set|queue|stack|priority_queue)|boost::unordered::unordered_(map|set)|__gnu_cxx::hash_(map|set)|std::_Rb_tree)<')
MAPT = re.compile(r'(?:^|::| )(multi|unordered_|hash_)?map<')
ITER = re.compile(r'(_iterator|iterator<|__normal_iterator|_Rb_tree_iterator|_List_iterator)')
LAST = re.compile(r'([A-Za-z_~]\w*|operator.+)$')


class Trunc(Exception):
    pass


class St:
    __slots__ = ('store', 'facts', 'trace', 'conts', 'dead', 'why', '_h')

    def __init__(self, store=None, facts=None, trace=(), conts=None, why=()):
        self.store = store or {}
        self.facts = facts or {}
        self.trace = trace
        self.conts = conts or {}   # container location -> (elems tuple, closed)
        self.why = why
        self._h = None

    def cp(self):
        return St(dict(self.store), dict(self.facts), self.trace, dict(self.conts), self.why)

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.store.items()), frozenset(self.facts.items()), self.trace, frozenset(self.conts.items()))
        return self._h

    def fact(self, a):
        return self.facts.get(a)


class Ev:
    """kind: call/write/new/delete/cins/cdel/cclear/throw"""
    __slots__ = ('kind', 'name', 'recv', 'args', 'line', 'file', 'fn', 'virt', 'node', 'depth')

    def __init__(self, kind, name, recv, args, line, file, fn, virt=False, node=None, depth=0):
        self.kind, self.name, self.recv, self.args = kind, name, recv, args
        self.line, self.file, self.fn, self.virt, self.node, self.depth = line, file, fn, virt, node, depth

    @property
    def m(self):
        return self.name.split('::')[-1]


class Path:
    def __init__(self, outcome, val, st):
        self.outcome, self.val, self.st = outcome, val, st
        self.trace = st.trace
        self.facts = st.facts

    def tags(self):
        return [t[0] for t in self.trace]

    def count(self, tag):
        return sum(1 for t in self.trace if t[0] == tag)

    def idx(self, tag):
        for i, t in enumerate(self.trace):
            if t[0] == tag:
                return i
        return -1

    def why(self):
        return ' ; '.join(self.st.why[-14:])


def vs(v):
    """value -> text"""
    if v is None:
        return '?'
    if v[0] == 'k':
        return 'null' if v[1] is None else repr(v[1]) if isinstance(v[1], str) else str(v[1]).lower() if isinstance(v[1], bool) else str(v[1])
    if v[0] == 's':
        return v[1]
    if v[0] == 'ref':
        return '&' + v[1]
    if v[0] == 'pair':
        return '(%s,%s)' % (vs(v[1]), vs(v[2]))
    if v[0] == 'it':
        return 'it(%s,%s)' % (v[1], v[2] if not isinstance(v[2], tuple) else vs(v[2][1]))
    return str(v)


NUMFLD = re.compile(r'^-?\d+\.m_v$')
def enumval(x, prog):
    """value of an enumeration constant"""
    if isinstance(x, str) and x.startswith('enum:'):
        return prog.enumc.get(x[5:], x)
    return x


NEWOBJ = re.compile(r'^new ((?:\(anonymous namespace\)::)?[\w:]+)@\d+(?:\(|$)')


class Flow:
    MAXSTATES = 6000

    def __init__(self, prog, record, scope=(), opaque=(), inline=None, sizes=(0, 1, 2), assume=None,
                 maythrow=None, self_cls=None, trip=3, maxdepth=7, keep=None, mergeat=600, virt_inline=None,
                 record_all=False, value_of=None, prune=True, cont_init=None, volatile=None, newdisp=False, sat=4, recur=0):
        self.P = prog
        self.record = record            # f(Ev, St, Flow) -> tag tuple/None/list
        self.scope = set(scope)         # class names or file suffixes
        self.grow = 6          # elements followed by name
        self.opaque = opaque            # names never inlined (set or predicate)
        self.inline_pred = inline
        self.sizes = sizes
        self.assume = assume or {}
        self.maythrow = maythrow or (lambda n: False)
        self.self_cls = self_cls
        self.trip = trip
        self.maxdepth = maxdepth
        self.mergeat = mergeat
        self.keep = keep or (lambda a: False)
        self.virt_inline = virt_inline
        self.value_of = value_of
        self.value_ctor = None
        self.stream = None
        self.value_new = None
        self.prune = prune
        self.cont_init = cont_init or {}
        self.newdisp = newdisp          # virtual calls on objects created on the path reach their class's method
        self.sat = sat
        self.recur = recur       # nested activations of one function that are followed
        self.volatile = re.compile(volatile) if volatile else None
        self.nforks = 0
        self.stepped = {}        # iterator stepped to -> iterator stepped from
        self.visited = set()
        self.ncalls = 0
        self.frame = 0
        self.stack = []
        self._rel = {}
        self._mods = {}
        self.this_cls = None

    # ---------------------------------------------------------------- entry
    _ws = 0

    def run(self, fn, this='this', args=None, st=None, kill_dead=True):
        self.entry = fn
        st = st or St()
        st = st.cp()
        for a, v in self.assume.items():
            if isinstance(v, bool):
                st.facts[a] = v
            else:
                st.store[a] = v
        vals = []
        for i, p in enumerate(fn['p']):
            vals.append((args[i] if args and i < len(args) and args[i] is not None else S('$%d' % i)))
        self.this_cls = self.self_cls or short(fn.get('cls', '')) or None
        outs = self.call_body(fn, S(this) if isinstance(this, str) else this, vals, st, 0)
        res = []
        for val, s, oc in outs:
            res.append(Path(oc, val, s))
        return res

    def in_scope(self, f):
        if f['u'] in self.scope_cache:
            return self.scope_cache[f['u']]

    # ------------------------------------------------------------- inlining
    def should_inline(self, f, depth):
        if f is None or depth >= self.maxdepth or self.stack.count(f['u']) > self.recur:
            return False
        q = f['sq']
        if callable(self.opaque):
            if self.opaque(q):
                return False
        elif q in self.opaque:
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(f)
            if r is not None:
                return r
        c = short(f.get('cls', ''))
        if c and c in self.scope:
            return True
        if q.startswith(('EntityIterator<', 'Iterator::')):
            return True     # adapter over a container range
        if any(f['file'].endswith(x) for x in self.scope if x.endswith(('.cc', '.hh'))):
            return True
        if f['file'] == self.entry['file'] and (not c or c == short(self.entry.get('cls', '')) or f.get('fstatic')):
            return True
        # helper in the same translation unit's anonymous namespace
        if '(anonymous' in f['q'] and f['file'] == self.entry['file']:
            return True
        return self.trivial(f)

    def trivial(self, f):
        """single-return accessor (no side effects)"""
        t = f.get('_triv')
        if t is None:
            b = f['body']
            ss = [x for x in b.get('s', []) if x and x['k'] not in ('nop', 'check')] if b['k'] == 'block' else []
            t = len(ss) == 1 and ss[0]['k'] == 'return' and 'e' in ss[0] and self.simple(ss[0]['e']) and not f.get('ctor')
            f['_triv'] = t
        return t

    def const_hook(self, f):
        """virtual method whose default just returns a constant: meant to be overridden (open world)"""
        b = f['body']
        ss = [x for x in b.get('s', []) if x and x['k'] not in ('nop', 'check')] if b['k'] == 'block' else []
        return len(ss) == 1 and ss[0]['k'] == 'return' and 'e' in ss[0] and ss[0]['e']['k'] in ('b', 'i', 'null')

    def simple(self, e, n=0):
        for x in walk(e):
            if x['k'] in ('m', 'this', 'v', 'i', 'b', 'null', 'enum', 'str'):
                continue
            if x['k'] in ('un',) and x['op'] in ('!', '*', '-'):
                continue
            if x['k'] == 'bin' and x['op'] in ('==', '!=', '&&', '||', '<', '>', '<=', '>='):
                continue
            if x['k'] == 'op' and x['op'] in ('->', '*', '==', '!='):
                continue
            if x['k'] == 'call' and (x.get('const') or x.get('static')):
                continue
            if x['k'] == 'ctor' and x.get('cp'):
                continue
            if x['k'] in ('conv', 'cast', 'cond'):
                continue
            return False
        return True

    # --------------------------------------------------------------- states
    def dedupe(self, sts):
        out = {}
        for s in sts:
            out.setdefault(s.key(), s)
        sts = list(out.values())
        if len(sts) > self.mergeat:
            g = {}
            for s in sts:
                k = (frozenset(s.store.items()), s.trace, frozenset(s.conts.items()))
                if k in g:
                    o = g[k]
                    o.facts = {a: v for a, v in o.facts.items() if s.facts.get(a) == v or (self.keep(a) and False)}
                    o._h = None
                else:
                    g[k] = s.cp()
            sts = list(g.values())
        if len(sts) > self.MAXSTATES:
            raise Broken('state explosion in ' + self.entry['sq'])
        return sts

    def emit(self, st, ev):
        t = self.record(ev, st, self)
        if not t:
            return st
        if isinstance(t, list):
            ts = t
        else:
            ts = [t]
        st = st.cp()
        for t in ts:
            if isinstance(t, str):
                t = (t,)
            t = tuple(t)
            # saturate: at most 4 identical tags
            if sum(1 for x in st.trace if x == t) < self.sat:
                st.trace = st.trace + (t,)
        return st

    # --------------------------------------------------------------- values
    def read(self, st, loc):
        v = st.store.get(loc)
        if v is None:
            if loc.endswith(('.first', '.second')):
                b, _, n = loc.rpartition('.')
                p = st.store.get(b)
                if p is not None and p[0] == 'pair':
                    return p[1 if n == 'first' else 2]
            return S(loc)
        return v

    def put(self, st, loc, val):
        if loc.endswith(('.first', '.second')):
            b, _, n = loc.rpartition('.')
            p = st.store.get(b)
            if p is not None and p[0] == 'pair':
                st.store[b] = ('pair', val, p[2]) if n == 'first' else ('pair', p[1], val)
                return
        st.store[loc] = val

    def write(self, st, loc, val, node=None, fn=None):
        st = st.cp()
        self.put(st, loc, val)
        if loc in st.conts:
            del st.conts[loc]
        return st

    def truth(self, v, st, ptr=False):
        """-> list of (bool, st)"""
        if v[0] == 'k':
            return [(bool(v[1]), st)]
        if v[0] in ('ref', 'it', 'pair', 'fnv'):
            return [(True, st)]
        n = v[1]
        if v[0] == 'not':
            return [(not b, s) for b, s in self.truth(n, st)]
        if v[0] == 'cmp':
            return self.compare(v[1], v[2], v[3], st)
        if ptr:
            return [(not b, s) for b, s in self.atom('eq(%s,null)' % n, st)]
        return self.atom(n, st)

    def atom(self, a, st):
        f = st.facts.get(a)
        if f is not None:
            return [(f, st)]
        if a.startswith('eq('):
            f = self.derive_eq(a, st)
            if f is not None:
                return [(f, st)]
        self.nforks += 1
        s1, s2 = st.cp(), st.cp()
        s1.facts[a] = True
        s2.facts[a] = False
        s1.why = st.why + ('%s' % a,)
        s2.why = st.why + ('!%s' % a,)
        return [(True, s1), (False, s2)]

    def derive_eq(self, a, st):
        m = re.match(r'eq\((.*),(null|-?\d+|true|false|[\w:]+#)\)$', a)
        if m:
            x, c = m.groups()
            pre = 'eq(%s,' % x
            for k, v in st.facts.items():
                if v and k.startswith(pre) and k != a and re.match(r'(null|-?\d+|true|false|[\w:]+#)\)$', k[len(pre):]):
                    return False
            if c == 'null':
                if x.startswith('new ') or x.startswith('obj#') or x == 'this':
                    return False
        return None

    def compare(self, op, a, b, st):
        """-> list (bool, st)"""
        if op in ('!=', '>=', '>', '<='):
            if op == '!=':
                return [(not r, s) for r, s in self.compare('==', a, b, st)]
            if op == '>':
                return self.compare('<', b, a, st)
            if op == '>=':
                return [(not r, s) for r, s in self.compare('<', a, b, st)]
            if op == '<=':
                return [(not r, s) for r, s in self.compare('<', b, a, st)]
        # container sizes
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x[0] == 'size' and y[0] == 'k':
                out = []
                for s in self.force(st, x[1]):
                    n = len(s.conts[x[1]][0])
                    l, r = (n, y[1]) if not sw else (y[1], n)
                    out.append(((l == r) if op == '==' else (l < r), s))
                return out
        if a[0] == 'size':
            a = S('size(%s)' % a[1])
        if b[0] == 'size':
            b = S('size(%s)' % b[1])
        if a[0] == 'it' and b[0] == 'it':
            return self.cmp_it(op, a, b, st)
        if a[0] == 'k' and b[0] == 'k':
            try:
                if op == '==':
                    if None in (a[1], b[1]):
                        return [((a[1] or None) == (b[1] or None), st)]
                    return [(a[1] == b[1], st)]
                return [(enumval(a[1], self.P) < enumval(b[1], self.P), st)]
            except TypeError:
                return [(False, st)]
        if op == '==' and a == b:
            return [(True, st)]
        if op == '==' and a[0] == b[0] == 's' and a[1] in st.conts and b[1] in st.conts:
            x, y = st.conts[a[1]], st.conts[b[1]]
            if x[1] and y[1] and all(v[0] == 'k' for v in x[0] + y[0]):
                return [(x[0] == y[0], st)]
        if op == '<' and a == b:
            return [(False, st)]
        # boolean constants
        if op == '==':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'k' and isinstance(y[1], bool) and x[0] in ('s', 'not', 'cmp'):
                    return [((t == y[1]), s) for t, s in self.truth(x, st)]
            if (a == K(0) and b[0] == 's' and b[1].startswith('new ')) or (b == K(0) and a[0] == 's' and a[1].startswith('new ')):
                return [(False, st)]
            if NULL in (a, b):
                o = a if b == NULL else b
                if o[0] in ('ref', 'it', 'pair', 'fnv'):
                    return [(False, st)]
            ta, tb = self.ctext(a), self.ctext(b)
            if a[0] == 'k' or (b[0] != 'k' and tb < ta):
                ta, tb = tb, ta
            return self.atom('eq(%s,%s)' % (ta, tb), st)
        return self.atom('lt(%s,%s)' % (self.ctext(a), self.ctext(b)), st)

    def big_literal(self, e):
        """a comparison of a container's size with a literal above what the representatives can tell apart"""
        for x, y in ((e['x'], e['y']), (e['y'], e['x'])):
            while x['k'] in ('cast', 'conv') and 'e' in x:
                x = x['e']
            if x['k'] == 'i' and x['v'] >= 2 and y['k'] in ('call', 'cast', 'conv'):
                while y['k'] in ('cast', 'conv') and 'e' in y:
                    y = y['e']
                if y['k'] == 'call' and y.get('f', '').startswith('std::') and y['f'].split('::')[-1] in ('size', 'length'):
                    return True
        return False

    def compare_big(self, op, a, b, st):
        if op == '!=':
            return [(not r, s) for r, s in self.compare_big('==', a, b, st)]
        if op == '>':
            return self.compare_big('<', b, a, st)
        if op == '>=':
            return [(not r, s) for r, s in self.compare_big('<', a, b, st)]
        if op == '<=':
            return [(not r, s) for r, s in self.compare_big('<', b, a, st)]
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x[0] == 'size' and y[0] == 'k':
                out = []
                for s in self.force(st, x[1]):
                    r, n, c = len(s.conts[x[1]][0]), y[1], x[1]
                    if not s.facts.get('many(%s)' % c):
                        l, q = (r, n) if not sw else (n, r)
                        out.append(((l == q) if op == '==' else (l < q), s))
                    elif op == '==':
                        out.extend([(False, s)] if n < r else self.atom('eq(more(%s),%d)' % (c, n - r), s))
                    elif not sw:
                        out.extend([(False, s)] if n <= r else self.atom('lt(more(%s),%d)' % (c, n - r), s))
                    else:
                        out.extend([(True, s)] if n < r else self.atom('lt(%d,more(%s))' % (n - r, c), s))
                return out
        return self.compare(op, a, b, st)

    def ctext(self, v):
        if v[0] == 'k' and isinstance(v[1], bool):
            return str(v[1]).lower()
        return vs(v)

    # ----------------------------------------------------------- containers
    def force(self, st, c):
        """fork into states in which container c has exactly-known representative elements"""
        if c in st.conts and st.conts[c][1]:
            return [st]
        have = st.conts.get(c, ((), False))[0]
        out = []
        sizes = self.cont_init.get(c, self.sizes)
        if callable(sizes):
            sizes = sizes(c)
        for n in sizes:
            if n < len(have):
                continue
            s = st.cp()
            el = list(have)
            for i in range(len(have), n):
                el.append(S('%s[%d]' % (c, i)))
            s.conts[c] = (tuple(el), True)
            if len(sizes) > 1:
                s.why = st.why + ('size(%s)=%d' % (c, n),)
                if n >= 2 and n == max(sizes):
                    s.facts['many(%s)' % c] = True      # stands for n or more elements
            out.append(s)
        if not out:
            s = st.cp()
            s.conts[c] = (have, True)
            out = [s]
        self.nforks += len(out) - 1
        return out

    def cmp_it(self, op, a, b, st):
        if a[1] != b[1]:
            return self.atom('eq(%s,%s)' % tuple(sorted((vs(a), vs(b)))), st)
        if op == '<':
            if isinstance(a[2], int) and isinstance(b[2], int):
                return [(a[2] < b[2], st)]
        for i, x, y in ((a, a[2], b[2]), (b, b[2], a[2])):
            if isinstance(y, tuple) and y[0] == 'past' and op == '==':
                # behind the last entry with this key
                if isinstance(x, tuple) and x[0] == 'past':
                    return [(x == y, st)]
                if x == 'end':
                    return [(True, st)]
                if isinstance(x, tuple) and not (x[1][0] == 's' and x[1][1] in self.stepped):
                    return [(False, st)]
                out = []
                for at, s in self.cmp_it('==', i, ('it', i[1], 'end'), st):
                    if at:
                        out.append((True, s))
                        continue
                    el = self.elem(s, i)
                    k = el[1] if el[0] == 'pair' else S('%s.first' % vs(el)) if y[2] else el
                    for r, s2 in self.compare('==', k, y[1], s):
                        out.append((not r, s2))
                return out
        for x, y in ((a[2], b[2]), (b[2], a[2])):
            if y == 'end' and x == 'end':
                return [(op == '==', st)]
            if y == 'end' and isinstance(x, tuple) and op == '==':
                # an iterator obtained by a successful lookup designates an element
                if x[1][0] == 's' and x[1][1] in self.stepped:
                    return self.atom('eq(%s,%s)' % (vs(a), vs(b)), st)
                return [(False, st)]
        out = []
        for s in self.force(st, a[1]):
            n = len(s.conts[a[1]][0])

            def norm(i):
                if i == 'end':
                    return n
                return i
            x, y = norm(a[2]), norm(b[2])
            if isinstance(x, tuple) or isinstance(y, tuple):
                if x == y:
                    out.append((True, s))
                elif n in (x, y):
                    out.append((False, s))
                else:
                    out.extend(self.atom('eq(%s,%s)' % (vs(a), vs(b)), s))
            elif op == '<':
                out.append((x < y, s))
            else:
                out.append((x == y, s))
        return out

    def elem(self, st, it):
        """value an iterator designates (elements that are locations come back as symbols)"""
        c, p = it[1], it[2]
        if isinstance(p, tuple):
            v = p[2] if len(p) > 2 else p[1]
            if v[0] == 'pair' and v[2][0] == 'k':       # the number kept now
                now = [x for x in st.conts.get(c, ((), False))[0] if x[0] == 'pair' and x[1] == v[1]]
                return now[0] if len(now) == 1 else v
            return v
        el = st.conts.get(c, ((), False))[0]
        if p == 'end':
            return S('%s[end]' % c)
        if isinstance(p, int):
            if p < 0:
                p += len(el)
            if 0 <= p < len(el):
                return el[p]
        return S('%s[%s]' % (c, p))

    # ------------------------------------------------------------ functions
    def call_body(self, fn, this, vals, st, depth):
        """-> list of (retval, st, outcome) ; outcome in ret/throw"""
        self.visited.add(fn['u'])
        self.frame += 1
        fr = self.frame
        saved = getattr(self, 'cur', None)
        self.cur = (fr, this, fn, depth)
        self.stack.append(fn['u'])
        st = st.cp()
        pre = 'L%d:' % len(self.stack)
        for i, p in enumerate(fn['p']):
            st.store['%s%d' % (pre, p['i'])] = vals[i] if i < len(vals) else S('$default')
        outs = []
        sts = [st]
        if fn.get('ctor'):
            for ini in fn.get('inits', []):
                nxt = []
                for s in sts:
                    if 'm' in ini:
                        loc = '%s.%s' % (self.objname(this), LAST.search(short(ini['m'])).group(1))
                        e = ini['e']
                        if CONT.match(ini.get('t', '')):
                            s = s.cp()
                            if e['k'] == 'ctor' and not e['a']:
                                s.conts[loc] = ((), True)
                                nxt.append(s)
                            else:
                                if e['k'] == 'ctor' and e.get('cp') and e['a']:
                                    for c, s2 in self.lvobj(e['a'][0], s):
                                        for s3 in self.force(s2, c):
                                            s4 = s3.cp()
                                            s4.conts[loc] = s3.conts[c]
                                            nxt.append(s4)
                                    continue
                                for v, s2 in self.ev(e, s):
                                    nxt.append(s2)
                            continue
                        for v, s2 in self.ev(e, s):
                            s2 = s2.cp()
                            s2.store[loc] = v
                            s2 = self.emit(s2, Ev('write', short(ini['m']), self.objname(this), (v,), ini['l'], fn['file'], fn['sq'], depth=depth))
                            nxt.append(s2)
                    else:
                        e = ini['e']
                        if e['k'] == 'ctor':
                            f = self.P.fns.get(e['u'])
                            for vs_, s2 in self.evs(e['a'], s, f):
                                if f and self.should_inline(f, depth):
                                    for rv, s3, oc in self.call_body(f, this, vs_, s2, depth + 1):
                                        if oc == 'ret':
                                            nxt.append(s3)
                                        else:
                                            outs.append((rv, s3, oc))
                                else:
                                    s2 = self.emit(s2, Ev('call', short(e['f']), self.objname(this), tuple(vs_), e.get('l'), fn['file'], fn['sq'], depth=depth))
                                    nxt.append(s2)
                        else:
                            nxt.append(s)
                sts = self.dedupe(nxt)
        for s in sts:
            for oc, v, s2 in self.ex(fn['body'], s):
                if oc in ('norm', 'ret'):
                    outs.append((v if oc == 'ret' else None, s2, 'ret'))
                elif oc == 'throw':
                    outs.append((v, s2, 'throw'))
                else:
                    outs.append((None, s2, 'ret'))
        # drop the frame's locals
        clean = {}
        for v, s, oc in outs:
            # returned local object reference -> value
            if v is not None and v[0] == 'ref' and v[1].startswith(pre):
                v = self.read(s, v[1])
            ks = [k for k in s.store if k.startswith(pre)]
            if ks:
                s = s.cp()
                for k in ks:
                    del s.store[k]
            cs = [k for k in s.conts if k.startswith(pre)]
            if cs:
                s = s.cp()
                keepc = v[1] if (v is not None and v[0] in ('s',) and v[1] in cs) else None
                for k in cs:
                    c = s.conts.pop(k)
                    if k == keepc:
                        nm = 'ret:' + k
                        s.conts[nm] = c
                        v = S(nm)
            clean.setdefault((v, s.key(), oc), (v, s, oc))
        self.stack.pop()
        self.cur = saved
        return list(clean.values())

    def objname(self, v):
        if v is None:
            return '?'
        if v[0] == 's':
            return v[1]
        if v[0] == 'ref':
            return v[1]
        return vs(v)

    def lid(self, i):
        return 'L%d:%d' % (len(self.stack), i)

    # ---------------------------------------------------------- expressions
    def evs(self, es, st, f=None, mut=None):
        """evaluate argument list; reference parameters are bound to locations"""
        res = [([], st)]
        for i, e in enumerate(es):
            byref = False
            if f is not None and i < len(f['p']):
                t = f['p'][i]['t']
                byref = t.rstrip().endswith('&')
            nxt = []
            for vals, s in res:
                if byref:
                    for v, s2 in self.refval(e, s):
                        nxt.append((vals + [v], s2))
                else:
                    for v, s2 in self.ev(e, s):
                        nxt.append((vals + [v], s2))
            res = nxt
        return res

    def refval(self, e, st):
        """value for binding a reference: ('ref', loc) for scalar-like lvalues, else the value"""
        k = e['k']
        if k in ('v', 'm', 'idx') or (k == 'op' and e['op'] in ('*', '[]')) or (k == 'un' and e['op'] == '*') or (k == 'call' and e.get('t', '').endswith('&')):
            out = []
            for l, s in self.lv(e, st):
                if l[0] == 'loc':
                    cur = s.store.get(l[1])
                    if cur is not None and cur[0] == 'ref':
                        out.append((cur, s))
                    else:
                        out.append((('ref', l[1]), s))
                else:
                    out.append((l[1], s))
            return out
        return self.ev(e, st)

    def deref(self, v, st):
        n = 0
        while v is not None and v[0] == 'ref' and n < 6:
            v = self.read(st, v[1])
            n += 1
        return v

    def lv(self, e, st):
        """-> list of (('loc',name)|('val',v), st)"""
        k = e['k']
        if k == 'v':
            if e['d'] in ('l', 'p', 's', 'o'):
                loc = self.lid(e['i'])
                v = st.store.get(loc)
                if v is None and e['d'] == 's':
                    loc = 'static:%s:%s' % (self.cur[2]['sq'], e['n'])
                    v = st.store.get(loc)
                if v is not None and v[0] == 'ref':
                    return [(('loc', v[1]), st)]
                return [(('loc', loc), st)]
            if e['d'] == 'g' and short(e['n']) in self.P.consts:
                return [(('val', K(self.P.consts[short(e['n'])])), st)]
            return [(('loc', short(e['n'])), st)]
        if k == 'this':
            return [(('val', self.cur[1]), st)]
        if k == 'm':
            out = []
            nm = LAST.search(short(e['n'])).group(1)
            for b, s in self.objof(e['b'], st):
                if b[0] == 'pair' and nm in ('first', 'second'):
                    lb = self.lv(e['b'], st) if e['b']['k'] == 'v' else ()
                    if len(lb) == 1 and lb[0][0][0] == 'loc' and st.store.get(lb[0][0][1]) == b:
                        out.append((('loc', '%s.%s' % (lb[0][0][1], nm)), s))
                    else:
                        at = self.entry_at(e['b'], b, s) if nm == 'second' and b[2][0] == 'k' else None
                        out.append((('val', b[2], at) if at else ('val', b[1] if nm == 'first' else b[2]), s))
                else:
                    if b[0] == 'k' and b[1] is None:
                        out.append((('loc', 'null.%s' % nm), s))
                    else:
                        out.append((('loc', '%s.%s' % (self.objname(b), nm)), s))
            return out
        if k == 'un' and e['op'] == '*':
            p = e['e']
            if p['k'] == 'v' and p['d'] in ('l', 'p') and p.get('t', '').replace(' ', '').endswith('**'):
                v = st.store.get(self.lid(p['i']))
                if v is not None and v[0] == 'ref':       # address of a pointer variable
                    return [(('loc', v[1]), st)]
            out = []
            for v, s in self.ev(e['e'], st):
                if v[0] == 'ref':
                    out.append((('loc', v[1]), s))
                elif v[0] == 'it':
                    out.append((self.elem_l(s, v), s))
                else:
                    out.append((('val', v), s))
            return out
        if k == 'op' and e['op'] in ('*', '->') and len(e['a']) == 1:
            out = []
            for v, s in self.ev(e['a'][0], st):
                v = self.deref(v, s) if v[0] == 'ref' and False else v
                if v[0] == 'it':
                    out.append((self.elem_l(s, v), s))
                elif v[0] == 'ref':
                    out.append((('loc', v[1]), s))
                else:
                    out.append((('val', v), s))
            return out
        if k in ('idx',) or (k == 'op' and e['op'] == '[]'):
            b, i = (e['x'], e['y']) if k == 'idx' else (e['a'][0], e['a'][1])
            out = []
            for bl, s in self.lvobj(b, st):
                for iv, s2 in self.ev(i, s):
                    iv = self.deref(iv, s2)
                    if iv[0] == 'k' and isinstance(iv[1], int) and not isinstance(iv[1], bool) and not MAPT.search(b.get('t', '') or ''):
                        for s3 in (self.force(s2, bl) if k == 'op' else [s2]):
                            el = s3.conts.get(bl, ((), False))[0]
                            if 0 <= iv[1] < len(el):
                                v = el[iv[1]]
                                out.append(((('loc', v[1]) if v[0] == 's' and v[1].startswith(bl) else ('val', v, (bl, iv[1]))), s3))
                            else:
                                out.append((('loc', '%s[%s]' % (bl, vs(iv))), s3))
                    else:
                        if k == 'op' and MAPT.search(b.get('t', '') or e.get('f', '')):
                            lo = '%s{%s}' % (bl, vs(iv))
                            if lo not in s2.store and s2.conts.get(bl) == ((), True) and '*' in (e.get('t') or '') and s2.facts.get('in(%s,%s)' % (vs(iv), bl)) is not True \
                                    and all(self.differ(iv, S(x[len(bl) + 1:-1]), s2) for x in s2.store if x.startswith(bl + '{') and x.endswith('}')):
                                s2 = s2.cp()
                                s2.store[lo] = NULL     # the entry operator[] makes in a map known to be empty
                            s2 = self.emit(s2, Ev('cidx', bl, bl, (iv,), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                        out.append((('loc', '%s{%s}' % (bl, vs(iv))), s2))
            return out
        if k == 'cast':
            return self.lv(e['e'], st) if e['ck'] != 'dynamic' else [(('val', v), s) for v, s in self.ev(e, st)]
        if k == 'bin' and e['op'] in ('=', '+=', '-=', '*=', '/=', '|=', '&='):
            out = []
            for v, s in self.ev(e, st):
                for l, s2 in self.lv(e['x'], s):
                    out.append((l, s2))
            return out
        if k == 'cond':
            out = []
            for b, s in self.cond(e['c'], st):
                out.extend(self.lv(e['x'] if b else e['y'], s))
            return out
        if k == 'un' and e['op'] in ('++', '--'):
            out = []
            for v, s in self.ev(e, st):
                out.extend(self.lv(e['e'], s))
            return out
        return [(('loc', v[1]) if v[0] == 'ref' else ('val', v), s) for v, s in self.ev(e, st)]

    def entry_at(self, e, b, st):
        """the place of a map entry (with a known number) that an iterator designates"""
        if e['k'] not in ('op', 'un') or e['op'] not in ('->', '*'):
            return None
        its = self.ev(e['a'][0] if e['k'] == 'op' else e['e'], st)
        it = self.deref(its[0][0], st) if len(its) == 1 else None
        if it is None or it[0] != 'it':
            return None
        el = st.conts.get(it[1], ((), False))[0]
        i = [i for i, x in enumerate(el) if x[0] == 'pair' and x[1] == b[1]]
        return (it[1], i[0], 'second') if len(i) == 1 else None

    def elem_l(self, st, it):
        v = self.elem(st, it)
        if v[0] == 's' and v[1].startswith(it[1]):
            return ('loc', v[1])
        if isinstance(it[2], int) and it[1] in st.conts and 0 <= it[2] < len(st.conts[it[1]][0]):
            return ('val', v, (it[1], it[2]))
        return ('val', v)

    def lvobj(self, e, st):
        """location name of an object-valued expression (containers etc.)"""
        out = []
        for l, s in self.lv(e, st):
            if l[0] == 'loc':
                v = s.store.get(l[1])
                if v is not None and v[0] == 's':
                    out.append((v[1], s))
                elif v is not None and v[0] == 'ref':
                    out.append((v[1], s))
                else:
                    out.append((l[1], s))
            else:
                out.append((self.objname(l[1]), s))
        return out

    def objof(self, e, st):
        """object identity value for member access / receiver"""
        out = []
        for l, s in self.lv(e, st):
            if l[0] == 'loc':
                v = self.read(s, l[1])
                v = self.deref(v, s)
                if v[0] == 'it':
                    ll = self.elem_l(s, v)
                    v = self.deref(self.read(s, ll[1]), s) if ll[0] == 'loc' else ll[1]
                out.append((v, s))
            else:
                v = l[1]
                if v[0] == 'it':
                    ll = self.elem_l(s, v)
                    v = self.deref(self.read(s, ll[1]), s) if ll[0] == 'loc' else ll[1]
                out.append((v, s))
        return out

    def cond(self, e, st):
        """-> list (bool, st)"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(not b, s) for b, s in self.cond(e['e'], st)]
        if k == 'bin' and e['op'] == '&&':
            out = []
            for b, s in self.cond(e['x'], st):
                out.extend(self.cond(e['y'], s) if b else [(False, s)])
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for b, s in self.cond(e['x'], st):
                out.extend([(True, s)] if b else self.cond(e['y'], s))
            return out
        if k == 'bin' and e['op'] == ',':
            out = []
            for v, s in self.ev(e['x'], st):
                out.extend(self.cond(e['y'], s))
            return out
        out = []
        ptr = self.is_ptr(e)
        for v, s in self.ev(e, st):
            v = self.deref(v, s)
            if v[0] == 'size':
                out.extend(self.compare('!=', v, K(0), s))
            else:
                out.extend(self.truth(v, s, ptr))
        return out

    def is_ptr(self, e):
        t = e.get('t', '') or ''
        return t.rstrip().endswith('*') or t.endswith('*const') or (e['k'] == 'cast' and e.get('t', '').endswith('*'))

    def ev(self, e, st):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(S('?' + k), st)]
        return m(e, st)

    def e_this(self, e, st):
        return [(self.cur[1], st)]

    def e_i(self, e, st):
        return [(K(e['v']), st)]
    e_b = e_i
    e_str = e_i

    def e_fl(self, e, st):
        try:
            f = float(e['v'])
            return [(K(int(f) if f == int(f) else f), st)]
        except (ValueError, OverflowError):
            return [(S(e['v']), st)]

    def e_null(self, e, st):
        return [(NULL, st)]

    def e_none(self, e, st):
        return [(S('?'), st)]

    def e_enum(self, e, st):
        return [(K('enum:' + short(e['n'])), st)]

    def e_v(self, e, st):
        if e['n'].endswith('::npos'):
            return [(self.NPOS, st)]
        if e['d'] == 'g' and short(e['n']) in ('PLUS_INFINITY', 'MINUS_INFINITY'):
            return [(S(short(e['n'])), st)]
        out = []
        for l, s in self.lv(e, st):
            v = self.read(s, l[1]) if l[0] == 'loc' else l[1]
            out.append((self.deref(v, s), s))
        return out

    def e_m(self, e, st):
        out = []
        for l, s in self.lv(e, st):
            v = self.deref(self.read(s, l[1]) if l[0] == 'loc' else l[1], s)
            if v[0] == 's' and NUMFLD.match(v[1]):
                v = K(int(v[1][:-4]))       # the representation of a number object holding a constant
            out.append((v, s))
        return out

    e_idx = e_m

    def e_fn(self, e, st):
        return [(('fnv', e['u']), st)]

    def e_mfn(self, e, st):
        return [(('fnv', e['u']), st)]

    def e_sexpr(self, e, st):
        return [(S('?'), s) for oc, v, s in self.ex(e['s'], st)]

    def e_lambda(self, e, st):
        return [(('lam', id(e), len(self.stack)), self.reg_lam(e, st))]

    def reg_lam(self, e, st):
        self.lams = getattr(self, 'lams', {})
        self.lams[id(e)] = e
        return st

    def e_typeid(self, e, st):
        return [(S('typeid(%s)' % short(e.get('t', '?'))), st)]

    def e_conv(self, e, st):
        # user conversions are identity on the abstraction (Id -> pointer, eint -> int ...)
        f = self.P.fns.get(e['u'])
        out = []
        for v, s in self.objof(e['o'], st):
            if v[0] == 'k' and isinstance(v[1], float) and e['t'].rsplit('::')[-1] in ('eint', 'int', 'long', 'basis_type') and v[1] == v[1] and abs(v[1]) != float('inf'):
                v = K(int(v[1]))
            out.append((v, s))
        return out

    def e_cast(self, e, st):
        out = []
        for v, s in self.ev(e['e'], st):
            if e['ck'] == 'dynamic' and e['t'].rstrip().endswith('*') and v[0] == 's':
                t = short(e['t']).replace('const ', '').rstrip('* ')
                for b, s2 in self.atom('isa<%s>(%s)' % (t, v[1]), s):
                    out.append((v if b else NULL, s2))
            elif e['t'] == 'bool' and v[0] not in ('k',):
                out.append((v, s))
            else:
                out.append((v, s))
        return out

    def e_throw(self, e, st):
        # handled by ex(expr); nested throw in a conditional expression is rare
        self.pending = e
        raise ThrowExpr(e)

    def e_ilist(self, e, st):
        return [(S('{%s}' % ','.join(vs(v) for v in vals)), s) for vals, s in self.evs(e['a'], st)]

    def e_other(self, e, st):
        if e.get('a'):
            return [(S('%s(%s)' % (e['n'], ','.join(vs(v) for v in vals))), s) for vals, s in self.evs(e['a'], st)]
        return [(S('?' + e['n']), st)]

    def e_cond(self, e, st):
        out = []
        for b, s in self.cond(e['c'], st):
            out.extend(self.ev(e['x'] if b else e['y'], s))
        return out

    def e_un(self, e, st):
        op = e['op']
        if op == '!':
            return [(K(not b), s) for b, s in self.cond(e['e'], st)]
        if op == '*':
            out = []
            for l, s in self.lv(e, st):
                v = self.read(s, l[1]) if l[0] == 'loc' else l[1]
                out.append((self.deref(v, s), s))
            return out
        if op == '&':
            out = []
            for l, s in self.lv(e['e'], st):
                if l[0] == 'loc':
                    cur = s.store.get(l[1])
                    out.append((('ref', l[1]) if self.scalar(e['e']) else (cur if cur is not None and cur[0] in ('s',) else S(l[1])), s))
                else:
                    out.append((l[1], s))
            return out
        if op in ('++', '--', 'p++', 'p--'):
            out = []
            d = 1 if '+' in op else -1
            for l, s in self.lv(e['e'], st):
                v = self.deref(self.read(s, l[1]), s) if l[0] == 'loc' else l[1]
                nv = self.ended(self.bump(v, d), s)
                if l[0] == 'loc':
                    s = s.cp()
                    self.put(s, l[1], nv)
                    s = self.wev(s, l[1], nv, e, op=op[-2:])
                elif len(l) > 2:
                    s = self.elset(s, l[2], nv, e)
                out.append((v if op[0] == 'p' else nv, s))
            return out
        if op == '+':
            return self.ev(e['e'], st)
        if op == '-':
            return [((K(-v[1]) if v[0] == 'k' and isinstance(v[1], (int, float)) else S('-(%s)' % vs(v))), s) for v, s in self.ev(e['e'], st)]
        return [(S('%s%s' % (op, vs(v))), s) for v, s in self.ev(e['e'], st)]

    def scalar(self, e):
        t = e.get('t', '')
        return t in ('int', 'bool', 'unsigned int', 'double', 'long', 'unsigned long', 'float') or t.endswith('*')

    def bump(self, v, d):
        if v[0] == 'k' and isinstance(v[1], int) and not isinstance(v[1], bool):
            return K(v[1] + d)
        if v[0] == 'it':
            if isinstance(v[2], int):
                return ('it', v[1], v[2] + d)
            if v[2] == 'end' and d < 0:
                return ('it', v[1], -1)
            w, o = ('next', 'prev') if d > 0 else ('prev', 'next')
            if isinstance(v[2], tuple) and vs(v[2][1]).startswith(o + '(it('):
                back = self.stepped.get(vs(v[2][1]))
                if back is not None:
                    return back
            nm = '%s(%s)' % (w, vs(v))
            self.stepped[nm] = v
            return ('it', v[1], ('key', S(nm)))
        if v[0] == 's':
            m = re.match(r'(.*)([+-])(\d+)$', v[1])
            if m:
                n = int(m.group(2) + m.group(3)) + d
                if n == 0:
                    return S(m.group(1))
                if abs(n) > 3:
                    return S('many(%s)' % m.group(1))
                return S('%s%+d' % (m.group(1), n))
            if v[1].startswith('many('):
                return v
            return S('%s%+d' % (v[1], d))
        return S('?bump')

    def wev(self, st, loc, val, node, op='='):
        if loc.startswith('L') and ':' in loc.split('.')[0] and '.' not in loc:
            return st
        obj, _, fld = loc.rpartition('.')
        m = re.match(r'^([^{}]*)\{(.*)\}$', loc)
        if m and op == '=' and '}' not in m.group(2):
            # m[k] = v enters v under k
            st = st.cp()
            st.facts['in(%s,%s)' % (m.group(2), m.group(1))] = True
            st = self.emit(st, Ev('cins', m.group(1).rpartition('.')[2], m.group(1), (('pair', S(m.group(2)), val),), node.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=node, depth=self.cur[3]))
        return self.emit(st, Ev('write', self.fieldname(node, fld), obj, (val, op), node.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=node, depth=self.cur[3]))

    def fieldname(self, node, fld):
        return fld

    def e_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(K(b), s) for b, s in self.cond(e, st)]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            big = self.big_literal(e)
            if big:
                self._ws += 1
                try:
                    both = [(a, b, s2) for a, s in self.ev(e['x'], st) for b, s2 in self.ev(e['y'], s)]
                finally:
                    self._ws -= 1
                for a, b, s in both:
                    out.extend((K(r), s3) for r, s3 in self.compare_big(op, self.deref(a, s), self.deref(b, s), s))
                return out
            for a, s in self.ev(e['x'], st):
                for b, s2 in self.ev(e['y'], s):
                    a2, b2 = self.deref(a, s2), self.deref(b, s2)
                    if e['x']['k'] != 'null' and e['y']['k'] == 'i' and e['y']['v'] == 0 and self.is_ptr(e['x']):
                        b2 = NULL
                    out.extend((K(r), s3) for r, s3 in self.compare(op, a2, b2, s2))
            return out
        if op == ',':
            out = []
            for a, s in self.ev(e['x'], st):
                out.extend(self.ev(e['y'], s))
            return out
        if op == '=':
            out = []
            for v, s in self.ev(e['y'], st):
                for l, s2 in self.lv(e['x'], s):
                    if l[0] == 'loc':
                        s3 = self.write(s2, l[1], v)
                        s3 = self.wev(s3, l[1], v, e)
                        out.append((v, s3))
                    elif len(l) > 2:
                        out.append((v, self.elset(s2, l[2], v, e)))
                    else:
                        out.append((v, s2))
            return out
        if op.endswith('=') and op not in ('==',):
            out = []
            for v, s in self.ev(e['y'], st):
                for l, s2 in self.lv(e['x'], s):
                    if l[0] == 'loc':
                        cur = self.deref(self.read(s2, l[1]), s2)
                        nv = self.arith(op[:-1], cur, v)
                        s3 = self.write(s2, l[1], nv)
                        s3 = self.wev(s3, l[1], nv, e, op=op)
                        out.append((nv, s3))
                    elif len(l) > 2:
                        nv = self.arith(op[:-1], self.deref(l[1], s2), self.deref(v, s2))
                        out.append((nv, self.elset(s2, l[2], nv, e)))
                    else:
                        out.append((v, s2))
            return out
        out = []
        for a, s in self.ev(e['x'], st):
            for b, s2 in self.ev(e['y'], s):
                out.append((self.arith(op, a, b), s2))
        return out

    def arith(self, op, a, b):
        if op == '+' and a[0] == b[0] == 'k' and isinstance(a[1], str) and isinstance(b[1], str) and not a[1].startswith('enum:') and not b[1].startswith('enum:'):
            return K(a[1] + b[1])
        if a[0] == 'k' and b[0] == 'k' and all(isinstance(x[1], (int, float)) for x in (a, b)):
            try:
                if op == '+':
                    return K(a[1] + b[1] if a[1] != -b[1] else 0)
                if op == '-':
                    return K(0 if a[1] == b[1] else a[1] - b[1])
                if op == '*':
                    return K(a[1] * b[1] if a[1] and b[1] else 0)
                if op == '/' and b[1] and isinstance(a[1] * b[1], float):
                    return K(a[1] / b[1])
                if op in '/%' and isinstance(a[1], int) and isinstance(b[1], int) and b[1] and not isinstance(a[1], bool):
                    d = abs(a[1]) // abs(b[1]) * (1 if (a[1] < 0) == (b[1] < 0) else -1)
                    return K(d if op == '/' else a[1] - d * b[1])
                if op in ('|', '&') and isinstance(a[1], bool):
                    return K(a[1] | b[1] if op == '|' else a[1] & b[1])
            except Exception:
                pass
        if a[0] == 's' and b[0] == 'k' and op in '+-' and isinstance(b[1], int):
            return self.bump(a, b[1] if op == '+' else -b[1])
        t = '(%s%s%s)' % (vs(a), op, vs(b))
        if len(t) > 160:
            t = '(big)'
        return S(t)

    def e_new(self, e, st):
        t = short(e['t'])
        out = []
        if 'e' in e and e['e']['k'] == 'ctor':
            c = e['e']
            f = self.P.fns.get(c['u'])
            for vals, s in self.evs(c['a'], st, f):
                nm = 'new %s@%s(%s)' % (t, e['l'], ','.join(vs(self.deref(v, s)) for v in vals))
                if len(nm) > 200:
                    nm = nm[:200]
                s = self.emit(s, Ev('new', t, nm, tuple(self.deref(v, s) for v in vals), e['l'], self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                if self.maythrow('new ' + t):
                    raise Broken('maythrow new')
                r = self.value_new and self.value_new(Ev('new', t, nm, tuple(self.deref(v, s) for v in vals), e['l'], self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]), s, self)
                if r:
                    out.extend(r)
                    continue
                if f and self.inline_pred is not None and self.inline_pred(f) and self.should_inline(f, self.cur[3]):
                    for rv, s2, oc in self.call_body(f, S(nm), vals, s, self.cur[3] + 1):
                        if oc == 'ret':
                            out.append((S(nm), s2))
                        else:
                            self.throws.append((rv, s2))
                else:
                    out.append((S(nm), s))
            return out
        if 'e' in e:
            for v, s in self.ev(e['e'], st):
                out.append((S('new %s@%s(%s)' % (t, e['l'], vs(v))), s))
            return out
        s = self.emit(st, Ev('new', t, 'new %s@%s' % (t, e['l']), (), e['l'], self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
        return [(S('new %s@%s' % (t, e['l'])), s)]

    def e_delete(self, e, st):
        out = []
        for v, s in self.ev(e['e'], st):
            v = self.deref(v, s)
            s = self.emit(s, Ev('delete', short(e['t']), self.objname(v), (v,), e['l'], self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
            out.append((NULL, s))
        return out

    def e_ctor(self, e, st):
        t = short(e['t']).replace('const ', '')
        a = e['a']
        if t.startswith('Id<'):
            if not a:
                return [(NULL, st)]
            return [(self.deref(v, s), s) for v, s in self.ev(a[0], st)]
        if CONT.match(e['t']):
            out = []
            nm = 'C%s@%s' % (len(self.stack), e.get('l'))
            if not a or (len(a) == 1 and not e.get('cp') and a[0]['k'] == 'ctor' and 'allocator' in a[0].get('t', '')):
                s = st.cp()
                s.conts[nm] = ((), True)
                return [(S(nm), s)]
            if e.get('cp'):
                for c, s in self.lvobj(a[0], st):
                    if c in s.conts or not c.startswith('?'):
                        for s2 in self.force(s, c):
                            s3 = s2.cp()
                            s3.conts[nm] = s2.conts[c]
                            out.append((S(nm), s3))
                return out
            if len(a) in (1, 2) and a[0]['k'] == 'ilist':
                for vals, s in self.evs(a[0]['a'], st):
                    s = s.cp()
                    s.conts[nm] = (tuple(self.deref(v, s) for v in vals), True)
                    out.append((S(nm), s))
                return out
            for vals, s in self.evs(a, st):
                if len(vals) >= 2 and vals[0][0] == 'it' and vals[1][0] == 'it' and vals[0][1] == vals[1][1]:
                    for s2 in self.force(s, vals[0][1]):
                        s3 = s2.cp()
                        s3.conts[nm] = s2.conts[vals[0][1]]
                        out.append((S(nm), s3))
                else:
                    out.append((S('%s(%s)' % (nm, ','.join(vs(v) for v in vals))), s))
            return out
        if e.get('cp') and a:
            return [(self.deref(v, s), s) for v, s in self.ev(a[0], st)]
        if t.startswith('std::pair<') and len(a) == 2:
            return [(('pair', self.deref(v[0], s), self.deref(v[1], s)), s) for v, s in self.evs(a, st)]
        if t.startswith('std::pair<') and len(a) == 1:
            return [(self.deref(v, s), s) for v, s in self.ev(a[0], st)]
        if ITER.search(t) and len(a) == 1:
            return self.ev(a[0], st)
        if len(a) == 1 and (t.startswith('std::basic_string') or t in ('LabelStr', 'std::string', 'Number', 'eint', 'edouble')):
            return [(self.deref(v, s), s) for v, s in self.ev(a[0], st)]
        if t.startswith('std::basic_string') and len(a) == 2 and a[0]['k'] == 'str':
            return [(K(a[0]['v']), st)]
        if t.startswith('std::basic_string') and len(a) == 2 and 'allocator' in a[1].get('t', ''):
            return [(self.deref(v, s), s) for v, s in self.ev(a[0], st)]
        if t.startswith('std::basic_string') and not a and not (self.stream and 'stream' in t):
            return [(K(''), st)]
        f = self.P.fns.get(e['u'])
        out = []
        for vals, s in self.evs(a, st, f):
            dv = tuple(self.deref(v, s) for v in vals)
            nm = '%s(%s)' % (t, ','.join(vs(v) for v in dv))
            if len(nm) > 200:
                nm = nm[:200]
            s = self.emit(s, Ev('ctor', t, nm, dv, e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
            if self.value_ctor:
                r = self.value_ctor(Ev('ctor', t, nm, dv, e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]), s, self)
                if r:
                    out.extend(r)
                    continue
            if f and self.inline_pred is not None and self.inline_pred(f) is True and self.should_inline(f, self.cur[3]):
                nm = 'new %s@%s(%s)' % (t, e.get('l'), ','.join(vs(v) for v in dv))
                for rv, s2, oc in self.call_body(f, S(nm), vals, s, self.cur[3] + 1):
                    if oc == 'ret':
                        out.append((S(nm), s2))
                    else:
                        self.throws.append((rv, s2))
                continue
            out.append((S(nm), s))
        return out

    # ---------------------------------------------------------------- calls
    def e_op(self, e, st):
        op = e['op']
        a = e['a']
        if op == '->' or (op == '*' and len(a) == 1):
            out = []
            for l, s in self.lv(e, st):
                v = self.read(s, l[1]) if l[0] == 'loc' else l[1]
                out.append((self.deref(v, s), s))
            return out
        if op in ('==', '!=', '<', '>', '<=', '>='):
            out = []
            for x, s in self.ev(a[0], st):
                for y, s2 in self.ev(a[1], s):
                    x2, y2 = self.deref(x, s2), self.deref(y, s2)
                    if op in ('==', '!=') and x2[0] == y2[0] == 's' and x2 != y2 and CONT.match((a[0].get('t') or '').replace('const ', '')):
                        r = self.same_contents(x2[1], y2[1], s2)
                        if r is not None:
                            out.append((K(r == (op == '==')), s2))
                            continue
                    tgt = self.obj_operator(e, x2, s2)
                    if tgt is not None:
                        for r, s3, oc in self.call_body(tgt, x2, [y2], s2, self.cur[3] + 1):
                            if oc == 'throw':
                                self.throws.append((r, s3))
                            else:
                                out.append((r, s3))
                        continue
                    out.extend((K(r), s3) for r, s3 in self.compare(op, x2, y2, s2))
            return out
        if op in ('++', '--'):
            post = len(a) > 1
            return self.e_un({'op': ('p' if post else '') + op, 'e': a[0], 'l': e.get('l')}, st)
        if op == '[]':
            out = []
            for l, s in self.lv(e, st):
                v = self.read(s, l[1]) if l[0] == 'loc' else l[1]
                out.append((self.deref(v, s), s))
            return out
        if op == '=':
            t = (a[0].get('t') or '')
            f = self.P.fns.get(e.get('u'))
            out = []
            if CONT.match(e.get('f', '').rsplit('::operator', 1)[0] + '<') or 'std::' in e.get('f', '')[:5] and CONT.match(e.get('f', '')):
                for src, s in self.lvobj(a[1], st):
                    for dst, s2 in self.lvobj(a[0], s):
                        for s3 in self.force(s2, src):
                            s4 = s3.cp()
                            s4.conts[dst] = s3.conts[src]
                            s4 = self.emit(s4, Ev('cassign', dst.rpartition('.')[2], dst, (S(src),), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                            out.append((S(dst), s4))
                return out
            if self.newdisp and f is not None and f.get('cls'):
                done = []
                for dst, s in self.lvobj(a[0], st):
                    tgt = self.obj_operator(e, S(dst), s)
                    if tgt is None:
                        done = None
                        break
                    for v, s2 in self.ev(a[1], s):
                        done.append((tgt, dst, self.deref(v, s2), s2))
                if done:
                    for tgt, dst, v, s2 in done:
                        for r, s3, oc in self.call_body(tgt, S(dst), [v], s2, self.cur[3] + 1):
                            if oc == 'throw':
                                self.throws.append((r, s3))
                            else:
                                out.append((S(dst), s3))
                    return out
            for v, s in self.ev(a[1], st):
                v = self.deref(v, s)
                if v[0] == 'ref':
                    v = self.read(s, v[1])
                for l, s2 in self.lv(a[0], s):
                    if l[0] == 'loc':
                        s3 = self.write(s2, l[1], v)
                        s3 = self.wev(s3, l[1], v, e)
                        out.append((v, self.mapset(s3, a[0], l[1], v)))
                    elif len(l) > 2:
                        out.append((v, self.elset(s2, l[2], v, e)))
                    else:
                        s3 = self.emit(s2, Ev('call', short(e.get('f', '?')), self.objname(l[1]), (v,), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                        out.append((v, s3))
            return out
        if op == '()':
            out = []
            for fv, s in self.ev(a[0], st):
                if fv[0] == 'lam':
                    for vals, s2 in self.evs(a[1:], s):
                        out.extend(self.call_lam(fv, vals, s2))
                    return out
        if op in ('<<', '>>') and 'stream' in (e.get('f', '') + str(e.get('t', ''))):
            # streaming: evaluate the left chain and operand
            out = []
            for x, s in self.ev(a[0], st):
                for y, s2 in self.ev(a[1], s):
                    s2 = self.emit(s2, Ev('stream', op, self.objname(x), (self.deref(y, s2),), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                    r = self.stream and self.stream(op, x, self.deref(y, s2), a[1], s2, self)
                    if r:
                        out.extend(r)
                        continue
                    out.append((x, s2))
            return out
        if op in ('+=', '-=', '|=', '&='):
            out = []
            for v, s in self.ev(a[1], st):
                for l, s2 in self.lv(a[0], s):
                    if l[0] == 'loc':
                        cur = self.deref(self.read(s2, l[1]), s2)
                        nv = self.arith(op[:-1], cur, self.deref(v, s2))
                        s3 = self.write(s2, l[1], nv)
                        s3 = self.wev(s3, l[1], nv, e, op=op)
                        out.append((nv, s3))
                    elif len(l) > 2:
                        nv = self.arith(op[:-1], self.deref(l[1], s2), self.deref(v, s2))
                        out.append((nv, self.elset(s2, l[2], nv, e)))
                    else:
                        out.append((l[1], s2))
            return out
        if op in ('+', '-', '*', '/', '%', '|', '&'):
            if len(a) == 1:
                return [(K(-v[1]) if op == '-' and v[0] == 'k' and type(v[1]) in (int, float) else S('%s(%s)' % (op, vs(v))), s) for v, s in ((self.deref(v, s), s) for v, s in self.ev(a[0], st))]
            out = []
            for x, s in self.ev(a[0], st):
                for y, s2 in self.ev(a[1], s):
                    p, q = self.deref(x, s2), self.deref(y, s2)
                    if p[0] == 'it' and op in '+-' and q[0] == 'k' and isinstance(p[2], int) and isinstance(q[1], int) and 0 <= p[2] + (q[1] if op == '+' else -q[1]):
                        out.append((('it', p[1], p[2] + (q[1] if op == '+' else -q[1])), s2))
                        continue
                    out.append((self.arith(op, p, q), s2))
            return out
        if op == '!':
            return [(K(not b), s) for b, s in self.cond(a[0], st)]
        # generic member operator
        if a and len(a) >= 1:
            return self.do_call({'f': e.get('f', '?'), 'u': e.get('u', ''), 'l': e.get('l'), 'o': a[0], 'a': a[1:], 'const': e.get('const'), 't': e.get('t', ''), 'virt': e.get('virt')}, st)
        return [(S('?op'), st)]

    def elset(self, st, at, v, e):
        """overwrite an element of a container with known contents"""
        s = st.cp()
        c, i = at[:2]
        els = list(s.conts[c][0])
        els[i] = ('pair', els[i][1], v) if len(at) > 2 else v
        s.conts[c] = (tuple(els), s.conts[c][1])
        return self.emit(s, Ev('write', '[%s]' % i, c, (v, '='), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))

    def same_contents(self, c, d, st):
        """are two containers of known contents equal (None: not known)"""
        (x, p), (y, q) = st.conts.get(c, ((), False)), st.conts.get(d, ((), False))
        if not p or not q:
            return None
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if i == j:
                continue
            rs = {r for r, _ in self.compare('==', self.deref(i, st), self.deref(j, st), st)}
            if rs == {False}:
                return False
            if rs != {True}:
                return None
        return True

    def mapset(self, st, lhs, loc, v):
        """an entry of a map with known contents assigned through operator[]"""
        if not (lhs['k'] == 'op' and lhs['op'] == '[]' and MAPT.search(lhs['a'][0].get('t', '') or lhs.get('f', ''))):
            return st
        m = re.match(r'^(.*)\{(.*)\}$', loc)
        c = st.conts.get(m.group(1)) if m else None
        if c is None or not c[1] or any(x[0] != 'pair' for x in c[0]) or not c[0] and not re.match(r'-?\d+(\.\d+)?$', m.group(2)):
            return st
        hit = [i for i, x in enumerate(c[0]) if vs(x[1]) == m.group(2)]
        if not hit and any(x[1][0] != 'k' for x in c[0]):
            return st
        s = st.cp()
        if hit:
            s.conts[m.group(1)] = (tuple(('pair', x[1], v) if i == hit[0] else x for i, x in enumerate(c[0])), True)
        else:
            k = m.group(2)
            kv = K(k[1:-1]) if k[:1] == "'" and k[-1:] == "'" else K(int(k)) if re.match(r'-?\d+$', k) else K(float(k)) if re.match(r'-?\d+\.\d+$', k) else None
            if kv is None:
                return st
            n = len(c[0])
            if self.ordered(st, m.group(1), lhs['a'][0].get('t', '').split('std::', 1)[-1], kv):
                n = len([x for x in c[0] if x[1][1] < kv[1]])
                self.shift(s, m.group(1), n, 1, 'map')
            s.conts[m.group(1)] = (c[0][:n] + (('pair', kv, v),) + c[0][n:], True)
        return s

    def call_lam(self, fv, vals, st):
        e = self.lams[fv[1]]
        st = st.cp()
        for p, v in zip(e['p'], vals):
            st.store[self.lid(p['i'])] = v
        out = []
        for oc, v, s in self.ex(e['body'], st):
            if oc == 'throw':
                self.throws.append((v, s))
            else:
                out.append((v if oc == 'ret' and v is not None else S('void'), s))
        return out

    def resolve_new(self, cls, e, name):
        """method of an object whose class is known because it was created on this path"""
        fs = self.P.resolve_method(cls, e['u']) if e['u'] in self.P.fns else self.P.resolve_method(cls, name, len(e['a']), e['a'])
        return fs if fs is not None and len(fs['p']) == len(e['a']) else None

    def class_of(self, v, st):
        """class of an object created on this path"""
        if v is None or v[0] != 's':
            return None
        m = NEWOBJ.match(v[1])
        if m:
            return m.group(1)
        c = st.store.get(v[1] + '.#cls') if v[1].startswith('obj#') else None
        return c[1] if c else None

    def obj_operator(self, e, x, st):
        """the operator function a comparison of an object of known class runs"""
        if not self.newdisp or not e.get('u') in self.P.fns:
            return None
        c = self.class_of(x, st)
        f = self.P.fns[e['u']]
        if c is None or not f.get('cls') or len(f['p']) != 1 or short(f['cls']) not in self.P.bases(c):
            return None
        f = self.P.resolve_method(c, e['u'])
        return f if f is not None and self.should_inline(f, self.cur[3]) else None

    def e_call(self, e, st):
        return self.do_call(e, st)

    NPOS = K(18446744073709551615)

    def str_const(self, e, name, st):
        """operations on string constants"""
        out = []
        for rv, s in self.objof(e['o'], st):
            rv = self.deref(rv, s)
            if rv[0] != 'k' or not isinstance(rv[1], str):
                return None
            for vals, s2 in self.evs([a for a in e['a'] if a['k'] != 'defarg'], s):
                dv = [self.deref(v, s2) for v in vals]
                if any(v[0] != 'k' for v in dv):
                    return None
                x, a = rv[1], [v[1] for v in dv]
                if name in ('find', 'rfind', 'find_first_of', 'find_last_of') and a and type(a[0]) is int and 0 < a[0] < 128:
                    a[0] = chr(a[0])
                if name == 'find' and a and isinstance(a[0], str) and len(a) <= 2:
                    i = x.find(a[0], *a[1:])
                    v = self.NPOS if i < 0 else K(i)
                elif name in ('length', 'size'):
                    v = K(len(x))
                elif name == 'empty':
                    v = K(not x)
                elif name == 'substr' and a:
                    v = K(x[a[0]:] if len(a) == 1 or a[1] >= len(x) else x[a[0]:a[0] + a[1]])
                elif name == 'compare' and len(a) == 3:
                    y = x[a[0]:a[0] + a[1]]
                    v = K((y > a[2]) - (y < a[2]))
                elif name in ('rfind', 'find_first_of', 'find_last_of') and len(a) == 1 and isinstance(a[0], str):
                    i = x.rfind(a[0]) if name == 'rfind' else ([x.find(c) for c in a[0]] and (min([x.find(c) for c in a[0] if c in x] or [-1]) if name == 'find_first_of' else max(x.rfind(c) for c in a[0])))
                    v = self.NPOS if i < 0 else K(i)
                else:
                    return None
                out.append((v, s2))
        return out

    def do_call(self, e, st):
        q = short(e['f'])
        name = q.split('::')[-1]
        self.ncalls += 1
        # ---- std helpers
        if 'o' not in e:
            r = self.std_free(e, q, name, st)
            if r is not None:
                return r
        else:
            cls = q.rsplit('::', 1)[0] if '::' in q else ''
            if cls.startswith('Id<') or re.match(r'Id<', cls):
                return self.id_method(e, name, st)
            if 'basic_string' in cls and name == 'compare' and len(e['a']) == 1:
                out = []
                for rv, s in self.objof(e['o'], st):
                    for v, s2 in self.ev(e['a'][0], s):
                        a, b = self.deref(rv, s2), self.deref(v, s2)
                        for eq, s3 in self.compare('==', a, b, s2):
                            out.append((K(0) if eq else S('compare(%s,%s)' % (vs(a), vs(b))) if not (a[0] == b[0] == 'k') else K(-1 if str(a[1]) < str(b[1]) else 1), s3))
                return out
            if 'basic_string' in cls and (name in ('find', 'length', 'size', 'empty', 'substr', 'rfind', 'find_first_of', 'find_last_of') or name == 'compare' and len(e['a']) == 3):
                r = self.str_const(e, name, st)
                if r is not None:
                    return r
            if CONT.match(cls + '<') or CONT.match(cls) or cls.startswith('std::_Rb_tree'):
                return self.cont_method(e, cls, name, st)
        if q == 'Error::throwEnabled':
            return [(TRUE, st)]
        f = self.P.fns.get(e['u'])
        out = []
        if 'o' in e:
            recvs = self.objof(e['o'], st)
        else:
            recvs = [(None, st)]
        for rv, s in recvs:
            tgt = f
            if e.get('virt') and not e.get('qual') and rv is not None and (f is not None or rv == S('this') or self.newdisp):
                if rv == S('this') and self.this_cls:
                    tgt = self.P.resolve_method(self.this_cls, e['u']) if e['u'] in self.P.fns else self.P.resolve_method(self.this_cls, name, None, e['a']) or f
                    if tgt is not None and len(tgt['p']) != len(e['a']):
                        tgt = f
                elif self.newdisp and self.class_of(rv, s):
                    tgt = self.resolve_new(self.class_of(rv, s), e, name) or f
                elif self.virt_inline and self.virt_inline(q):
                    tgt = f
                elif f is not None and self.const_hook(f):
                    tgt = None
                elif f is not None and self.P.overriders.get(e['u']):
                    tgt = None if not self.trivial(f) or any(True for _ in self.P.overriders.get(e['u'])) else f
            for vals, s2 in self.evs(e['a'], s, tgt or f):
                dv = tuple(self.deref(v, s2) for v in vals)
                recv = self.objname(rv) if rv is not None else ''
                evn = Ev('call', q, recv, dv, e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], bool(e.get('virt')), e, self.cur[3])
                s2 = self.emit(s2, evn)
                if e.get('noret'):
                    self.throws.append((S('noreturn'), s2))
                    continue
                if self.maythrow(q):
                    s3 = s2.cp()
                    s3.why = s3.why + ('%s throws' % q,)
                    self.throws.append((S('ext'), s3))
                if self.value_of:
                    r = self.value_of(evn, s2, self)
                    if r is not None:
                        out.extend(r)
                        continue
                if tgt is not None and self.should_inline(tgt, self.cur[3]) and not (rv is not None and rv[0] == 'k' and rv[1] is None):
                    this = rv if rv is not None else None
                    for r, s3, oc in self.call_body(tgt, this, vals, s2, self.cur[3] + 1):
                        if oc == 'throw':
                            self.throws.append((r, s3))
                            continue
                        s3 = self.emit(s3, Ev('endcall', q, recv, dv, e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                        out.append((r if r is not None else S('void'), s3))
                    continue
                out.append(self.opaque_call(e, q, name, rv, recv, vals, dv, s2, f))
        return out

    def opaque_call(self, e, q, name, rv, recv, vals, dv, st, f):
        pure = e.get('const') or (rv is None and not e.get('mut'))
        at = ','.join(vs(v) for v in dv)
        if len(at) > 120:
            at = at[:120] + '~'
        nm = '%s%s(%s)' % (recv + '.' if recv else '', name if recv else q, at)
        if len(nm) > 240:
            nm = nm[:240]
        if not pure:
            st = st.cp()
            # the result symbol of an impure call is fresh
            nm = nm + '@%s' % e.get('l')
            self.forget(st, nm)
            if rv is not None:
                self.havoc_recv(st, rv, recv, e, f)
            if self.volatile:
                self.kill_volatile(st)
        for i in e.get('mut', []):
            if i < len(vals) and vals[i][0] == 'ref':
                st = st.cp()
                l = vals[i][1]
                st.store[l] = S('out:%s#%d@%s' % (name, i, e.get('l')))
                st.conts.pop(l, None)
                self.forget(st, st.store[l][1])
            elif i < len(vals) and vals[i][0] == 's':
                l = vals[i][1]
                if l in st.conts:
                    st = st.cp()
                    st.conts.pop(l, None)
                    ol = 'out:%s#%d@%s' % (name, i, e.get('l'))
                    for k, v in list(st.store.items()):
                        if v == S(l):
                            st.store[k] = S(ol)
                st = st.cp()
                self.kill_results(st, l)
        return (S(nm), st)

    def forget(self, st, sym):
        for a in [a for a in st.facts if sym in a]:
            del st.facts[a]

    def kill_results(self, st, recv):
        """method results on recv observed before the mutation become stale"""
        p = recv + '.'
        pat = re.compile(re.escape(p) + r'\w+\(')
        stale = [a for a in st.facts if pat.search(a)]
        for a in stale:
            del st.facts[a]
        for k, v in list(st.store.items()):
            if v[0] == 's' and pat.search(v[1]) and not v[1].startswith('old('):
                st.store[k] = S('old(%s)' % v[1])

    def kill_volatile(self, st):
        v = self.volatile
        for a in [a for a in st.facts if v.search(a)]:
            del st.facts[a]
        for c in [c for c in st.conts if v.search(c)]:
            del st.conts[c]
        for k, x in list(st.store.items()):
            if x[0] == 's' and v.search(x[1]) and not x[1].startswith('old('):
                st.store[k] = S('old(%s)' % x[1])

    def havoc_recv(self, st, rv, recv, e, f):
        if recv in ('this',) or (f is not None and recv == self.objname(self.cur[1])):
            mods = self.mods(f) if f is not None else set()
            for fl in mods:
                loc = '%s.%s' % (recv, fl)
                nm = '%s~%s' % (loc, e.get('l'))
                st.store[loc] = S(nm)
                st.conts.pop(loc, None)
                self.forget(st, nm)
            self.kill_results(st, recv)
        else:
            self.kill_results(st, recv)
            for k in [k for k in st.store if k.startswith(recv + '.')]:
                nm = '%s~%s' % (k, e.get('l'))
                st.store[k] = S(nm)
                self.forget(st, nm)
            if recv in st.conts:
                st.conts.pop(recv)

    def mods(self, f, _seen=None):
        u = f['u']
        if u in self._mods:
            return self._mods[u]
        seen = _seen if _seen is not None else set()
        if u in seen:
            return set()
        seen.add(u)
        out = set()
        for n in walk(f['body']):
            k = n['k']
            t = None
            if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                t = n['x']
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                t = n['e']
            elif k == 'op' and n['op'] in ('=', '+=', '-=', '++', '--') and n['a']:
                t = n['a'][0]
            elif k == 'call' and 'o' in n and not n.get('const'):
                t = n['o']
                if n['o']['k'] == 'this':
                    g = self.P.fns.get(n['u'])
                    if g:
                        out |= self.mods(g, seen)
                    t = None
            while t is not None and t['k'] in ('idx',):
                t = t['x']
            if t is not None and t['k'] == 'm' and t['b']['k'] == 'this':
                ty = t.get('t', '')
                if k == 'call' and n['f'].startswith(('std::', 'boost::', '__gnu')) and n['f'].split('::')[-1] in (
                        'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'top', 'lower_bound', 'upper_bound', 'equal_range', 'count', 'size', 'empty', 'at', 'c_str'):
                    continue
                if k == 'call' and (ty.startswith('EUROPA::Id<') or ty.rstrip().endswith('*') or ty.startswith('const EUROPA::Id<')):
                    continue
                out.add(LAST.search(short(t['n'])).group(1))
        if _seen is None:
            self._mods[u] = out
        return out

    def std_free(self, e, q, name, st):
        a = e['a']
        if q.startswith('std::find') and len(a) == 3 and name.startswith('find') and not name.startswith('find_'):
            out = []
            for vals, s in self.evs(a, st):
                b = vals[0]
                if b[0] == 'it':
                    out.extend(self.c_find(s, b[1], self.deref(vals[2], s), False))
                else:
                    out.append((S('std::find(%s)' % ','.join(vs(v) for v in vals)), s))
            return out
        if q in ('std::min_element', 'std::max_element') and len(a) == 2:
            out = []
            for vals, s in self.evs(a, st):
                b = vals[0]
                el, cl = s.conts.get(b[1], ((), False)) if b[0] == 'it' and b[2] == 0 and vals[1] == ('it', b[1], 'end') else ((), False)
                if cl and el and all(x[0] == 'k' and type(x[1]) in (int, float) for x in el):
                    pick = (min if q == 'std::min_element' else max)(x[1] for x in el)
                    out.append((('it', b[1], [x[1] for x in el].index(pick)), s))
                else:
                    out.append((S('%s(%s)' % (q, ','.join(vs(v) for v in vals))), s))
            return out
        if q.startswith('std::remove') and name.split('<')[0] == 'remove' and len(a) == 3:
            out = []
            for vals, s in self.evs(a, st):
                b, v = vals[0], self.deref(vals[2], s)
                if b[0] != 'it':
                    out.append((S('std::remove(%s)' % ','.join(vs(x) for x in vals)), s))
                    continue
                for _, s2 in self.c_do(b[1], 'remove', [v], s, e, False, ''):
                    out.append((('it', b[1], 'end'), s2))
            return out
        alg = name.split('<')[0]
        if q.startswith('std::') and alg in ('find_if', 'remove_if') and len(a) == 3 and 'ptr_compare' in str(a[2].get('t', '')):
            # functor of Utils: the element that points at the given object
            out = []
            for vals, s in self.evs(a, st):
                b, mt = vals[0], re.match(r'^ptr_compare<[^(]*>\((.*)\)$', vs(self.deref(vals[2], s)))
                if b[0] != 'it' or not mt:
                    out.append((S('%s(%s)' % (q, ','.join(vs(v) for v in vals))), s))
                elif alg == 'find_if':
                    out.extend(self.c_find(s, b[1], S(mt.group(1)), False))
                else:
                    out.extend((('it', b[1], 'end'), s2) for _, s2 in self.c_do(b[1], 'remove', [S(mt.group(1))], s, e, False, ''))
            return out
        if q.startswith('std::') and alg in ('replace', 'replace_if', 'remove_if', 'count') and len(a) in (3, 4):
            out = []
            for vals, s in self.evs(a, st):
                b = vals[0]
                if b[0] != 'it' or b[2] != 0 or vals[1][0] != 'it' or vals[1][2] != 'end' or (alg.endswith('_if') and vals[2][0] != 'lam'):
                    out.append((S('%s(%s)' % (q, ','.join(vs(v) for v in vals))), s))
                    continue
                for s1 in self.force(s, b[1]):
                    todo = [(s1, (), 0)]
                    for el in s1.conts[b[1]][0]:
                        nx = []
                        for s2, done, n in todo:
                            el2 = self.deref(self.read(s2, el[1]), s2) if el[0] == 's' else el
                            if alg.endswith('_if'):
                                r = [(t, s4) for v, s3 in self.call_lam(vals[2], [el2], s2) for t, s4 in self.truth(v, s3)]
                            else:
                                r = self.compare('==', el2, self.deref(vals[2], s2), s2)
                            for t, s3 in r:
                                keep = done + (el,)
                                if t and alg.startswith('replace'):
                                    keep = done + (self.deref(vals[3], s3),)
                                elif t and alg == 'remove_if':
                                    keep = done
                                nx.append((s3, keep, n + (1 if t else 0)))
                        todo = nx
                    for s2, done, n in todo:
                        if alg == 'count':
                            out.append((K(n), s2))
                            continue
                        s3 = s2.cp()
                        for x in s3.conts[b[1]][0]:
                            if n and x not in done and alg == 'remove_if':
                                s3 = self.emit(s3, Ev('cdel', b[1].rpartition('.')[2], b[1], (x,), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                        if n:
                            s3.conts[b[1]] = (done, s3.conts[b[1]][1])
                        out.append((('it', b[1], 'end') if alg == 'remove_if' else S('void'), s3))
            return out
        alg = name.split('<')[0]
        if q.startswith('std::') and alg in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'count_if', 'copy_if', 'copy') and len(a) >= 3:
            out = []
            for vals, s in self.evs(a, st):
                b, fv = vals[0], vals[-1]
                if b[0] != 'it' or (alg != 'copy' and fv[0] != 'lam') or not (b[2] == 0 and vals[1][2] == 'end'):
                    out.append((S('%s(%s)' % (q, ','.join(vs(v) for v in vals))), s))
                    continue
                for s1 in self.force(s, b[1]):
                    els = s1.conts[b[1]][0]
                    dst = vals[2] if alg.startswith('copy') else None
                    if dst is not None and dst[0] != 'ins':
                        out.append((S('?copied'), s1))
                        continue
                    todo = [(s1, 0)]          # (state, count)
                    for i, el in enumerate(els):
                        nx = []
                        for s2, n in todo:
                            el2 = self.deref(self.read(s2, el[1]), s2) if el[0] == 's' else el
                            for v, s3 in self.call_lam(fv, [el2], s2) if alg != 'copy' else [(K(True), s2)]:
                                for t, s4 in self.truth(v, s3):
                                    if alg in ('any_of', 'none_of') and t:
                                        out.append((K(alg == 'any_of'), s4))
                                    elif alg == 'all_of' and not t:
                                        out.append((K(False), s4))
                                    elif alg in ('find_if', 'find_if_not') and t == (alg == 'find_if'):
                                        out.append((('it', b[1], i), s4))
                                    elif dst is not None and t:
                                        for _, s5 in self.c_do(dst[1], 'insert' if dst[2] else 'push_back', [el2], s4, e, False, dst[2]):
                                            nx.append((s5, n))
                                    else:
                                        nx.append((s4, n + (1 if t else 0)))
                        todo = nx
                    for s2, n in todo:
                        out.append(({'any_of': K(False), 'none_of': K(True), 'all_of': K(True), 'count_if': K(n)}.get(alg, ('it', b[1], 'end') if dst is None else dst), s2))
            return out
        if q.startswith('std::') and alg in ('back_inserter', 'inserter', 'front_inserter') and a:
            t = a[0].get('t', '')
            return [(('ins', c, t if 'set<' in t or 'map<' in t else ''), s) for c, s in self.lvobj(a[0], st)]
        if q.startswith('std::') and alg in ('swap', 'exchange') and len(a) == 2 and not CONT.match(a[0].get('t', '')):
            out = []
            for l, s in self.lv(a[0], st):
                for l2, s2 in (self.lv(a[1], s) if alg == 'swap' else [(('val', v), s9) for v, s9 in self.ev(a[1], s)]):
                    x = self.read(s2, l[1]) if l[0] == 'loc' else l[1]
                    y = self.deref(self.read(s2, l2[1]), s2) if l2[0] == 'loc' else self.deref(l2[1], s2)
                    if l[0] == 'loc':
                        s2 = self.wev(self.write(s2, l[1], y), l[1], y, e)
                    if alg == 'swap' and l2[0] == 'loc':
                        s2 = self.wev(self.write(s2, l2[1], x), l2[1], x, e)
                    out.append((x if alg == 'exchange' else S('void'), s2))
            return out
        if q.startswith('std::for_each') and len(a) == 3:
            out = []
            for vals, s in self.evs(a, st):
                b, en, fv = vals
                if b[0] == 'it' and fv[0] == 'lam':
                    cur = []
                    for s1 in self.force(s, b[1]):
                        cs = [s1]
                        for el in s1.conts[b[1]][0]:
                            nx = []
                            for c in cs:
                                nx.extend(s3 for _, s3 in self.call_lam(fv, [el], c))
                            cs = nx
                        cur.extend(cs)
                    out.extend((fv, c) for c in cur)
                else:
                    s = self.emit(s, Ev('call', q, '', tuple(vals), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                    out.append((S('void'), s))
            return out
        if q in ('std::abs', 'std::fabs', 'abs', 'fabs') and len(a) == 1:
            r = self.evs(a, st)
            vs_ = [(self.deref(v[0], s), s) for v, s in r]
            return [((K(abs(v[1])) if v[0] == 'k' and isinstance(v[1], (int, float)) else S('abs(%s)' % vs(v))), s) for v, s in vs_]
        if q.startswith('std::make_pair') and len(a) == 2:
            return [(('pair', self.deref(v[0], s), self.deref(v[1], s)), s) for v, s in self.evs(a, st)]
        if q in ('std::move', 'std::forward', 'id_cast') or name in ('id_cast',) or q.startswith(('std::move', 'std::forward')):
            return self.ev(a[0], st)
        if name in ('noId',) and q.startswith('Id<'):
            return [(NULL, st)]
        if q.startswith(('std::begin', 'std::end')) and len(a) == 1:
            return [(('it', c, 0 if name.startswith('begin') else 'end'), s) for c, s in self.lvobj(a[0], st)]
        if q.startswith('__gnu_cxx::operator') or q.startswith('std::operator'):
            if name in ('operator==', 'operator!='):
                return None
        if name in ('next', 'prev') and q.startswith(('std::next', 'std::prev')) and a:
            out = []
            for vals, s in self.evs(a, st):
                v, n = self.deref(vals[0], s), (vals[1] if len(vals) > 1 else K(1))
                if v[0] != 'it' or n[0] != 'k':
                    return None
                for _ in range(abs(n[1])):
                    v = self.bump(v, 1 if (name == 'next') == (n[1] > 0) else -1)
                out.append((v, s))
            return out
        if q.startswith(('std::advance',)) and len(a) == 2:
            out = []
            for vals, s in self.evs(a, st):
                for l, s2 in self.lv(a[0], s):
                    if l[0] == 'loc' and vals[0][0] == 'it' and vals[1][0] == 'k':
                        s3 = s2.cp()
                        s3.store[l[1]] = self.bump(vals[0], vals[1][1])
                        out.append((S('void'), s3))
                    else:
                        out.append((S('void'), s2))
            return out
        return None

    def id_method(self, e, name, st):
        out = []
        if name in ('isNoId', 'isId', 'isValid', 'isInvalid'):
            for v, s in self.objof(e['o'], st):
                for b, s2 in self.compare('==', v, NULL, s):
                    out.append((K(b if name in ('isNoId', 'isInvalid') else not b), s2))
            return out
        if name in ('release', 'remove'):
            for l, s in self.lv(e['o'], st):
                v = self.deref(self.read(s, l[1]), s) if l[0] == 'loc' else l[1]
                s = self.emit(s, Ev(name, 'Id::' + name, self.objname(v), (v,), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                if l[0] == 'loc':
                    s = s.cp()
                    s.store[l[1]] = NULL
                out.append((S('void'), s))
            return out
        if name in ('equals',):
            for v, s in self.objof(e['o'], st):
                for w, s2 in self.ev(e['a'][0], s):
                    out.extend((K(r), s3) for r, s3 in self.compare('==', v, self.deref(w, s2), s2))
            return out
        if name == 'noId':
            return [(NULL, st)]
        for v, s in self.objof(e['o'], st):
            out.append((v, s))
        return out

    def ordered(self, st, c, cls, *keys):
        """the container is a set of known numbers (and so are the keys)"""
        el, cl = st.conts.get(c, ((), False))
        head = cls.split('<')[0]
        if not cl or 'set' not in head and 'map' not in head or 'multi' in head or 'unordered' in head or 'hash' in head:
            return False
        el = tuple(x[1] if 'map' in head and x[0] == 'pair' else x for x in el)
        return all(x[0] == 'k' and type(x[1]) in (int, float) for x in el + keys) and bool(el or keys)

    def ended(self, v, st):
        """an iterator that has come to the end of a container whose elements are all known designates the end"""
        if v[0] == 'it' and isinstance(v[2], int) and v[1] in st.conts and st.conts[v[1]][1]:
            n = len(st.conts[v[1]][0])
            if v[2] == n:
                return ('it', v[1], 'end')
            if -n <= v[2] < 0:
                return ('it', v[1], v[2] + n)
        return v

    def c_find(self, st, c, key, ismap):
        """-> iterator to key or end"""
        el = st.conts.get(c, ((), False))
        for i, x in enumerate(el[0]):
            kx = x[1] if ismap and x[0] == 'pair' else x
            if kx == key:
                return [(('it', c, i), st)]
        val = ('pair', key, S('%s{%s}' % (c, vs(key)))) if ismap else key
        a = 'in(%s,%s)' % (vs(key), c)
        if el[1] and a not in st.facts and (all(x[0] == 'k' or x[0] == 'pair' for x in el[0]) and key[0] == 'k' or not el[0]):
            return [(('it', c, 'end'), st)]
        if el[1] and a not in st.facts and all(self.differ(x[1] if ismap and x[0] == 'pair' else x, key, st) for x in el[0]):
            return [(('it', c, 'end'), st)]
        out = []
        for b, s in self.atom(a, st):
            out.append((('it', c, ('key', key, val)) if b else ('it', c, 'end'), s))
        return out

    def differ(self, x, y, st):
        """x and y are known to be different on this path"""
        if x[0] == 'k' and y[0] == 'k':
            return x != y
        return st.facts.get('eq(%s,%s)' % (vs(x), vs(y))) is False or st.facts.get('eq(%s,%s)' % (vs(y), vs(x))) is False

    def cev(self, st, kind, c, args, e):
        return self.emit(st, Ev(kind, c.rpartition('.')[2], c, args, e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))

    def cont_method(self, e, cls, name, st):
        ismap = bool(MAPT.search(cls))
        out = []
        for c, s in self.lvobj(e['o'], st):
            for vals, s2 in self.evs(e['a'], s):
                dv = [self.deref(v, s2) for v in vals]
                out.extend(self.c_do(c, name, dv, s2, e, ismap, cls))
        return out

    def settle(self, st, tmp, slot):
        if tmp in st.conts:
            st.conts[slot] = st.conts[tmp]
        return S(slot)

    def shift(self, st, c, frm, d, cls):
        """node-based containers: iterators keep designating their element when another one goes or comes"""
        if 'vector<' in cls or 'deque<' in cls:
            return
        for l, v in list(st.store.items()):
            if v[0] == 'it' and v[1] == c and isinstance(v[2], int) and v[2] >= frm:
                st.store[l] = ('it', c, v[2] + d)

    def c_do(self, c, name, dv, st, e, ismap, cls, _asked=False):
        if name in ('begin', 'cbegin'):
            return [(('it', c, 0), s) for s in self.force(st, c)]
        if name in ('end', 'cend'):
            return [(('it', c, 'end'), st)]
        if name in ('rbegin',):
            return [(('it', c, 0), s) for s in self.force(st, c)]
        if name in ('rend',):
            return [(('it', c, 'end'), st)]
        if name == 'empty':
            return [(K(len(s.conts[c][0]) == 0), s) for s in self.force(st, c)]
        if name == 'size' or name == 'length':
            if c in st.conts and st.conts[c][1] and not self._ws:
                return [(K(len(st.conts[c][0])), st)]
            if len(self.cont_init.get(c, ())) == 1 and not self._ws:
                return [(K(len(s.conts[c][0])), s) for s in self.force(st, c)]     # the rule fixed its size
            return [(('size', c), st)]
        if name in ('front', 'back', 'top'):
            out = []
            for s in self.force(st, c):
                el = s.conts[c][0]
                if el:
                    v = el[-1] if name == 'back' or (name == 'top' and 'stack' in cls) else el[0]
                    if v[0] == 's':
                        v = self.deref(self.read(s, v[1]), s)
                    out.append((v, s))
                else:
                    out.append((S('%s.%s' % (c, name)), s))
            return out
        if name in ('pop_front', 'pop_back', 'pop'):
            out = []
            for s in self.force(st, c):
                el = s.conts[c][0]
                s = s.cp()
                back = name == 'pop_back' or (name == 'pop' and 'stack' in cls)
                rem = (el[-1] if back else el[0]) if el else S('?')
                s.conts[c] = ((el[:-1] if back else el[1:]), True)
                s = self.cev(s, 'cdel', c, (rem,), e)
                out.append((S('void'), s))
            return out
        if name in ('insert', 'push_back', 'push_front', 'push', 'emplace_back', 'emplace'):
            v = dv[-1] if dv else S('?')
            if name == 'insert' and len(dv) == 3 and all(d[0] == 'it' for d in dv) and dv[0][2] in (0, 'end') and dv[1][2] == 0 and dv[2][2] == 'end' and dv[1][1] == dv[2][1]:
                out = []
                for s in self.force(st, dv[1][1]):
                    for s2 in self.force(s, c):
                        s2 = s2.cp()
                        el, add = s2.conts[c][0], s2.conts[dv[1][1]][0]
                        s2.conts[c] = ((el + add if dv[0][2] == 'end' or not el else add + el), s2.conts[c][1])
                        s2 = self.cev(s2, 'cins', c, tuple(add) or (S('nothing'),), e)
                        out.append((S('void'), s2))
                return out
            if name == 'insert' and len(dv) == 2 and dv[0][0] == 'it' and dv[1][0] == 'it':
                # range insert
                src = dv[0][1]
                out = []
                for s in self.force(st, src):
                    s = s.cp()
                    el, cl = s.conts.get(c, ((), False))
                    add = tuple(x for x in s.conts[src][0])
                    s.conts[c] = (el + add, cl)
                    s = self.cev(s, 'cins', c, (S('all(%s)' % src),), e)
                    out.append((S('void'), s))
                return out
            if name == 'emplace' and len(dv) == 2 and ismap:
                v = ('pair', dv[0], dv[1])
                dv = [v]
            st = st.cp()
            el, cl = st.conts.get(c, ((), False))
            kk = v[1] if ismap and v[0] == 'pair' else v
            if ismap and v[0] == 'pair' and 'multi' not in cls.split('<')[0]:
                # a stored value object is named after its place in the map
                slot = '%s{%s}' % (c, vs(kk))
                w = v[2]
                if w[0] == 's' and (re.match(r'C\d+@', w[1]) or (re.match(r'L\d+:\d+$', w[1]) and w[1] in st.conts)):
                    w = self.settle(st, w[1], slot)
                elif w[0] == 'pair':
                    w = ('pair',) + tuple(self.settle(st, x[1], '%s.%s' % (slot, n)) if x[0] == 's' and re.match(r'C\d+@', x[1]) else x for x, n in zip(w[1:], ('first', 'second')))
                v = ('pair', v[1], w)
                dv = list(dv[:-1]) + [v]
            present = any((x[1] if ismap and x[0] == 'pair' else x) == kk for x in el)
            if name in ('insert', 'emplace') and self.ordered(st, c, cls, kk):
                i = len([x for x in el if (x[1][1] if ismap else x[1]) < kk[1]])
                if not present:
                    st.conts[c] = (el[:i] + (v,) + el[i:], True)
                    self.shift(st, c, i, 1, cls)
                st.facts.pop('in(%s,%s)' % (vs(kk), c), None)
                st = self.cev(st, 'cins', c, tuple(dv), e)
                return [(('it', c, i) if len(dv) == 2 else ('pair', ('it', c, i), K(not present)), st)]
            head = cls.split('<')[0]
            uniq = ('set' in head or 'map' in head) and 'multi' not in head
            a = 'in(%s,%s)' % (vs(kk), c)
            outs = []
            if not (present and uniq):
                if name == 'push_front':
                    st.conts[c] = ((v,) + el, cl)
                    self.shift(st, c, 0, 1, cls)
                elif name == 'insert' and not uniq and len(dv) == 2 and dv[0][0] == 'it' and isinstance(dv[0][2], int) and 0 <= dv[0][2] < len(el):
                    st.conts[c] = (el[:dv[0][2]] + (v,) + el[dv[0][2]:], cl)
                elif ismap and 'multi' in head and present:
                    # the entries of a key stay together, in the order they were inserted
                    i = 1 + max(i for i, x in enumerate(el) if (x[1] if x[0] == 'pair' else x) == kk)
                    st.conts[c] = (el[:i] + (v,) + el[i:], cl)
                    self.shift(st, c, i, 1, cls)
                else:
                    st.conts[c] = (el + (v,), cl)
                if len(el) >= self.grow:
                    st.conts[c] = (el, cl)
                elif ismap and el and cl and all(x[0] == 'pair' and x[1][0] == 'k' and type(x[1][1]) in (int, float) for x in st.conts[c][0]):
                    st.conts[c] = (tuple(sorted(st.conts[c][0], key=lambda x: x[1][1])), cl)
            st.facts.pop(a, None)
            st = self.cev(st, 'cins', c, tuple(dv), e)
            if name == 'insert' and uniq and 'multi' not in cls.split('<')[0]:
                ins = S('%s.inserted(%s)@%s' % (c, vs(kk), e.get('l')))
                return [(('pair', ('it', c, ('key', kk, v)), K(False) if present else ins), st)]
            return [(('it', c, ('key', kk, v)), st)]
        if name == 'erase':
            v = dv[0] if dv else S('?')
            if v[0] == 'it':
                out = []
                for s in ([st] if not isinstance(v[2], int) and v[2] != 'end' else self.force(st, c)):
                    s = s.cp()
                    el, cl = s.conts.get(c, ((), False))
                    p = v[2]
                    if len(dv) == 2 and p == 'end':
                        out.append((v, s))
                        continue
                    if len(dv) == 2 and cl and isinstance(p, int) and dv[1][0] == 'it' and (isinstance(dv[1][2], int) or dv[1][2] == 'end') and 'vector' not in cls:
                        t = len(el) if dv[1][2] == 'end' else dv[1][2]
                        t = t + len(el) if t < 0 else t
                        p = p + len(el) if p < 0 else p
                        if p <= t <= len(el) and (p, t) != (0, len(el)):
                            if p < t:
                                s.conts[c] = (el[:p] + el[t:], cl)
                                self.shift(s, c, t, p - t, cls)
                                s = self.cev(s, 'cdel', c, el[p:t], e)
                            out.append((('it', c, p), s))
                            continue
                    if len(dv) == 2:
                        s.conts[c] = ((), True)
                        s = self.cev(s, 'cclear', c, tuple(dv), e)
                        out.append((('it', c, 'end'), s))
                        continue
                    if isinstance(p, int) and p < 0:
                        p += len(el)
                    if isinstance(p, int) and 0 <= p < len(el):
                        rem = el[p]
                        s.conts[c] = (el[:p] + el[p + 1:], cl)
                        self.shift(s, c, p + 1, -1, cls)
                        nx = ('it', c, p)
                    else:
                        rem = p[1] if isinstance(p, tuple) else S('?')
                        el2 = tuple(x for x in el if (x[1] if ismap and x[0] == 'pair' else x) != rem)
                        if el2 != el:
                            s.conts[c] = (el2, cl)
                        nx = self.bump(v, 1)
                        s.facts['in(%s,%s)' % (vs(rem), c)] = False
                    s = self.cev(s, 'cdel', c, (rem,), e)
                    out.append((nx, s))
                return out
            if not _asked and e is not self.discarded and 'multi' not in cls.split('<')[0]:
                # the answer matters: decide the membership first
                out = []
                for it, s in self.c_find(st, c, v, ismap):
                    for _, s2 in self.c_do(c, name, dv, s, e, ismap, cls, True) if it[2] != 'end' else [(None, s)]:
                        out.append((K(0 if it[2] == 'end' else 1), s2 if it[2] != 'end' else self.cev(s2, 'cdel', c, (v,), e)))
                return out
            st = st.cp()
            el, cl = st.conts.get(c, ((), False))
            had = any((x[1] if ismap and x[0] == 'pair' else x) == v for x in el)
            st.conts[c] = (tuple(x for x in el if (x[1] if ismap and x[0] == 'pair' else x) != v), cl)
            for i in [i for i, x in enumerate(el) if (x[1] if ismap and x[0] == 'pair' else x) == v]:
                self.shift(st, c, i + 1, -1, cls)
            if not cl and not el:
                st.conts.pop(c, None)
            fa = 'in(%s,%s)' % (vs(v), c)
            known = st.facts.get(fa)
            st.facts[fa] = False
            slot = '%s{%s}' % (c, vs(v))
            if ismap and cl and st.store.get(slot, ('',))[0] == 's':
                st.store[slot] = NULL      # operator[] would now make an empty entry
            st = self.cev(st, 'cdel', c, (v,), e)
            return [(K(1) if had or known else K(0) if known is False else S('erased(%s,%s)@%s' % (vs(v), c, e.get('l'))), st)]
        if name == 'remove':
            st = st.cp()
            v = dv[0]
            el, cl = st.conts.get(c, ((), False))
            st.conts[c] = (tuple(x for x in el if x != v), cl)
            if not cl and not el:
                st.conts.pop(c, None)
            return [(S('void'), self.cev(st, 'cdel', c, (v,), e))]
        if name == 'clear':
            st = st.cp()
            st.conts[c] = ((), True)
            for a in [a for a in st.facts if a.startswith('in(') and a.endswith(',%s)' % c)]:
                del st.facts[a]
            return [(S('void'), self.cev(st, 'cclear', c, (), e))]
        if name in ('lower_bound', 'upper_bound') and self.ordered(st, c, cls, dv[0]):
            el = st.conts[c][0]
            ks = [x[1][1] if ismap and x[0] == 'pair' else x[1] for x in el]
            i = len([x for x in ks if (x < dv[0][1] if name == 'lower_bound' else x <= dv[0][1])])
            return [(('it', c, i if i < len(el) else 'end'), st)]
        if name in ('find', 'lower_bound'):
            return self.c_find(st, c, dv[0], ismap)
        if name in ('upper_bound', 'equal_range') and dv:
            out = []
            for it, s in self.c_find(st, c, dv[0], ismap):
                pa = ('it', c, ('past', dv[0], ismap) if it[2] != 'end' else 'end')
                el, cl = s.conts.get(c, ((), False))
                if name == 'equal_range' and cl and isinstance(it[2], int) and 0 <= it[2] < len(el):
                    same = [i for i, x in enumerate(el) if (x[1] if ismap and x[0] == 'pair' else x) == dv[0]]
                    if same and same == list(range(it[2], it[2] + len(same))):
                        pa = ('it', c, it[2] + len(same) if it[2] + len(same) < len(el) else 'end')
                out.append((pa if name == 'upper_bound' else ('pair', it, pa), s))
            return out
        if name == 'count':
            out = []
            for it, s in self.c_find(st, c, dv[0], ismap):
                out.append((K(0) if it[2] == 'end' else S('count(%s,%s)' % (vs(dv[0]), c)) if 'multi' in cls.split('<')[0] else K(1), s))
            return out
        if name == 'at':
            return [(S('%s{%s}' % (c, vs(dv[0]))), st)]
        if name == 'swap':
            st = st.cp()
            o = self.objname(dv[0]) if dv else '?'
            x, y = st.conts.get(c), st.conts.get(o)
            for k, v in ((c, y), (o, x)):
                if v is None:
                    st.conts.pop(k, None)
                else:
                    st.conts[k] = v
            return [(S('void'), self.cev(st, 'cswap', c, tuple(dv), e))]
        if name in ('reserve', 'resize', 'sort', 'unique', 'splice', 'assign', 'merge', 'reverse'):
            st = st.cp()
            if name not in ('reserve', 'sort', 'reverse'):
                st.conts.pop(c, None)
            return [(S('void'), self.cev(st, 'c' + name, c, tuple(dv), e))]
        return [(S('%s.%s(%s)' % (c, name, ','.join(vs(v) for v in dv))), st)]

    # ----------------------------------------------------------- statements
    throws = []
    discarded = None

    def withthrows(self, fnc):
        """run an expression evaluation, collecting throwing outcomes"""
        saved = self.throws
        self.throws = []
        try:
            try:
                r = fnc()
            except ThrowExpr as t:
                r = []
                self.throws.append((S('throw:%s' % short(t.e.get('t', ''))), t.st or St()))
            th = self.throws
        finally:
            self.throws = saved
        return r, [('throw', v, s) for v, s in th]

    def ex(self, n, st):
        """-> list of (outcome, value, st)"""
        if n is None:
            return [('norm', None, st)]
        k = n['k']
        return getattr(self, 'x_' + k, self.x_default_)(n, st)

    def x_default_(self, n, st):
        return [('norm', None, st)]
    x_nop = x_default_

    def x_block(self, n, st):
        cur = [st]
        outs = []
        raii = []
        for c in n['s']:
            nxt = []
            for s in cur:
                for oc, v, s2 in self.ex(c, s):
                    if oc == 'norm':
                        nxt.append(s2)
                    else:
                        outs.append((oc, v, s2))
            if c and c['k'] == 'decl':
                for d in c['v']:
                    if d.get('dtor') and not d.get('ref') and not d.get('st') and d['dtor'] in self.P.fns:
                        raii.append((d, self.P.fns[d['dtor']]))
            cur = self.dedupe(nxt)
            if not cur:
                break
        res = [('norm', None, s) for s in cur] + outs
        for d, f in reversed(raii):
            if not self.should_inline(f, self.cur[3]):
                continue
            r2 = []
            for oc, v, s in res:
                obj = s.store.get(self.lid(d['i']))
                if obj is None:
                    r2.append((oc, v, s))
                    continue
                for rv, s2, oc2 in self.call_body(f, S(self.objname(obj)), [], s, self.cur[3] + 1):
                    r2.append((oc, v, s2) if oc2 == 'ret' else ('throw', rv, s2))
            res = r2
        # dedupe non-normal
        d = {}
        for oc, v, s in res:
            d.setdefault((oc, v, s.key()), (oc, v, s))
        return list(d.values())

    def x_expr(self, n, st):
        e = n['e']
        if e['k'] == 'throw':
            if 'e' in e:
                r, th = self.withthrows(lambda: self.ev(e['e'], st))
                out = list(th)
                for v, s in r:
                    s = self.emit(s, Ev('throw', short(e.get('t', '')), '', (v,), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
                    out.append(('throw', S('throw:%s' % short(e.get('t', ''))), s))
                return out
            s = self.emit(st, Ev('throw', 'rethrow', '', (), e.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=e, depth=self.cur[3]))
            return [('throw', S('rethrow'), s)]
        self.discarded = e
        r, th = self.withthrows(lambda: self.ev(e, st))
        return [('norm', None, s) for s in self.dedupe([s for v, s in r])] + th

    def x_check(self, n, st):
        r, th = self.withthrows(lambda: self.cond(n['c'], st))
        out = list(th)
        for b, s in r:
            if b:
                s = self.emit(s, Ev('throw', 'Error', '', (), n.get('l'), self.cur[2]['file'], self.cur[2]['sq'], node=n, depth=self.cur[3]))
                out.append(('throw', S('throw:Error'), s))
            else:
                out.append(('norm', None, s))
        return out

    def x_decl(self, n, st):
        cur = [st]
        out = []
        for d in n['v']:
            nxt = []
            for s in cur:
                r, th = self.withthrows(lambda: self.decl1(d, s))
                nxt.extend(r)
                out.extend(th)
            cur = self.dedupe(nxt)
        return [('norm', None, s) for s in cur] + out

    def decl1(self, d, st):
        loc = self.lid(d['i'])
        t = d['t']
        if d.get('st'):
            loc = 'static:%s:%s' % (self.cur[2]['sq'], d['n'])
            s = st.cp()
            if loc not in s.store:
                if 'e' in d:
                    return [self._setl(s2, loc, v) for v, s2 in self.ev(d['e'], s)]
            return [s]
        if 'e' not in d:
            s = st.cp()
            if CONT.match(t):
                s.store.pop(loc, None)
                s.conts[loc] = ((), True)
            else:
                s.store[loc] = S('uninit')
            return [s]
        if d.get('ref'):
            out = []
            for v, s in self.refval(d['e'], st):
                s = s.cp()
                s.store[loc] = v
                out.append(s)
            return out
        if CONT.match(t):
            e = d['e']
            out = []
            if e['k'] == 'ctor' and (not e['a'] or (e['a'][0]['k'] == 'ctor' and 'allocator' in e['a'][0].get('t', ''))):
                s = st.cp()
                s.store.pop(loc, None)
                s.conts[loc] = ((), True)
                return [s]
            if e['k'] == 'ctor' and e.get('cp'):
                for c, s in self.lvobj(e['a'][0], st):
                    for s2 in self.force(s, c):
                        s3 = s2.cp()
                        s3.store.pop(loc, None)
                        s3.conts[loc] = s2.conts[c]
                        out.append(s3)
                return out
            for v, s in self.ev(e, st):
                s = s.cp()
                if v[0] == 's':
                    if v[1] in s.conts:
                        s.store.pop(loc, None)
                        s.conts[loc] = s.conts[v[1]]
                    else:
                        s.store[loc] = v
                else:
                    s.store[loc] = v
                out.append(s)
            return out
        # objects of repo classes whose constructor is available: RAII guards
        e = d['e']
        if e['k'] == 'ilist' and t.rstrip().endswith(']') and t.count('[') == 1:
            out = []
            for vals, s in self.evs(e['a'], st):
                s = s.cp()
                s.store.pop(loc, None)
                for i, v in enumerate(vals):
                    s.store['%s[%d]' % (loc, i)] = self.deref(v, s) if '*' not in t else v
                out.append(s)
            return out
        if e['k'] == 'ctor' and not e.get('cp') and d.get('dtor') and d['dtor'] in self.P.fns:
            f = self.P.fns.get(e['u'])
            if f is not None and self.should_inline(f, self.cur[3]) and self.should_inline(self.P.fns[d['dtor']], self.cur[3]):
                obj = 'obj#%s:%d' % (d['n'], len(self.stack))
                out = []
                for vals, s in self.evs(e['a'], st, f):
                    for rv, s2, oc in self.call_body(f, S(obj), vals, s, self.cur[3] + 1):
                        if oc == 'ret':
                            s2 = s2.cp()
                            s2.store[loc] = S(obj)
                            s2.store[obj + '.#cls'] = K(short(f['cls']))
                            out.append(s2)
                        else:
                            self.throws.append((rv, s2))
                return out
        if t == 'bool' or t == 'const bool':
            return [self._setl(s, loc, K(b)) for b, s in self.cond(e, st)]
        out = []
        for v, s in self.ev(e, st):
            v = self.deref(v, s) if not t.rstrip().endswith('*') else NULL if v == K(0) and v[1] is not False else v
            s = s.cp()
            s.store[loc] = v
            out.append(s)
        return out

    def _setl(self, s, loc, v):
        s = s.cp()
        s.store[loc] = v
        return s

    def x_return(self, n, st):
        if 'e' not in n:
            return [('ret', None, st)]
        e = n['e']
        ret = self.cur[2]['ret']
        if ret == 'bool':
            r, th = self.withthrows(lambda: [(K(b), s) for b, s in self.cond(e, st)])
        elif ret.rstrip().endswith('&'):
            r, th = self.withthrows(lambda: [(v if v[0] != 'ref' or not v[1].startswith('L') else self.read(s, v[1]), s) for v, s in self.refval(e, st)])
        else:
            r, th = self.withthrows(lambda: [(self.deref(v, s), s) for v, s in self.ev(e, st)])
        return [('ret', v, s) for v, s in r] + th

    def x_if(self, n, st):
        outs = []
        sts = [st]
        if n.get('init'):
            sts = []
            for oc, v, s in self.ex(n['init'], st):
                (sts.append(s) if oc == 'norm' else outs.append((oc, v, s)))
        if n.get('cv'):
            nx = []
            for s in sts:
                r, th = self.withthrows(lambda: self.decl1(n['cv'], s))
                nx.extend(r)
                outs.extend(th)
            sts = nx
        for s0 in sts:
            r, th = self.withthrows(lambda: self.cond(n['c'], s0))
            outs.extend(th)
            for b, s in r:
                outs.extend(self.ex(n['x'] if b else n['y'], s))
        return self.dd(outs)

    def dd(self, outs):
        d = {}
        for oc, v, s in outs:
            d.setdefault((oc, v, s.key()), (oc, v, s))
        outs = list(d.values())
        if len(outs) > self.mergeat:
            norm = self.dedupe([s for oc, v, s in outs if oc == 'norm'])
            g = {}
            for oc, v, s in outs:
                if oc != 'norm':
                    g.setdefault((oc, v), []).append(s)
            outs = [('norm', None, s) for s in norm]
            for (oc, v), ss in g.items():
                outs.extend((oc, v, s) for s in self.dedupe(ss))
        return outs

    def x_switch(self, n, st):
        outs = []
        r, th = self.withthrows(lambda: self.ev(n['c'], st))
        outs.extend(th)
        body = n['b']['s'] if n['b']['k'] == 'block' else [n['b']]
        # flatten labels
        items = []
        for c in body:
            labels = []
            x = c
            while x and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            items.append((labels, x))
        for v, s in r:
            v = self.deref(v, s)
            pend = [s]
            starts = []
            dflt = None
            for i, (labels, x) in enumerate(items):
                for l in labels:
                    if l['k'] == 'default':
                        dflt = i
                        continue
                    nxt = []
                    for p in pend:
                        for cv, p2 in self.ev(l['v'], p):
                            for b, p3 in self.compare('==', v, cv, p2):
                                (starts.append((i, p3)) if b else nxt.append(p3))
                    pend = nxt
            for p in pend:
                starts.append((dflt, p) if dflt is not None else (len(items), p))
            for i, p in starts:
                cur = [p]
                for labels, x in items[i:]:
                    nxt = []
                    for c in cur:
                        for oc, vv, s2 in self.ex(x, c):
                            if oc == 'norm':
                                nxt.append(s2)
                            elif oc == 'break':
                                outs.append(('norm', None, s2))
                            else:
                                outs.append((oc, vv, s2))
                    cur = self.dedupe(nxt)
                    if not cur:
                        break
                outs.extend(('norm', None, c) for c in cur)
        return self.dd(outs)

    def x_break(self, n, st):
        return [('break', None, st)]

    def x_continue(self, n, st):
        return [('continue', None, st)]

    def x_label(self, n, st):
        return self.ex(n['s'], st)

    def x_goto(self, n, st):
        raise Broken('goto in analysed function ' + self.cur[2]['sq'])

    def loop(self, st, cond, body, inc, post=False):
        """fixpoint; cond: st -> ([(bool,st)], throws)"""
        outs = []
        seen = set()
        work = [(st, 0, post)]
        exits = []
        stuck = []
        n = 0
        while work:
            s, trip, skip = work.pop()
            n += 1
            if n > 4000:
                raise Broken('loop explosion in ' + self.cur[2]['sq'])
            if skip:
                r, th = [(True, s)], []
            else:
                k = s.key()
                if k in seen:
                    # no progress: the abstraction cannot see why it ends
                    (exits if self.may_exit(cond, s) else stuck).append(self.cut(s))
                    continue
                seen.add(k)
                r, th = cond(s)
            outs.extend(th)
            for b, s1 in r:
                if not b:
                    exits.append(s1)
                    continue
                if trip >= self.trip:
                    # widen: leave the loop keeping the state reached
                    (exits if self.may_exit(cond, s1) else stuck).append(self.cut(s1))
                    continue
                for oc, v, s2 in self.ex(body, s1):
                    if oc == 'break':
                        exits.append(s2)
                    elif oc in ('norm', 'continue'):
                        if inc is not None:
                            ri, ti = self.withthrows(lambda: self.ev(inc, s2))
                            outs.extend(ti)
                            work.extend((s3, trip + 1, False) for _, s3 in ri)
                        else:
                            work.append((s2, trip + 1, False))
                    else:
                        outs.append((oc, v, s2))
            if len(work) > 300:
                d = {}
                for s, t, sk in work:
                    d.setdefault((s.key(), sk), (s, t, sk))
                work = list(d.values())
        if not exits and not any(o[0] != 'throw' for o in outs):
            exits = stuck
        outs.extend(('norm', None, s) for s in self.dedupe(exits))
        return self.dd(outs)

    def cut(self, s):
        s = s.cp()
        s.why = s.why + ('*loop',)
        return s

    def may_exit(self, cond, s):
        """could the loop condition be false here if the branch facts collected so far are forgotten?"""
        s2 = s.cp()
        s2.facts = {}
        return any(not b for b, _ in cond(s2)[0])

    def x_while(self, n, st):
        return self.loop(st, lambda s: self.withthrows(lambda: self.cond(n['c'], s)), n['b'], None)

    def x_do(self, n, st):
        return self.loop(st, lambda s: self.withthrows(lambda: self.cond(n['c'], s)), n['b'], None, post=True)

    def x_for(self, n, st):
        outs = []
        for oc, v, s in self.ex(n['i'], st):
            if oc != 'norm':
                outs.append((oc, v, s))
                continue
            outs.extend(self.loop(s, (lambda z: self.withthrows(lambda: self.cond(n['c'], z))) if n['c'] else (lambda z: ([(True, z)], [])), n['b'], n['n']))
        return self.dd(outs)

    def x_forr(self, n, st):
        outs = []
        r, th = self.withthrows(lambda: self.lvobj(n['r'], st))
        outs.extend(th)
        loc = self.lid(n['v']['i'])
        for c, s in r:
            for s1 in self.force(s, c):
                cur = [s1]
                for el in s1.conts[c][0]:
                    nxt = []
                    for x in cur:
                        x = x.cp()
                        x.store[loc] = el
                        for oc, v, s2 in self.ex(n['b'], x):
                            if oc in ('norm', 'continue'):
                                nxt.append(s2)
                            elif oc == 'break':
                                outs.append(('norm', None, s2))
                            else:
                                outs.append((oc, v, s2))
                    cur = self.dedupe(nxt)
                outs.extend(('norm', None, x) for x in cur)
        return self.dd(outs)

    def x_try(self, n, st):
        outs = []
        for oc, v, s in self.ex(n['b'], st):
            if oc != 'throw':
                outs.append((oc, v, s))
                continue
            handled = False
            for h in n['h']:
                if h['t'] == '...' or v == S('ext') or v is None or short(h['t']).replace('const ', '').rstrip('& ') in vs(v):
                    s2 = s.cp()
                    if h.get('v'):
                        s2.store[self.lid(h['v']['i'])] = S('exc')
                    for oc2, v2, s3 in self.ex(h['b'], s2):
                        outs.append((oc2, v if v2 == S('rethrow') else v2, s3))
                    handled = True
                    if not (v == S('ext') and h['t'] != '...'):
                        break
                    else:
                        handled = True
                        break
            if not handled:
                outs.append((oc, v, s))
        return self.dd(outs)


class ThrowExpr(Exception):
    def __init__(self, e, st=None):
        self.e, self.st = e, st
