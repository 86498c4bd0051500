"""The transaction log and its player: what the log writes about an operation, the player turns into that operation again."""
import itertools
from vf.lib import *
from rules.C21 import strings
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['an XML element keeps its tag, attributes and children', 'a number written into an attribute is read back as that number (the digits of reals are not decided)',
               'the plan database replayed into has the same tokens, variables, objects and constraints under the same paths, names and indices',
               'operations that end in an exception are outside the rule, except that the player may not refuse what the log wrote']
LOG, PL = 'DbClientTransactionLog', 'DbClientTransactionPlayer'
SC = ('DbClientTransactionLog.cc', 'DbClientTransactionPlayer.cc', 'DbClientTransactionPlayer.hh', 'DbClientTransactionLog.hh')
OPS = ('createVariable', 'deleteVariable', 'createObject', 'deleteObject', 'close', 'createToken', 'deleteToken', 'constrain', 'free', 'activate', 'merge', 'reject', 'cancel',
       'createConstraint', 'deleteConstraint', 'specify', 'restrict', 'reset')
BUF = 'this.m_bufferedTransactions'
XE = re.compile(r'^X\d+$')
ENT = ('V', 'W', 'T', 'T2', 'T3', 'O', 'O2', 'C', 'D', 'L', 'D2', 'VT', 'VO')
PATHS = {'T': '3.1', 'T2': '4', 'T3': '5.0.2'}


def text(v):
    """the text of an attribute value"""
    if v[0] == 'k':
        return v if v[1] is None or isinstance(v[1], str) else K(str(v[1]).lower() if isinstance(v[1], bool) else str(v[1]))
    return v


def kids(st, x):
    return [e[1] for e in st.conts.get('%s.kids' % x, ((), True))[0]]


def tag(st, x):
    v = st.store.get('%s.#tag' % x)
    return v[1] if v else None


class World:
    """the entities the log speaks of; every fact is what the accessors answer"""
    def __init__(self, **kw):
        self.kw = dict(fact=False, rejectable=True, internal=False, closed=False, scope=('V',), doms=(), active=True, schematype=False)
        self.kw.update(kw)

    # ---- XML elements
    def new(self, t, st, *more):
        st = st.cp()
        n = st.store.get('#x', K(0))[1]
        st.store['#x'] = K(n + 1)
        x = 'X%d' % n
        st.store[x + '.#tag'] = t
        for k, v in more:
            st.store['%s.@%s' % (x, k)] = v
        st.conts[x + '.kids'] = ((), True)
        return x, st

    def made(self, ev, st, fl):
        if 'TiXmlElement' in ev.name and ev.args:
            x, st = self.new(fl.deref(ev.args[0], st), st)
            return [(S(x), st)]
        if 'stringstream' in ev.name or 'ostringstream' in ev.name:
            st = st.cp()
            n = st.store.get('#b', K(0))[1]
            st.store['#b'] = K(n + 1)
            st.store['stream%d' % n] = K('')
            return [(S('stream%d' % n), st)]
        return None

    def stream(self, op, x, y, node, st, fl):
        x = vs(x)
        if not re.match(r'^stream\d+$', x):
            return None
        st = st.cp()
        b = st.store[x]
        if op == '<<':
            t = text(y) if y not in (K(PINF), K(MINF)) else K('4.5036e+15')
            if y[0] == 's' and 'ends' in y[1]:
                t = K('')
            w = re.search(r'setprecision\((\d+)\)', vs(y))
            if w:
                st.store[x + '.#prec'] = K(int(w.group(1)))
                return [(S(x), st)]
            if y[0] == 'k' and type(y[1]) in (int, float) and abs(y[1]) != PINF and re.search(r'double|float', str(node.get('t', ''))):
                t = K('%.*g' % (st.store.get(x + '.#prec', K(6))[1], y[1]))
            st.store[x] = K(b[1] + t[1]) if b[0] == t[0] == 'k' else S('text(%s %s)' % (vs(b), vs(t)))
        else:
            for l, s in fl.lv(node, st):
                if l[0] == 'loc':
                    s = s.cp()
                    num = re.search(r'int|long|short', str(node.get('t', '')))
                    s.store[l[1]] = K(int(b[1])) if b[0] == 'k' and num and re.match(r'^\d+$', b[1]) else b
                    return [(S(x), s)]
        return [(S(x), st)]

    def xml(self, ev, m, r, a, st, fl):
        if m == 'Value' or m == 'ValueStr':
            return [(st.store[r + '.#tag'], st)]
        if m == 'SetAttribute':
            st = st.cp()
            st.store['%s.@%s' % (r, a[0][1])] = text(a[1])
            return [(S('void'), st)]
        if m == 'LinkEndChild':
            st = st.cp()
            e, c = st.conts[r + '.kids']
            st.conts[r + '.kids'] = (e + (a[0],), c)
            st.store[vs(a[0]) + '.#up'] = S(r)
            return [(a[0], st)]
        if m == 'Attribute':
            v = st.store.get('%s.@%s' % (r, a[0][1]), NULL)
            if len(ev.args) == 2 and v != NULL:
                for l, s in fl.lv(ev.node['a'][1]['e'], st) if ev.node['a'][1].get('op') == '&' else []:
                    s = s.cp()
                    s.store[l[1]] = K(int(v[1])) if v[0] == 'k' else v
                    return [(v, s)]
                raise Broken('Attribute(.., %s)' % vs(a[1]))
            return [(v, st)]
        if m in ('FirstChildElement', 'FirstChild'):
            ks = [k for k in kids(st, r) if not a or K(tag(st, k)) == a[0]]
            return [(S(ks[0]) if ks else NULL, st)]
        if m in ('NextSiblingElement', 'NextSibling'):
            up = st.store.get(r + '.#up')
            ks = kids(st, up[1]) if up else []
            ks = ks[ks.index(r) + 1:] if r in ks else []
            ks = [k for k in ks if not a or K(tag(st, k)) == a[0]]
            return [(S(ks[0]) if ks else NULL, st)]
        return None

    # ---- entities
    def val(self, ev, st, fl):
        m, r = ev.m, ev.recv
        a = [fl.deref(x, st) for x in ev.args]
        kw = self.kw
        k0 = a[0][1] if a and a[0][0] == 'k' else None
        if XE.match(r):
            return self.xml(ev, m, r, a, st, fl)
        if m in ('isValid', 'isId', 'isNoId', 'valid') and (r in ENT or 'm_client' in r):
            return [(K(m != 'isNoId'), st)]
        if m == 'getIndexByVariable':
            return [(K({'V': 7, 'W': 8}.get(vs(a[0]), 70)), st)]
        if m == 'getVariableByIndex':
            return [(S({7: 'V', 8: 'W'}.get(k0, 'variable %s' % vs(a[0]))), st)]
        if m == 'getIndexByConstraint':
            return [(K(9), st)]
        if m == 'getConstraintByIndex':
            return [(S('C' if k0 == 9 else 'constraint %s' % vs(a[0])), st)]
        if m == 'getPathAsString':
            return [(K(PATHS[vs(a[0])]), st)]
        if m == 'getTokenByPath':
            e, c = st.conts.get(vs(a[0]), ((), False))
            p = '.'.join(str(x[1]) for x in e)
            return [(S({v: k for k, v in PATHS.items()}.get(p, 'token %s' % p)), st)]
        if m in ('getObject',) and 'm_client' in r:
            return [(S({'rover1': 'O', 'rover2': 'O2'}.get(k0, 'object %s' % vs(a[0]))), st)]
        if m in ('isGlobalVariable', 'isPredicate'):
            return [(K(True), st)]
        if m == 'getGlobalVariable':
            return [(S({'v1': 'V', 'v2': 'W'}.get(k0, 'variable %s' % vs(a[0]))), st)]
        if m == 'isObjectType':
            return [(K(kw['schematype']), st)]
        if m == 'isInternal':
            return [(K(kw['internal']), st)]
        if r in ('V', 'W', 'VT', 'VO'):
            x = {'getName': K({'V': 'v1', 'W': 'v2'}.get(r, 'x')), 'parent': S({'VT': 'T3', 'VO': 'O2'}[r]) if r in ('VT', 'VO') else NULL, 'getIndex': K({'VT': 2, 'VO': 1}.get(r, -1)),
                 'baseDomain': S('D'), 'lastDomain': S('L'), 'derivedDomain': S('L')}.get(m)
            if x is not None:
                return [(x, st)]
        if m == 'convertable':
            w = 'Token' if 'TokenId' in ev.name or 'Id<Token>' in ev.name else 'Object'
            return [(K(vs(a[0]).startswith(w[0])), st)]
        if r in PATHS:
            x = {'isFact': K(kw['fact'] is True or kw['fact'] == r), 'getPredicateName': K('Rover.At'), 'getUnqualifiedPredicateName': K('At'), 'getName': K('tok'), 'isActive': K(not kw['active']), 'isRejectable': K(kw['rejectable']), 'getVariables': S('vars ' + r),
                 'getKey': K(33), 'getState': S('state')}.get(m)
            if x is not None:
                return [(x, st)]
        if r in ('O', 'O2'):
            x = {'getName': K({'O': 'rover1', 'O2': 'rover2'}[r]), 'getType': K('Rover'), 'getVariables': S('vars ' + r), 'getKey': K(34)}.get(m)
            if x is not None:
                return [(x, st)]
        if r == 'C':
            if m == 'getName':
                return [(K('allDiff'), st)]
            if m == 'getScope':
                return [(S('scope'), st)]
        if r in ('D', 'L'):
            x = {'isEmpty': K(kw.get('empty', False)), 'getTypeName': K('int'), 'isSingleton': K(r == 'L' and kw.get('singleton', False)), 'getSingletonValue': S('the value'), 'getLowerBound': S('lb')}.get(m)
            if x is not None:
                return [(x, st)]
        if m in ('abstractDomainAsXml', 'domainValueAsXml'):
            x, st = self.new(K('domain'), st, ('of', a[0] if m == 'abstractDomainAsXml' else S('only ' + vs(a[-1]))))
            return [(S(x), st)]
        if m in ('xmlAsDomain',):
            return [(S('domain(%s)' % vs(st.store.get(vs(a[0]) + '.@of', NULL))), st)]
        if r.startswith('domain('):
            if m == 'isSingleton':
                return [(K('only' in r), st)]
            if m == 'getSingletonValue':
                return [(S(r[12:-1]), st)]
        if r == 'state' and m in ('baseDomain', 'lastDomain', 'derivedDomain'):
            return [(S('state domain'), st)]
        if m == 'isMember' and r.startswith('state'):
            return [(K(kw['rejectable']), st)]
        if m == 'precision' and r.startswith('stream') and k0 is not None:
            st = st.cp()
            st.store[r + '.#prec'] = a[0]
            return [(K(6), st)]
        if m == 'propagate':
            return [(K(True), st)]
        if m in ('atoi', 'strtol') and k0 is not None:
            return [(K(int(re.match(r'\d*', k0).group(0) or 0)), st)]
        if m == 'tokenize' and k0 is not None and a[2][0] == 'k' and ev.args[1][0] in ('ref', 's'):
            st = st.cp()
            st.conts[ev.args[1][1]] = (tuple(K(x) for x in k0.split(a[2][1])), True)
            return [(S('void'), st)]
        if m == 'str' and re.match(r'^stream\d+$', r):
            return [(st.store[r], st)]
        if m == 'createToken' and 'm_client' in r:
            return [(S('new token'), st)]
        if m == 'createVariable' and 'm_client' in r:
            return [(S('V'), st)]
        if m == 'createObject' and 'm_client' in r:
            return [(S('O'), st)]
        return strings(ev, st, fl)

    def record(self, ev, st, fl):
        if ev.kind == 'call' and 'm_client' in ev.recv and ev.m in OPS:
            out = []
            for x in ev.args:
                x = fl.deref(x, st)
                c = st.conts.get(vs(x))
                out.append(tuple(vs(y) for y in c[0]) if c else vs(x).strip("'"))
            return ('op', ev.m) + tuple(out)
        if ev.kind == 'cins' and ev.recv == BUF:
            return ('logged', vs(ev.args[-1]))
        if ev.kind == 'cdel' and ev.recv == BUF:
            return ('unlogged', vs(ev.args[-1]) if ev.args else '')

    def start(self, ck, **store):
        q = Seq(ck, self.record, scope=SC, value_of=self.val, self_cls=LOG, assume=distinct('this.m_client', *(ENT + tuple('X%d' % i for i in range(40)) + ('is',) + tuple('domain(%s)' % d for d in ('D', 'L', 'D2', 'only the value')))), sat=60, trip=12)
        q.fl.value_ctor = q.fl.value_new = self.made
        q.fl.stream = self.stream
        q.fl.grow = 16
        s = q.runs[0].st
        s.conts['scope'] = (tuple(S(v) for v in self.kw['scope']), True)
        s.conts['$1'] = (tuple(S(v) for v in self.kw['doms']), True)
        s.conts['vars T3'] = (tuple(S(x) for x in ('U0', 'U1', 'VT')), True)
        s.conts['vars O2'] = (tuple(S(x) for x in ('U3', 'VO')), True)
        s.conts['vars T'] = s.conts['vars T2'] = s.conts['vars O'] = (tuple(S(x) for x in ('U4', 'U5', 'U6')), True)
        s.conts[BUF] = ((), True)
        s.store['this.m_tokensCreated'] = K(0)
        s.store['this.m_chronologicalBacktracking'] = K(False)
        for k in ('m_tokens', 'm_variables', 'm_filters', 'm_relations'):
            s.conts['this.' + k] = ((), True)
        s.store.update(store)
        return q


def logfn(ck, name, np):
    return fn_of(ck, '%s::%s' % (LOG, name), np=np)


def run(ck):
    r1 = ck.rule('replay', 'the record of an operation, replayed, is that operation on the same entities with the same arguments', 20)
    r2 = ck.rule('rewind', 'rewinding a record takes the operation back: what was made goes, what was undone is made again from its own record', 30)
    r3 = ck.rule('history', 'with chronological backtracking taking an operation back removes exactly its record, otherwise it is recorded', 8)
    r4 = ck.rule('values', 'a domain written into the log is read back as the same domain', 12)
    CASES = [
        ('variable created', 'notifyVariableCreated', ['V'], {}, [('createVariable', 'int', 'domain(D)', 'v1')]),
        ('variable created, empty domain', 'notifyVariableCreated', ['V'], dict(empty=True), [('createVariable', 'int', 'v1')]),
        ('variable deleted', 'notifyVariableDeleted', ['V'], {}, [('deleteVariable', 'V')]),
        ('variable deleted', 'notifyVariableDeleted', ['W'], {}, [('deleteVariable', 'W')]),
        ('object created', 'notifyObjectCreated', ['O'], {}, [('createObject', 'Rover', 'rover1', ())]),
        ('object created with arguments', 'notifyObjectCreated', ['O2', None], dict(doms=('D', 'D2')), [('createObject', 'Rover', 'rover2', ('domain(D)', 'domain(D2)'))]),
        ('object deleted', 'notifyObjectDeleted', ['O'], {}, [('deleteObject', 'O')]),
        ('database closed', 'notifyClosed', [], {}, [('close',)]),
        ('type closed', 'notifyClosed', [K('Rover')], {}, [('close', 'Rover')]),
        ('goal created', 'notifyTokenCreated', ['T'], {}, [('createToken', 'Rover.At', None, 'true', 'false')]),
        ('mandatory goal created', 'notifyTokenCreated', ['T'], dict(rejectable=False), [('createToken', 'Rover.At', None, 'false', 'false')]),
        ('fact created', 'notifyTokenCreated', ['T'], dict(fact=True, rejectable=False), [('createToken', 'Rover.At', None, 'false', 'true')]),
        ('token deleted', 'notifyTokenDeleted', ['T', K('')], {}, [('deleteToken', 'T')]),
        ('named token deleted', 'notifyTokenDeleted', ['T2', K('tok')], {}, [('deleteToken', 'T2')]),
        ('constrained', 'notifyConstrained', ['O', 'T', 'T2'], {}, [('constrain', 'O', 'T', 'T2')]),
        ('constrained', 'notifyConstrained', ['O2', 'T3', 'T'], {}, [('constrain', 'O2', 'T3', 'T')]),
        ('constrained alone', 'notifyConstrained', ['O', 'T', 'T'], {}, [('constrain', 'O', 'T', 'T')]),
        ('freed', 'notifyFreed', ['O', 'T3', 'T2'], {}, [('free', 'O', 'T3', 'T2')]),
        ('activated', 'notifyActivated', ['T3'], {}, [('activate', 'T3')]),
        ('merged', 'notifyMerged', ['T', 'T2'], {}, [('merge', 'T', 'T2')]),
        ('rejected', 'notifyRejected', ['T2'], {}, [('reject', 'T2')]),
        ('cancelled', 'notifyCancelled', ['T2'], {}, [('cancel', 'T2')]),
        ('constraint created', 'notifyConstraintCreated', ['C'], dict(scope=('V', 'VT', 'VO')), [('createConstraint', 'allDiff', ('V', 'VT', 'VO'))]),
        ('constraint created', 'notifyConstraintCreated', ['C'], dict(scope=('VO', 'W')), [('createConstraint', 'allDiff', ('VO', 'W'))]),
        ('constraint deleted', 'notifyConstraintDeleted', ['C'], dict(scope=('V', 'VT')), [('deleteConstraint', 'C')]),
        ('variable reset', 'notifyVariableReset', ['VT'], {}, [('reset', 'VT')]),
        ('variable reset', 'notifyVariableReset', ['V'], {}, [('reset', 'V')]),
        ('variable specified', 'notifyVariableSpecified', ['VO'], dict(singleton=True), [('specify', 'VO', 'the value')]),
        ('variable restricted', 'notifyVariableRestricted', ['VT'], {}, [('restrict', 'VT', 'domain(D)')]),
        ('variable restricted', 'notifyVariableRestricted', ['W'], {}, [('restrict', 'W', 'domain(D)')]),
    ]
    play = fn_of(ck, PL + '::processTransaction', np=1)
    seen = {}
    for what, note, args, kw, want in CASES:
        w = World(**kw)
        q = w.start(ck)
        f = logfn(ck, note, len(args))
        ps = q.call(f, args=[S(x) if isinstance(x, str) else x for x in args])
        bad, n = None, 0
        for p in ps:
            if p.outcome != 'ret':
                bad = bad or 'the log refuses it [%s]' % p.why()[-100:]
                continue
            el, c = p.st.conts.get(BUF, ((), False))
            if len(el) != 1 or not c:
                bad = bad or 'writes %d records' % len(el)
                continue
            q.fl.self_cls = PL
            for p2 in q.call(play, args=[el[0]], paths=[p]):
                n += 1
                got = [t[1:] for t in p2.trace if t[0] == 'op']
                if p2.outcome != 'ret':
                    bad = bad or 'the player refuses it [%s]' % p2.why()[-140:]
                elif not same(got, want):
                    bad = bad or 'replayed as %s, it was %s' % (show(got), show(want))
            q.fl.self_cls = LOG
        i = seen[what] = seen.get(what, 0) + 1
        ck.ob(r1, what if i == 1 else '%s %d' % (what, i), bad is None and n, bad or 'no replay', ck.where(f))
    covered(ck, r1)
    silent(ck, r1)
    values(ck, r4)
    whole(ck, r1)
    inverse(ck, r2)
    undone(ck, r2)
    popped(ck, r3)


def written(q, p, note, args, ck):
    """the paths of the log recording one more operation"""
    q.fl.self_cls = LOG
    return q.call(logfn(ck, note, len(args)), args=[S(x) if isinstance(x, str) else x for x in args], paths=[p])


def records(ck, w, notes, **store):
    """(driver, path) after the log recorded the operations in order"""
    q = w.start(ck, **store)
    p = q.runs[0]
    for note, args in notes:
        ps = written(q, p, note, args, ck)
        if len(ps) != 1 or ps[0].outcome != 'ret':
            raise Broken('%s: %s' % (note, [(x.outcome, x.why()[-80:]) for x in ps]))
        p = ps[0]
    return q, p


def covered(ck, rid):
    """every operation the client publishes is one the log writes down"""
    for f in sorted((f for q, fs in ck.P.byq.items() if q.startswith('DbClientListener::notify') for f in fs), key=lambda f: (f['sq'], len(f['p']))):
        n = f['sq'].split('::')[-1]
        if n == 'notifyMerged' and len(f['p']) == 1:
            continue        # never published
        has = [g for g in ck.P.byq.get('%s::%s' % (LOG, n), []) if [p['t'] for p in g['p']] == [p['t'] for p in f['p']]]
        ck.ob(rid, '%s/%d is recorded' % (n, len(f['p'])), bool(has), 'the log does not write this operation down, so it is lost in a replay', ck.where(f))


def silent(ck, rid):
    for note in ('notifyVariableCreated', 'notifyVariableDeleted', 'notifyVariableSpecified', 'notifyVariableRestricted', 'notifyVariableReset'):
        q, p = records(ck, World(internal=True, singleton=True), [(note, ['V'])])
        el, c = p.st.conts[BUF]
        ck.ob(rid, '%s of an internal variable' % note, c and not el, 'writes %d records for a variable the player cannot find' % len(el), ck.where(logfn(ck, note, 1)))


# type -> (is an object type, its values)
TYPES = {'bool': (False, (K(0), K(1))), 'int': (False, (K(3), K(7), K(12))), 'float': (False, (K(3), K(7), K(12))), 'Odd': (False, (K(3), K(5), K(7))), 'string': (False, ('word:a', 'word:b', 'word:c')),
         'Color': (False, ('word:red', 'word:green', 'word:blue')), 'Rover': (True, ('object:rover1', 'object:rover2'))}
NUM = ('bool', 'int', 'float', 'Odd')
PINF, MINF = 4503599627370495, -4503599627370495
INF = {'-inf': K(MINF), '+inf': K(PINF), 'inf': K(PINF)}


class Values(World):
    """a domain of a type with some values"""
    def __init__(self, typ, shape, vals):
        World.__init__(self)
        self.typ, self.shape, self.vals = typ, shape, [S(v) if isinstance(v, str) else v for v in vals]

    def made(self, ev, st, fl):
        m = re.search(r'(\w*Domain)$', ev.name)
        if m:
            a = [fl.deref(x, st) for x in ev.args]
            st = st.cp()
            n = st.store.get('#d', K(0))[1]
            st.store['#d'] = K(n + 1)
            d = 'P%d' % n
            st.store[d + '.#of'] = next((x for x in a if vs(x).startswith('type ')), S('no type'))
            for x in a:
                c = st.conts.get(vs(x))
                if c is not None:
                    st.conts[d + '.has'] = c
                elif vs(x).startswith(('object:', 'word:')) or x[0] == 'k' and type(x[1]) is int:
                    st.conts[d + '.has'] = ((x,), True)
            return [(S(d), st)]
        return World.made(self, ev, st, fl)

    def word(self, v):
        return vs(v).split(':', 1)[-1]

    def val(self, ev, st, fl):
        m, r = ev.m, ev.recv
        a = [fl.deref(x, st) for x in ev.args]
        k0 = a[0][1] if a and a[0][0] == 'k' else None
        if m in ('abstractDomainAsXml', 'domainValueAsXml', 'xmlAsDomain'):
            return None
        if r == 'D':
            x = {'isEmpty': K(False), 'isSingleton': K(self.shape == 'single'), 'isEnumerated': K(self.shape != 'interval'), 'isInterval': K(self.shape == 'interval'), 'getTypeName': K(self.typ),
                 'isNumeric': K(self.typ in NUM), 'isBool': K(self.typ == 'bool'), 'getSingletonValue': self.vals[0], 'getLowerBound': self.vals[0], 'getUpperBound': self.vals[-1], 'isSymbolic': K(self.typ not in NUM),
                 'minDelta': K(1), 'getDataType': S('type ' + self.typ)}.get(m)
            if x is not None:
                return [(x, st)]
            if m == 'getValues':
                st = st.cp()
                st.conts[ev.args[0][1]] = (tuple(self.vals), True)
                return [(S('void'), st)]
        if m == 'isObjectType':
            return [(K(TYPES.get(k0, (False,))[0]), st)]
        if m == 'isString' and 'LabelStr' in ev.name:
            return [(K(vs(a[0]).startswith('word:')), st)]
        if m in ('toString', 'c_str') and r.startswith('word:'):
            return [(K(self.word(S(r))), st)]
        if m == 'getTypedEntity' or m == 'getEntity':
            return [(a[0], st)]
        if r.startswith('object:'):
            x = {'getName': K(self.word(S(r))), 'getKey': S(r), 'getType': K('SubRover' if r.endswith('2') else 'Rover'), 'isValid': K(True), 'isNoId': K(False)}.get(m)
            if x is not None:
                return [(x, st)]
        if m in ('cast_int', 'cast_long', 'cast_double', 'cast_basis'):
            return [(a[0], st)]
        if m == 'getObject':
            return [(S('object:%s' % k0), st)]
        if m == 'createValue':
            t, w = a[0][1], a[1][1]
            if t == 'bool':
                v = {'true': K(1), 'false': K(0)}.get(w, S('no bool ' + str(w)))
            elif t in NUM:
                v = INF.get(w) or (K(int(float(w))) if re.match(r'^-?\d{1,9}$|^-?[\d.]+e[+-]\d+$', str(w)) and abs(float(w)) < 1e9 else S('no number ' + str(w)))
            else:
                v = S('word:' + str(w))
            return [(v, st)]
        if m == 'NAME':
            return [(K({'BoolDT': 'bool', 'IntDT': 'int', 'FloatDT': 'float', 'StringDT': 'string', 'SymbolDT': 'symbol'}.get(ev.name.split('::')[-2], '?')), st)]
        if m == 'getDataType':
            return [(S('type %s' % k0), st)]
        if m in ('baseDomain', 'getBaseDomain', 'isDataType') and k0 is not None:
            return [(K(True) if m == 'isDataType' else S('base %s' % k0), st)]
        if r.startswith('base '):
            t = r[5:]
            if m == 'copy':
                st = st.cp()
                n = st.store.get('#d', K(0))[1]
                st.store['#d'] = K(n + 1)
                d = 'P%d' % n
                st.store[d + '.#of'] = S('type ' + t)
                st.store[d + '.#open'] = K(t == 'string')
                return [(S(d), st)]
            x = {'minDelta': K(1), 'isNumeric': K(t in NUM), 'isBool': K(t == 'bool'), 'isSymbolic': K(t not in NUM), 'isString': K(t == 'string'), 'isOpen': K(t == 'string'), 'getDataType': S('type ' + t)}.get(m)
            if x is not None:
                return [(x, st)]
        if re.match(r'^P\d+$', r):
            if m in ('isOpen',):
                return [(st.store.get(r + '.#open', K(False)), st)]
            if m in ('isMember',):
                return [(K(not st.store.get(r + '.#open', K(False))[1]), st)]
            if m == 'insert':
                st = st.cp()
                st.store[r + '.#open'] = K(False)
                return [(S('void'), st)]
            if m in ('set', 'intersect'):
                st = st.cp()
                st.conts[r + '.has'] = (tuple(a), True)
                return [(K(True), st)]
        if m in ('numeric_limits', 'plus_infinity', 'infinity', 'minus_infinity'):
            return [(K(MINF if 'minus' in m else PINF), st)]
        return World.val(self, ev, st, fl)


def values(ck, rid):
    wr, rd = fn_of(ck, LOG + '::abstractDomainAsXml', np=1), fn_of(ck, PL + '::xmlAsDomain')
    CASES = []
    for t, (obj, vals) in TYPES.items():
        CASES += [(t, 'single', (v,)) for v in vals] + [(t, 'set', tuple(vals[:n])) for n in range(2, len(vals) + 1)]
        if t in ('int', 'float'):
            CASES += [(t, 'single', (K(123456789),)), (t, 'interval', (K(-1234567), K(7654321)))]
        if t in ('int', 'float', 'Odd'):
            CASES += [(t, 'interval', (K(3), K(7))), (t, 'interval', (K(MINF), K(PINF))), (t, 'interval', (K(2), K(PINF)))]
    for t, shape, vals in CASES:
        w = Values(t, shape, vals)
        q = w.start(ck)
        q.fl.assume = {}
        s = q.runs[0].st
        fl = q.fl
        for a, v in distinct(*(['P%d' % i for i in range(4)] + ['D'] + [v for x in TYPES.values() for v in x[1] if isinstance(v, str)])).items():
            s.facts[a] = v
        s.facts.update({'isa<IntervalDomain>(P%d)' % i: True for i in range(4)})
        s.store.update({'PLUS_INFINITY': K(PINF), 'MINUS_INFINITY': K(MINF)})
        bad, n = None, 0
        for p in q.call(wr, args=[S('D')]):
            if p.outcome != 'ret':
                bad = bad or 'the log refuses it [%s]' % p.why()[-100:]
                continue
            q.fl.self_cls = PL
            for p2 in q.call(rd, args=[p.val, NULL, NULL], paths=[p]):
                n += 1
                if p2.outcome != 'ret':
                    bad = bad or 'the player refuses it [%s]' % p2.why()[-140:]
                    continue
                d = vs(p2.val)
                el, c = p2.st.conts.get(d + '.has', ((), False))
                of = vs(p2.st.store.get(d + '.#of', S('no type')))
                want = tuple(vs(x) for x in w.vals)
                if tuple(vs(x) for x in el) != want or not c:
                    bad = bad or 'is read back as {%s}' % ', '.join(vs(x) for x in el)
                elif of != 'type ' + t and not TYPES[t][0] and not (t in NUM and of[5:] in NUM):
                    bad = bad or 'is read back with %s' % of
            q.fl.self_cls = LOG
        ck.ob(rid, '%s of %s {%s}' % (shape, t, ', '.join(vs(x) for x in w.vals)), bad is None and n, bad or 'no result', ck.where(rd))


SESSION = [('notifyVariableCreated', ['V']), ('notifyObjectCreated', ['O']), ('notifyClosed', []), ('notifyTokenCreated', ['T']), ('notifyActivated', ['T']), ('notifyConstrained', ['O', 'T', 'T2']),
           ('notifyVariableRestricted', ['W'])]
DONE = ['createVariable', 'createObject', 'close', 'createToken', 'activate', 'constrain', 'restrict']


def stream_of(q, n):
    """an input stream holding the n records of the log"""
    old, olds = q.fl.value_of, q.fl.stream

    def left(st):
        return n - st.store.get('#read', K(0))[1]

    def val(ev, st, fl):
        if ev.recv == 'is' or ev.recv.startswith('is.'):
            if ev.m in ('eof', 'fail', 'operator!'):
                return [(K(left(st) == 0), st)]
            if ev.m in ('good', 'operator bool'):
                return [(K(left(st) > 0), st)]
            if ev.m in ('peek', 'get'):
                return [(K(ord('<') if left(st) else -1), st)]
        if ev.m == 'getBufferedTransactions':
            return [(S(BUF), st)]
        return old(ev, st, fl)

    def stream(op, x, y, node, st, fl):
        if op == '>>' and vs(x) == 'is':
            if not left(st):
                return [(S('is'), st)]
            st = st.cp()
            k = st.store.get('#read', K(0))[1]
            st.store['#read'] = K(k + 1)
            src, dst = vs(st.conts['file'][0][k]), vs(fl.deref(y, st))
            m = re.match(r'^\*(X\d+)$', dst)
            dst = m.group(1) if m else dst
            if not XE.match(dst):
                raise Broken('reads into %s' % dst)
            for key, v in list(st.store.items()):
                if key.startswith((src + '.@', src + '.#')):
                    st.store[dst + key[len(src):]] = v
            st.conts[dst + '.kids'] = st.conts[src + '.kids']
            for c in st.conts[src + '.kids'][0]:
                st.store[vs(c) + '.#up'] = S(dst)
            return [(S('is'), st)]
        return olds(op, x, y, node, st, fl)
    q.fl.value_of, q.fl.stream = val, stream


def whole(ck, rid):
    for f in ck.P.byq[PL + '::play']:
        q, p = records(ck, World(), SESSION)
        st = p.st.cp()
        st.conts['file'] = st.conts[BUF]
        stream_of(q, len(SESSION))
        q.fl.self_cls = PL
        bad = None
        log = 'Log' in f['p'][0]['t']
        out = q.call(f, args=[S('log') if log else S('is')], paths=[Path('ret', None, st)])
        for p2 in out:
            if p2.outcome != 'ret' and p2.why() == '!is':
                continue        # not a file
            got = [t[1] for t in p2.trace if t[0] == 'op']
            if p2.outcome != 'ret' or got != DONE:
                bad = bad or 'the operations %s are replayed as %s' % (DONE, got)
        ck.ob(rid, 'a whole log in order, %s' % ('in memory' if log else 'from a file'), bad is None and out, bad or 'no path', ck.where(f))


def undone(ck, rid):
    """rewinding a log takes all its operations back, the last first, or those after the last breakpoint"""
    for f in ck.P.byq[PL + '::rewind']:
        log = 'Log' in f['p'][0]['t']
        for brk in (False, True):
            q, p = records(ck, World(), SESSION)
            el = list(p.st.conts[BUF][0])
            st = p.st.cp()
            x, st = World().new(K('breakpoint'), st)
            el.insert(4, S(x))
            st.conts['file'] = st.conts[BUF] = st.conts['log.m_bufferedTransactions'] = (tuple(el), True)
            stream_of(q, len(el))
            val = q.fl.value_of
            q.fl.value_of = lambda ev, st, fl: ([(S('log.m_bufferedTransactions'), st)] if ev.m == 'getBufferedTransactions' else val(ev, st, fl))
            q.fl.self_cls = PL
            bad = None
            out = q.call(f, args=[S('log') if log else S('is'), K(brk)], paths=[Path('ret', None, st)])
            want = ['free', 'cancel'] if brk else ['free', 'cancel', 'deleteToken', 'deleteObject', 'deleteVariable']
            for p2 in out:
                if p2.outcome != 'ret' and p2.why() == '!is':
                    continue
                got = [t[1] for t in p2.trace if t[0] == 'op']
                if p2.outcome != 'ret' or got != want:
                    bad = bad or 'the operations %s are rewound as %s%s' % (DONE, got, '' if p2.outcome == 'ret' else ' [%s]' % p2.why()[-140:])
                elif log and not brk and p2.st.conts['log.m_bufferedTransactions'][0]:
                    bad = bad or 'the log keeps the records of operations taken back'
            ck.ob(rid, 'a whole log%s, %s' % (' to its breakpoint' if brk else '', 'in memory' if log else 'from a file'), bad is None and out, bad or 'no path', ck.where(f))


def inverse(ck, rid):
    f = [g for g in ck.P.byq[PL + '::processTransactionInverse'] if 'reverse_iterator' not in g['p'][1]['t']]
    g = [g for g in ck.P.byq[PL + '::processTransactionInverse'] if 'reverse_iterator' in g['p'][1]['t']]
    if not f or not g:
        raise Broken('rewinding is not found')
    cv, cw = ('notifyVariableCreated', ['V']), ('notifyVariableCreated', ['W'])
    act, mer, rej, can = (('notify' + x, ['T2'] + (['T'] if x == 'Merged' else [])) for x in ('Activated', 'Merged', 'Rejected', 'Cancelled'))
    con = ('notifyConstrained', ['O', 'T', 'T2'])
    CASES = [
        ('variable created', {}, [cv], [('deleteVariable', 'V')]),
        ('variable deleted', {}, [cv, cw, ('notifyVariableDeleted', ['V'])], [('createVariable', 'int', 'domain(D)', 'v1')]),
        ('variable deleted 2', {}, [cw, cv, ('notifyVariableDeleted', ['W'])], [('createVariable', 'int', 'domain(D)', 'v2')]),
        ('object created', {}, [('notifyObjectCreated', ['O'])], [('deleteObject', 'O')]),
        ('object deleted', {}, [('notifyObjectCreated', ['O']), ('notifyObjectCreated', ['O2']), ('notifyObjectDeleted', ['O'])], [('createObject', 'Rover', 'rover1', ())]),
        ('goal created', {}, [('notifyTokenCreated', ['T'])], [('deleteToken', 'T')]),
        ('fact created', dict(fact=True, rejectable=False), [('notifyTokenCreated', ['T2'])], [('deleteToken', 'T2')]),
        ('goal deleted', dict(fact='T2'), [('notifyTokenCreated', ['T']), ('notifyTokenCreated', ['T2']), act, ('notifyTokenDeleted', ['T', K('')])], [('createToken', 'Rover.At', None, 'true', 'false')]),
        ('fact deleted', dict(fact='T2'), [('notifyTokenCreated', ['T2']), ('notifyTokenCreated', ['T']), act, ('notifyTokenDeleted', ['T2', K('tok')])], [('createToken', 'Rover.At', None, 'false', 'true')]),
        ('constrained', {}, [con], [('free', 'O', 'T', 'T2')]),
        ('freed', {}, [con, ('notifyConstrained', ['O', 'T2', 'T']), ('notifyConstrained', ['O2', 'T', 'T2']), ('notifyConstrained', ['O', 'T', 'T3']), ('notifyConstrained', ['O', 'T3', 'T2']), ('notifyFreed', con[1])], [('constrain', 'O', 'T', 'T2')]),
        ('activated', {}, [act], [('cancel', 'T2')]),
        ('merged', {}, [mer], [('cancel', 'T2')]),
        ('rejected', {}, [rej], [('cancel', 'T2')]),
        ('cancelled after activate', {}, [rej, act, ('notifyActivated', ['T']), can], [('activate', 'T2')]),
        ('cancelled after merge', {}, [act, mer, ('notifyRejected', ['T']), can], [('merge', 'T2', 'T')]),
        ('cancelled after reject', {}, [act, rej, ('notifyMerged', ['T3', 'T2']), can], [('reject', 'T2')]),
        ('specified', dict(singleton=True), [('notifyVariableSpecified', ['VT'])], [('reset', 'VT')]),
        ('reset', dict(singleton=True), [('notifyVariableSpecified', ['VT']), ('notifyVariableSpecified', ['V']), ('notifyVariableReset', ['VT'])], [('specify', 'VT', 'the value')]),
        ('reset 2', dict(singleton=True), [('notifyVariableSpecified', ['V']), ('notifyVariableSpecified', ['W']), ('notifyVariableReset', ['V'])], [('specify', 'V', 'the value')]),
        ('constraint created', dict(scope=('V', 'VT')), [('notifyConstraintCreated', ['C'])], [('deleteConstraint', 'C')]),
        ('constraint deleted', dict(scope=('V', 'VT')), [('notifyConstraintCreated', ['C']), act, ('notifyConstraintDeleted', ['C'])], [('createConstraint', 'allDiff', ('V', 'VT'))]),
        ('closed', {}, [('notifyClosed', [])], []),
    ]
    for what, kw, notes, want in CASES:
        for fn in (f[0], g[0]):
            q, p = records(ck, World(**kw), notes)
            el = tuple(reversed(p.st.conts[BUF][0]))
            st = p.st.cp()
            st.conts['past'] = (el, True)
            q.fl.self_cls = PL
            bad, out = None, q.call(fn, args=[el[0], ('it', 'past', 0), ('it', 'past', 'end')], paths=[Path('ret', None, st)])
            for p2 in out:
                got = [t[1:] for t in p2.trace if t[0] == 'op']
                if p2.outcome != 'ret':
                    bad = bad or 'rewinding refuses it [%s]' % p2.why()[-140:]
                elif not same(got, want):
                    bad = bad or 'is rewound as %s, expected %s' % (show(got), show(want))
            ck.ob(rid, '%s, %s' % (what, 'file' if fn is f[0] else 'log'), bad is None and out, bad or 'no path', ck.where(fn))


def popped(ck, rid):
    """with chronological backtracking the record of the operation taken back goes, and only that"""
    first = ('notifyTokenCreated', ['T'])
    for what, note, un in (('free', ('notifyConstrained', ['O', 'T', 'T2']), ('notifyFreed', ['O', 'T', 'T2'])), ('cancel an activate', ('notifyActivated', ['T2']), ('notifyCancelled', ['T2'])),
                           ('cancel a merge', ('notifyMerged', ['T2', 'T']), ('notifyCancelled', ['T2'])), ('cancel a reject', ('notifyRejected', ['T2']), ('notifyCancelled', ['T2'])),
                           ('reset', ('notifyVariableSpecified', ['V']), ('notifyVariableReset', ['V']))):
        for chrono in (True, False):
            q, p = records(ck, World(singleton=True), [first, note, un], **{'this.m_chronologicalBacktracking': K(chrono)})
            n = len(p.st.conts[BUF][0])
            ck.ob(rid, '%s, %s' % (what, 'chronological' if chrono else 'full history'), n == (1 if chrono else 3), 'leaves %d records of an operation, what came before it and its undoing' % n, ck.where(logfn(ck, un[0], len(un[1]))))


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w[0] not in ('createToken', 'createVariable') and any(x for x in g[len(w):]):
            return False        # an argument too many (an empty one is a default)
        if len(g) < len(w) or any(y is not None and x != y for x, y in zip(g, w)):
            return False
    return True


def show(ops):
    return ', '.join('%s(%s)' % (o[0], ', '.join(map(str, o[1:]))) for o in ops) or 'nothing'
