"""Rules: instances per token, guards, execution, undo."""
import itertools
from vf.lib import *
MODULES = ['RulesEngine', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'handleExecute of a concrete rule adds what it creates through the operations of RuleInstance']
RI, RE = 'RuleInstance', 'RulesEngine'
SC = ('RulesEngine/base/RuleInstance.cc', 'RulesEngine/base/RulesEngine.cc', 'RulesEngine/base/RuleVariableListener.cc', 'RulesEngine/base/Rule.cc', 'RulesEngine/base/RuleInstance.hh', '/Utils.hh')
EXQ, UNQ = 'm_ruleInstancesToExecute', 'm_ruleInstancesToUndo'


def doms(d):
    """answers for domains given as sets of numbers d[name]; variables v have domains v.last and v.base"""
    def get(x):
        x = re.sub(r'^\*', '', x)
        if x in d:
            return d[x]
        if x + '.last' in d:
            return d[x + '.last']
        return None

    def val(ev, st, fl):
        m = ev.m
        if m in ('lastDomain', 'derivedDomain', 'getLastDomain') and ev.recv + '.last' in d:
            return [(S(ev.recv + '.last'), st)]
        if m == 'baseDomain' and ev.recv + '.base' in d:
            return [(S(ev.recv + '.base'), st)]
        if m == 'isSpecified' and ev.recv + '.spec' in d:
            return [(K(d[ev.recv + '.spec']), st)]
        a = get(ev.recv)
        if a is None:
            return None
        b = get(vs(ev.args[0])) if ev.args else None
        if m == 'isSingleton':
            return [(K(len(a) == 1), st)]
        if m == 'isEmpty':
            return [(K(not a), st)]
        if m == 'getSize':
            return [(K(len(a)), st)]
        if m in ('isFinite', 'areBoundsFinite', 'isClosed'):
            return [(K(True), st)]
        if m in ('isInfinite', 'isOpen'):
            return [(K(False), st)]
        if m == 'getSingletonValue' and len(a) == 1:
            return [(K(min(a)), st)]
        if m in ('getLowerBound', 'getUpperBound') and a and not ev.args:
            return [(K(min(a) if m == 'getLowerBound' else max(a)), st)]
        if m == 'isMember' and ev.args[0][0] == 'k':
            return [(K(ev.args[0][1] in a), st)]
        if b is not None:
            r = {'intersects': bool(a & b), 'isSubsetOf': a <= b, 'operator==': a == b, 'operator!=': a != b, 'equals': a == b}.get(m)
            if r is not None:
                return [(K(r), st)]
        return None
    return val


def both(*fs):
    def val(ev, st, fl):
        for f in fs:
            r = f(ev, st, fl)
            if r is not None:
                return r
        return None
    return val


def run(ck):
    r1 = ck.rule('guard', 'a guard holds exactly when documented: every guard variable decided, the guarded one inside (or, negated, outside) its values', 7)
    r2 = ck.rule('scheduling', 'a changed guard schedules the instance; after propagation each scheduled instance is executed if its guard holds, undone if not, once, and announced', 14)
    r3 = ck.rule('instances', 'activation creates one instance of each own and inherited rule, and deactivation, termination and removal are acted upon', 10)
    r4 = ck.rule('undo', 'undo and deletion take back what execution added', 12)
    guard(ck, r1)
    scheduling(ck, r2)
    instances(ck, r3)
    undoing(ck, r4)
    r5 = ck.rule('scope', 'what execution adds is recorded for undo and found by name, the own ones first', 20)
    r6 = ck.rule('pending', 'a token has pending rules exactly while one of its instances, or of their children, is not executed and may still fire', 20)
    scoping(ck, r5)
    pending(ck, r6)


def guard(ck, rid):
    f = fn_of(ck, RI + '::test', np=0)
    w = fn_of(ck, RI + '::willNotFire', np=0)

    def ask(fn, gs, gd, pos, d):
        st = St()
        st.conts['this.m_guards'] = (tuple(S(g) for g in gs), True)
        ass = dict(distinct('G0', 'G1', 'this.m_rule', 'this.m_token', 'GD'))
        ass.update({'this.m_guardDomain': S('GD') if gd else NULL, 'this.m_isPositive': K(pos)})
        for g in gs:
            ass[g + '.m_specifiedFlag'] = K(d[g + '.spec'])
        q = Seq(ck, scope=SC, record=rec(), self_cls=RI, st=st, value_of=doms(d), assume=ass, sizes=(0, 1))
        return q.ask(fn, q.runs[0])
    kinds = [(False, {1, 2, 3}, {1, 2}), (False, {3, 4}, {3, 4}), (False, {1}, {1}), (False, {4}, {4}), (True, {1, 2}, {2}), (True, {3, 4}, {4}), (False, {1, 2}, {2}), (False, {3, 4}, {4}), (False, {1, 3}, {1, 3}), (False, {2,3}, set())]
    for n in (0, 1, 2):
        gs = ['G%d' % i for i in range(n)]
        for gd in (None, {1, 2}) if n else (None,):
            for pos in (True, False) if gd else (True,):
                bad = None
                for combo in itertools.product(kinds, repeat=n):
                    d = {'GD': gd or set()}
                    for g, (s, b, l) in zip(gs, combo):
                        d.update({g + '.spec': s, g + '.base': b, g + '.last': l})
                    dec = [s or len(b) == 1 for s, b, l in combo]
                    single = [len(l) == 1 for s, b, l in combo]
                    if gd:
                        l = combo[0][2]
                        want = all(dec[1:]) and (((l <= gd) == pos) if single[0] else (not pos and not (l & gd)))
                    else:
                        want = all(dec)
                    no = all(single) and (not gs or not want)
                    for fn, exp, nm in ((f, want, 'test'), (w, no, 'willNotFire')):
                        if nm == 'test' and not n:
                            continue
                        got = {b for b, q in ask(fn, gs, gd, pos, d)}
                        if got != {exp}:
                            bad = bad or ('%s answers %s for %s' % (nm, sorted(got), d))
                ck.ob(rid, '%d guards, %s%s' % (n, 'values' if gd else 'no values', '' if pos else ', negated'), bad is None, bad or '', ck.where(f))


def scheduling(ck, rid):
    """a change of a guard schedules the instance, and the queues are worked off completely after propagation"""
    vl = method(ck, 'RuleVariableListener', 'handleExecute', 0)
    for done in (False, True):
        q = Seq(ck, scope=SC, record=rec(calls=RI + '::(execute|undo)$'), self_cls='RuleVariableListener', assume=dict(distinct('R', 'E'), **{'this.m_ruleInstance': S('R'), 'R.m_rulesEngine': S('E'), 'R.m_id': S('R'), 'R.m_isExecuted': K(done)}), sizes=(0, 1))
        for n in (EXQ, UNQ):
            q.runs[0].st.conts['E.' + n] = ((S('Q0'),), True)
        q.call(vl)

        def pred(p):
            x, u = (each(p, 'E.' + n) for n in (EXQ, UNQ))
            mine = u if done else x
            return True if mine[:1] == ['Q0'] and 'R' in mine and (x if done else u) == ['Q0'] and not find(p, 'c') else 'queues %s and %s' % (x, u)
        ck.forall_paths(rid, 'guard changed, %s' % ('executed' if done else 'not executed'), vl, q.runs, pred, 'scheduled for %s' % ('undoing' if done else 'execution'))
    ci = fn_of(ck, 'RuleVariableListener::canIgnore', np=3)
    q = Seq(ck, scope=SC, record=rec(), self_cls='RuleVariableListener', assume=dict(distinct('R'), **{'this.m_ruleInstance': S('R')}), sizes=(0,))
    got = {b for b, p in q.ask(ci, q.runs[0])}
    ck.ob(rid, 'no change of a guard is ignored', got == {False}, 'canIgnore answers %s' % sorted(got), ck.where(ci))

    # ---- the callback after propagation
    cb = fn_of(ck, 'RulesEngineCallback::operator()', np=0)
    exe, undo = fn_of(ck, RI + '::execute', np=0), fn_of(ck, RI + '::undo', np=0)
    combos = [(False, True, False), (False, False, False), (True, False, False), (True, False, True), (True, True, False)]

    def drive(x, u, tab, assume=()):
        rs = sorted(set(x + u) - {'null'})
        ass = dict(distinct('E', *rs), **{'this.m_re': S('E'), 'E.m_executing': K(False)})
        ass.update(assume)
        for r in rs:
            ass[r + '.m_isExecuted'] = K(tab[r][0])
            ass[r + '.m_id'] = S(r)

        def val(ev, st, fl):
            if ev.recv in tab and ev.m == 'test':
                return [(K(tab[ev.recv][1]), st)]
            if ev.recv in tab and ev.m == 'hasEmptyGuard':
                return [(K(tab[ev.recv][2]), st)]
            if ev.recv in tab and ev.m in ('execute', 'undo'):
                s = st.cp()
                s.store[ev.recv + '.m_isExecuted'] = K(ev.m == 'execute')
                return [(S('void'), s)]
            return None
        q = Seq(ck, scope=SC, record=rec(calls=RI + '::(execute|undo)$'), self_cls='RulesEngineCallback', assume=ass, value_of=val, sizes=(0,))
        el = lambda r: NULL if r == 'null' else S(r)
        q.runs[0].st.conts.update({'E.' + EXQ: (tuple(map(el, x)), True), 'E.' + UNQ: (tuple(map(el, u)), True)})
        q.call(cb)
        return q.runs

    def judge(x, u, tab):
        bad = None
        for p in drive(x, u, tab):
            stt = {r: tab[r][0] for r in tab}
            want = []
            for r in x:
                if r != 'null' and not stt[r] and tab[r][1]:
                    want.append((r, 'execute'))
                    stt[r] = True
            for r in u:
                if r != 'null' and stt[r] and not tab[r][1] and not tab[r][2]:
                    want.append((r, 'undo'))
                    stt[r] = False
            got = sorted((t[2], t[1]) for t in p.trace if t[0] == 'c')
            ret = None if p.val is None else vs(p.val)
            if p.outcome != 'ret' or got != sorted(want):
                bad = 'does %s, expected %s (%s)' % (got or 'nothing', want or 'nothing', p.outcome)
            elif ret != str(bool(want)).lower():
                bad = 'answers %s although it did %s' % (ret, got or 'nothing')
            elif each(p, 'E.' + EXQ) or each(p, 'E.' + UNQ):
                bad = 'leaves %s and %s scheduled' % (each(p, 'E.' + EXQ), each(p, 'E.' + UNQ))
            elif fin(p, 'E.m_executing') not in ('false', 'E.m_executing'):
                bad = 'stays marked as executing'
        return bad
    bad = {}
    for c in combos:
        t = {'R0': c}
        for nm, x, u in (('execution queue', ['R0'], []), ('undo queue', [], ['R0']), ('both queues', ['R0'], ['R0']), ('twice', ['R0', 'R0'] if not c[0] else [], ['R0', 'R0'] if c[0] else [])):
            bad.setdefault(nm, None)
            bad[nm] = bad[nm] or judge(x, u, t)
        for c2 in combos:
            t = {'R0': c, 'R1': c2}
            for nm, x, u in (('two to execute', ['R0', 'R1'], []), ('two to undo', [], ['R0', 'R1']), ('one of each', ['R0'], ['R1'])):
                bad.setdefault(nm, None)
                bad[nm] = bad[nm] or judge(x, u, t)
        bad['blank entry'] = bad.get('blank entry') or judge(['null', 'R0'], ['null', 'R0'], {'R0': c})
    bad['nothing to do'] = judge([], [], {})
    for nm, b in sorted(bad.items()):
        ck.ob(rid, 'callback: ' + nm, b is None, b or '', ck.where(fn_of(ck, RE + '::doRules', np=0)))

    # ---- an instance that goes away leaves the queues
    dt = [f for f in ck.P.fns.values() if f.get('dtor') and short(f.get('cls', '')) == RI]
    if len(dt) != 1:
        raise Broken('destructor of RuleInstance')
    q = Seq(ck, scope=SC, record=rec(), self_cls=RI, assume=dict(distinct('R', 'E', 'R1'), **{'this.m_rulesEngine': S('E'), 'this.m_id': S('R'), 'this.m_isExecuted': K(False), 'Entity::isPurging()': False, 'eq(this.m_token,null)': False,
                                                                      'this.m_guardListener': NULL, 'this.m_guardDomain': NULL}), sizes=(0,))
    for n in (EXQ, UNQ):
        q.runs[0].st.conts['E.' + n] = ((S('R1'), S('R'), S('R')), True)
    q.call(dt[0], 'this')

    def pred(p):
        for n in (EXQ, UNQ):
            e = [x for x in each(p, 'E.' + n) if x != 'null']
            if e != ['R1']:
                return '%s ends as %s' % (n, e)
        return True
    ck.forall_paths(rid, 'deleted while scheduled', dt[0], q.runs, pred, 'a deleted instance leaves the queues')

    # ---- execution itself
    for nm, f in (('execute', exe),):
        ps, fl = ck.flow(f, scope=SC, record=rec(calls=r'::(handleExecute|notifyExecuted)$', writes='m_isExecuted$'), assume=dict(distinct('E', 'L0'), **{'this.m_isExecuted': K(False), 'this.m_rulesEngine': S('E')}), sizes=(0, 1), self_cls=RI, cont_init={'E.m_listeners': (2,)})

        def pred(p):
            h = find(p, 'c', 'handleExecute', 'this')
            ls = each(p, 'E.m_listeners') or []
            if not ls:
                return 'listeners are not visited'
            n = [t for t in p.trace if t[0] == 'c' and t[1] == 'notifyExecuted' and t[2] in (ls or [])]
            if len(h) != 1:
                return 'the body is executed %d times' % len(h)
            if fin(p, 'this.m_isExecuted') != 'true':
                return 'is not marked as executed'
            if sorted(t[2] for t in n) != sorted(ls) or any(t[3][0] != 'this.m_id' for t in n):
                return 'announced to %s of %s' % ([t[2:4] for t in n], ls)
            return order(p, lambda t: t[1] == 'handleExecute', lambda t: t[0] == 'c' and t[1] == 'notifyExecuted' and t[2] in ls) or 'announced before it is executed'
        ck.forall_paths(rid, nm, f, ps, pred, 'executed once and announced')
    sr = fn_of(ck, RI + '::setRulesEngine', np=1)
    for n in (0, 1):
        q = Seq(ck, scope=SC, record=rec(calls='::(execute|undo)$'), self_cls=RI, assume=dict(distinct('E'), **{'this.m_rulesEngine': NULL}), sizes=(0, 1), opaque={RI + '::execute', RI + '::test'})
        q.runs[0].st.conts['this.m_guards'] = (tuple(S('G%d' % i) for i in range(n)), True)
        q.call(sr, args=(S('E'),))
        ck.forall_paths(rid, 'attached %s guard' % ('with a' if n else 'without'), sr, q.runs, lambda p: fin(p, 'this.m_rulesEngine') != 'E' and 'the engine is not kept' or len(find(p, 'c', 'execute', 'this')) == (0 if n else 1) or 'executed %d times' % len(find(p, 'c', 'execute', 'this')), 'executes at once exactly if nothing guards it')


def names(st, loc):
    """{name: value} of a map with constant keys"""
    c = st.conts.get(loc)
    return None if c is None else {vs(x[1]).strip('\'"'): vs(x[2]) for x in c[0] if x[0] == 'pair'}


def handler_of(ck, rid, inst, cls, name, sub, np=None):
    """the handler cls itself has for an announcement; its absence is a violation"""
    fs = [f for f in ck.P.byq.get(cls + '::' + name, []) if (np is None or len(f['p']) == np) and f['p'] and sub in f['p'][0]['t']]
    if len(fs) != 1:
        c = [f for f in ck.P.fns.values() if short(f.get('cls', '')) == cls]
        if not c:
            raise Broken('no class ' + cls)
        ck.ob(rid, inst, False, '%s does not act on %s' % (cls, name), ck.where(c[0]))
        return None
    return fs[0]


def instances(ck, rid):
    # ---- which rules apply
    f = fn_of(ck, 'RuleSchema::getRules', np=3)

    def val(ev, st, fl):
        par = {'B': 'A', 'C': 'B'}
        if ev.m == 'hasParent':
            return [(K(par.get(vs(ev.args[0]).strip('\'"')) is not None), st)]
        if ev.m == 'getParent':
            return [(K(par[vs(ev.args[0]).strip('\'"')]), st)]
        if ev.m == 'getName' and ev.recv[0] == 'r':
            return [(K(ev.recv[1]), st)]
        if ev.m == 'createInstance':
            return [(S('instance of %s' % ev.recv), st)]
        if ev.m == 'getPredicateName':
            return [(K('C'), st)]
        if ev.m == 'isActive':
            return [(K(True), st)]
        return None
    ass = distinct('rA0', 'rA1', 'rB0', 'rC0', 'rD0')
    table = tuple(('pair', K(n[1]), S(n)) for n in ('rA0', 'rA1', 'rB0', 'rC0', 'rD0'))
    for name, want in (('A', ['rA0', 'rA1']), ('B', ['rA0', 'rA1', 'rB0']), ('C', ['rA0', 'rA1', 'rB0', 'rC0']), ('D', ['rD0']), ('E', [])):
        q = Seq(ck, rec(), scope=SC, self_cls='RuleSchema', value_of=val, assume=ass, recur=3, trip=8, sat=20, sizes=(0, 1))
        q.runs[0].st.conts.update({'this.m_rulesByName': (table, True), 'RES': ((), True)})
        q.call(f, args=(S('PDB'), K(name), S('RES')))
        ck.forall_paths(rid, 'rules of predicate %s' % name, f, q.runs, lambda p: (each(p, 'RES') == want) or 'finds %s, expected %s' % (each(p, 'RES'), want), 'own and inherited rules, inherited ones first')
    # ---- activation, deactivation, termination, removal as announced by the plan database
    base = dict(ass, **distinct('E', 'T', 'U', 'X0', 'X1', 'X2', 'KT', 'KU'))
    base.update({'this.m_rulesEngine': S('E'), 'E.m_schema': S('SCH'), 'E.m_id': S('E'), 'T.m_key': S('KT'), 'U.m_key': S('KU'), 'E.m_planDb': S('PDB'), 'Entity::isPurging()': False})
    for n in ('X0', 'X1', 'X2'):
        base[n + '.m_id'] = S(n)
    TB = 'E.m_ruleInstancesByToken'
    g = fn_of(ck, 'DbRuleEngineConnector::notifyActivated', ['::Token>'])
    q = Seq(ck, rec(calls='::createInstance$'), scope=SC, self_cls='DbRuleEngineConnector', value_of=val, assume=base, recur=3, trip=8, sat=20, sizes=(0, 1), maxdepth=10)
    q.runs[0].st.conts.update({'SCH.m_rulesByName': (table, True), TB: ((('pair', S('KU'), S('X0')),), True)})
    q.call(g, args=(S('T'),))

    def pred(p):
        c = [(t[2],) + t[3] for t in p.trace if t[0] == 'c']
        w = [(r, 'T', 'PDB', 'E') for r in ('rA0', 'rA1', 'rB0', 'rC0')]
        if c != w:
            return 'creates %s, expected %s' % (c, w)
        got = sorted((vs(x[1]), vs(x[2])) for x in contents(p, TB))
        return got == sorted([('KU', 'X0')] + [('KT', 'instance of ' + x[0]) for x in w]) or 'table of instances: %s' % got
    ck.forall_paths(rid, 'activation', g, q.runs, pred, 'one instance of every applicable rule, entered under the token')
    for nm in ('notifyDeactivated', 'notifyTerminated'):
        g = handler_of(ck, rid, nm, 'DbRuleEngineConnector', nm, '::Token>')
        if g is None:
            continue
        q = Seq(ck, rec(), scope=SC, self_cls='DbRuleEngineConnector', assume=base, sat=20, trip=8, sizes=(0, 1))
        q.runs[0].st.conts[TB] = (tuple(('pair', S(k), S(x)) for k, x in (('KT', 'X0'), ('KT', 'X1'), ('KU', 'X2'))), True)
        q.call(g, args=(S('T'),))

        def pred(p):
            d = sorted(t[1] for t in p.trace if t[0] == 'd')
            got = sorted((vs(x[1]), vs(x[2])) for x in contents(p, TB))
            return d == ['X0', 'X1'] and got == [('KU', 'X2')] or 'deletes %s and keeps %s' % (d, got)
        ck.forall_paths(rid, nm, g, q.runs, pred, 'deletes all instances of that token only')
    for ty in ('::Token>', '::Constraint>'):
        g = handler_of(ck, rid, 'removal of %s' % ty[2:-1].lower(), 'DbRuleEngineConnector', 'notifyRemoved', ty, 1)
        if g is None:
            continue
        q = Seq(ck, rec(calls=RI + '::notifyDiscarded$'), scope=SC, opaque={RI + '::notifyDiscarded'}, self_cls='DbRuleEngineConnector', assume=base, sat=20, trip=8, sizes=(0, 1))
        q.runs[0].st.conts[TB] = (tuple(('pair', S(k), S(x)) for k, x in (('KT', 'X0'), ('KT', 'X1'), ('KU', 'X2'))), True)
        q.call(g, args=(S('T'),))
        ck.forall_paths(rid, 'removal of %s' % ty[2:-1].lower(), g, q.runs, lambda p: sorted((t[2],) + t[3] for t in p.trace if t[0] == 'c') == [(x, 'T') for x in ('X0', 'X1', 'X2')] or 'told: %s' % [t[2] for t in p.trace if t[0] == 'c'], 'every instance is told')
    g = fn_of(ck, RE + '::getRuleInstances', np=2)
    q = Seq(ck, rec(), scope=SC, self_cls=RE, assume=base, sat=20, trip=8, sizes=(0, 1))
    q.runs[0].st.conts[TB.replace('E.', 'this.')] = (tuple(('pair', S(k), S(x)) for k, x in (('KT', 'X0'), ('KT', 'X1'), ('KU', 'X2'))), True)
    q.runs[0].st.conts['RES'] = ((), True)
    q.call(g, args=(S('T'), S('RES')))
    ck.forall_paths(rid, 'instances of a token', g, q.runs, lambda p: sorted(each(p, 'RES')) == ['X0', 'X1'] or 'finds %s' % each(p, 'RES'), 'exactly its instances')


def undoing(ck, rid):
    f = fn_of(ck, RI + '::undo', np=0)
    rvl = {'K0'}
    ents = ['T', 'U', 'E', 'L0', 'K0', 'K1', 'K2', 'S0', 'S1', 'S2', 'V0', 'V1', 'C0', 'C1', 'G0', 'ME', 'O', 'MA', 'MB', 'MD']
    ass = dict(distinct(*ents), **{'this.m_token': S('T'), 'this.m_rulesEngine': S('E'), 'this.m_isExecuted': K(True), 'this.m_id': S('ME'), 'eq(this.m_guardListener,null)': False})
    for e in ents:
        ass[e + '.m_id'] = S(e)
    scopes = {'K0': ['G0'], 'K1': ['MA', 'MB'], 'K2': ['MB', 'MD'], 'K3': ['MB']}
    parent = {'G0': 'T', 'MA': 'U', 'MB': 'O', 'MD': 'ME', 'V0': 'ME', 'V1': 'T'}
    name = {'V0': 'v', 'V1': 'w'}
    for keeps in (False, True):
        for lone in ('T', 'U'):
            for purge in (False, True):
                def val(ev, st, fl):
                    if ev.m == 'convertable':
                        return [(K(vs(ev.args[0]) in rvl), st)]
                    if ev.m == 'getScope' and ev.recv in scopes:
                        return [(S('scope of ' + ev.recv), st)]
                    if ev.m == 'parent' and ev.recv in parent:
                        return [(S('T' if lone == 'T' and ev.recv == 'MA' else parent[ev.recv]), st)]
                    if ev.m == 'getName' and ev.recv in name:
                        return [(K(name[ev.recv]), st)]
                    if ev.m == 'master':
                        return [(NULL if ev.recv == 'S2' else S('T'), st)]
                    if ev.m == 'removeMaster':
                        return [(K(not (keeps and ev.recv == 'S1')), st)]
                    return None
                q = Seq(ck, rec(calls=r'::(notifyUndone|removeMaster|removeLocalVariable)$'), scope=SC, self_cls=RI, value_of=val, assume=dict(ass, **{'Entity::isPurging()': purge}), sat=30, trip=8, sizes=(0, 1))
                c = q.runs[0].st.conts
                for k in scopes:
                    c['scope of ' + k] = (tuple(map(S, scopes[k])), True)
                for k, v in (('childRules', ['C0', 'C1']), ('constraints', ['K0', 'K1', 'K2']), ('slaves', ['S0', 'S1', 'S2']), ('variables', ['V0', 'V1'])):
                    c['this.m_' + k] = (tuple(map(S, v)), True)
                c['this.m_variablesByName'] = (tuple(('pair', K(n), S(v)) for n, v in (('v', 'V0'), ('w', 'V1'), ('start', 'VS'))), True)
                c['this.m_slavesByName'] = (tuple(('pair', K(n), S(v)) for n, v in (('a', 'S0'), ('b', 'S1'))), True)
                c['E.m_listeners'] = ((S('L0'),), True)
                q.call(f)

                def pred(p):
                    d = [t[1] for t in p.trace if t[0] == 'd']
                    want = ['C0', 'C1']
                    if not purge:
                        want += ['K0', 'K2'] + (['K1'] if lone == 'T' else []) + ['S0'] + ([] if keeps else ['S1']) + ['V0']
                    if sorted(d) != sorted(want):
                        return 'deletes %s, expected %s' % (sorted(d), sorted(want))
                    if each(p, 'this.m_childRules'):
                        return 'keeps child rules %s' % each(p, 'this.m_childRules')
                    if purge:
                        return True
                    at = {x: i for i, t in enumerate(p.trace) if t[0] == 'd' for x in [t[1]]}
                    if any(at[k] > at[v] for k in at if k[0] == 'K' for v in at if v[0] in 'SV'):
                        return 'deletes a variable or token before its constraints'
                    for n in ('constraints', 'slaves', 'variables', 'slavesByName'):
                        if each(p, 'this.m_' + n):
                            return '%s are left: %s' % (n, each(p, 'this.m_' + n))
                    if names(p.st, 'this.m_variablesByName') != {'start': 'VS'}:
                        return 'variables by name: %s' % names(p.st, 'this.m_variablesByName')
                    if fin(p, 'this.m_isExecuted') != 'false':
                        return 'still counts as executed'
                    lv = sorted((t[2],) + t[3] for t in p.trace if t[0] == 'c' and t[1] == 'removeLocalVariable')
                    if lv != [('T', 'V0'), ('T', 'V1')]:
                        return 'local variables taken off the token: %s' % lv
                    m = sorted((t[2],) + t[3][:1] for t in p.trace if t[0] == 'c' and t[1] == 'removeMaster')
                    if m != [('S0', 'T'), ('S1', 'T')]:
                        return 'subgoals released: %s' % m
                    n = [(t[2],) + t[3] for t in p.trace if t[0] == 'c' and t[1] == 'notifyUndone' and t[2] == 'L0']
                    return n == [('L0', 'ME')] or 'announced %s' % n
                ck.forall_paths(rid, 'undo%s%s%s' % (', shared subgoal' if keeps else '', ', constraint on the token' if lone == 'T' else '', ', purging' if purge else ''), f, q.runs, pred, 'undo takes back what execution added')
    # ---- the end of an instance
    dt = [f for f in ck.P.fns.values() if f.get('dtor') and short(f.get('cls', '')) == RI][0]
    for done in (False, True):
        for lis in (False, True):
            for purge in (False, True):
                a = dict(ass, **{'this.m_isExecuted': K(done), 'Entity::isPurging()': purge, 'this.m_guardListener': S('GL') if lis else NULL, 'this.m_guardDomain': S('GD') if lis else NULL})
                if lis:
                    a.pop('eq(this.m_guardListener,null)')
                a.update(distinct('GL', 'GD', 'ME'))
                q = Seq(ck, rec(calls=RI + r'::undo$|::deactivate$'), scope=SC, self_cls=RI, assume=a, opaque={RI + '::undo'}, sat=30, sizes=(0, 1))
                q.call(dt)

                def pred(p):
                    if len(find(p, 'c', 'undo', 'this')) != (1 if done else 0):
                        return 'undone %d times' % len(find(p, 'c', 'undo', 'this'))
                    d = [t[1] for t in p.trace if t[0] == 'd']
                    w = ['GD'] if lis else []
                    if lis and not purge:
                        w = ['GD', 'GL']
                    return sorted(x for x in d if x in ('GD', 'GL')) == w or 'deletes %s, expected %s' % (d, w)
                ck.forall_paths(rid, 'end%s%s%s' % (', executed' if done else '', ', guarded' if lis else '', ', purging' if purge else ''), dt, q.runs, pred, 'an executed instance is undone, and its guard listener and values go')
    # ---- something it created goes away
    g = fn_of(ck, RI + '::notifyDiscarded', np=1)
    for what, ent in (('slave', 'S1'), ('other token', 'U'), ('constraint', 'K1'), ('other constraint', 'K9'), ('guard listener', 'GL')):
        def val(ev, st, fl):
            return None
        isc = ent[0] in 'KG'
        a = dict(distinct('S0', 'S1', 'S2', 'K0', 'K1', 'K2', 'K9', 'GL', 'U', *['k%s' % x for x in ('S0', 'S1', 'S2', 'K0', 'K1', 'K2', 'K9', 'GL', 'U')]), **{'this.m_guardListener': S('GL')})
        for x in ('S0', 'S1', 'S2', 'K0', 'K1', 'K2', 'K9', 'GL', 'U'):
            a[x + '.m_key'] = S('k' + x)
        q = Seq(ck, rec(), scope=SC, self_cls=RI, assume=a, sat=30, trip=8, sizes=(0, 1))
        c = q.runs[0].st.conts
        c['this.m_slaves'] = (tuple(map(S, ('S0', 'S1', 'S2'))), True)
        c['this.m_constraints'] = (tuple(map(S, ('K0', 'K1', 'K2'))), True)
        c['this.m_guards'] = ((S('G0'),), True)
        q.call(g, args=(S(ent),), keep=lambda p: not any(('Constraint' in w) and 'Token' not in w and w.startswith('!') == isc for w in p.st.why))

        def pred(p):
            s, k, gg = each(p, 'this.m_slaves'), each(p, 'this.m_constraints'), each(p, 'this.m_guards')
            w = ([x for x in ('S0', 'S1', 'S2') if x != ent], [x for x in ('K0', 'K1', 'K2') if x != ent], [] if what == 'guard listener' else ['G0'])
            if (s, k, gg) != w:
                return 'keeps %s, expected %s' % ((s, k, gg), w)
            return (fin(p, 'this.m_guardListener') == 'null') == (what == 'guard listener') or 'guard listener: %s' % fin(p, 'this.m_guardListener')
        ck.forall_paths(rid, 'gone: %s' % what, g, q.runs, pred, 'what is deleted elsewhere is forgotten')


def scoping(ck, rid):
    """what execution adds is recorded for undo and found by name, inner before outer before global"""
    ass = distinct('T', 'PD', 'CE', 'PAR', 'VA', 'VB', 'VAX', 'VAY', 'VZ', 'GP', 'GG', 'SA', 'SB', 'KA', 'KB', 'ST', 'E')
    ass.update({'this.m_token': S('T'), 'this.m_planDb': S('PD'), 'this.m_rulesEngine': S('E'), 'this.m_isExecuted': K(True), 'this.m_id': S('ME'), 'PD.m_constraintEngine': S('CE')})
    VN, SN, KN = 'this.m_variablesByName', 'this.m_slavesByName', 'this.m_constraintsByName'

    def kmap(**d):
        return (tuple(('pair', K(k.replace('_', '.')), S(v)) for k, v in sorted(d.items())), True)

    def start(st, **d):
        st.conts[VN] = kmap(**dict(dict(a='VA', a_x='VAX', a_y_z='VAY', ab='VB'), **d))
        st.conts['PAR.m_variablesByName'] = kmap(p='GP')
        st.conts['PAR.m_slavesByName'] = kmap(ps='ST')
        st.conts['PAR.m_constraintsByName'] = kmap(pk='KA')
        st.conts[SN] = kmap(s='SA')
        st.conts[KN] = kmap(k='KA')
        st.conts['this.m_variables'] = ((S('VA'), S('VB')), True)
        st.conts['this.m_slaves'] = ((S('SA'),), True)
        st.conts['this.m_constraints'] = ((S('KA'),), True)
        st.conts['this.m_childRules'] = ((S('C0'),), True)

    def val(ev, st, fl):
        if ev.m == 'isGlobalVariable':
            return [(K(vs(ev.args[0]).strip('\'"') == 'g'), st)]
        if ev.m == 'getGlobalVariable':
            return [(S('GG'), st)]
        if ev.m == 'getId' and not ev.args:
            return [(S('ME' if ev.recv == 'this' else ev.recv), st)]
        if ev.m == 'getName' and ev.recv.startswith('K'):
            return [(K('k'), st)]
        if ev.m == 'createConstraint':
            return [(S('KNEW'), st)]
        if ev.m == 'getName' and ev.recv == 'KNEW':
            return [(K('k'), st)]
        return None

    def seq(parent=True, **kw):
        q = Seq(ck, scope=SC, record=rec(calls='::(addLocalVariable|createConstraint|setRulesEngine)$', news='Variable'), self_cls=RI, value_of=val, assume=dict(ass, **{'this.m_parent': S('PAR') if parent else NULL, 'PAR.m_parent': NULL, 'PAR.m_planDb': S('PD')}), sat=40, trip=8, sizes=(0, 1), recur=2, maxdepth=9, **kw)
        start(q.runs[0].st)
        return q
    # lookups
    for fn, exp in (('getVariable', {'a': 'VA', 'a.x': 'VAX', 'p': 'GP', 'g': 'GG', 'zz': 'null'}), ('getSlave', {'s': 'SA', 'ps': 'ST', 'this': 'T', 'zz': 'null'}), ('getConstraint', {'k': 'KA', 'pk': 'KA', 'zz': 'null'})):
        f = fn_of(ck, RI + '::' + fn, np=1)
        for n, w in sorted(exp.items()):
            q = seq()
            q.call(f, args=(K(n),))
            ck.forall_paths(rid, '%s: %s' % (fn, w if w != 'null' else 'unknown'), f, q.runs, lambda p: p.val is not None and vs(q.fl.deref(p.val, p.st)) == w or 'finds %s, expected %s' % (vs(p.val), w), 'found by name')
    # an own name hides the outer and the global one
    f = fn_of(ck, RI + '::getVariable', np=1)
    q = seq()
    start(q.runs[0].st, p='VB', g='VA')
    for n, w in (('p', 'VB'), ('g', 'VA')):
        r = q.call(f, args=(K(n),), paths=q.runs)
        ck.forall_paths(rid, 'getVariable: own %s' % ('before outer' if n == 'p' else 'before global'), f, r, lambda p: vs(q.fl.deref(p.val, p.st)) == w or 'finds %s' % vs(p.val), 'own names come first')
    # addVariable
    f = fn_of(ck, RI + '::addVariable', np=3)
    for n, left in (('a', {'ab': 'VB'}), ('c', {'a': 'VA', 'a.x': 'VAX', 'a.y.z': 'VAY', 'ab': 'VB'}), ('p', {'a': 'VA', 'a.x': 'VAX', 'a.y.z': 'VAY', 'ab': 'VB'})):
        q = seq()
        q.call(f, args=(None, None, K(n)))

        def pred(p):
            new = [v for v in each(p, 'this.m_variables') if v not in ('VA', 'VB')]
            if each(p, 'this.m_variables')[:2] != ['VA', 'VB'] or len(new) != 1:
                return 'variables to take back: %s' % each(p, 'this.m_variables')
            if names(p.st, VN) != dict(left, **{n: new[0]}):
                return 'variables by name: %s' % names(p.st, VN)
            c = [(t[2],) + t[3] for t in p.trace if t[0] == 'c' and t[1] == 'addLocalVariable']
            if c != [('T', new[0])]:
                return 'made local to the token: %s' % c
            return vs(q.fl.deref(p.val, p.st)) == new[0] or 'returns %s' % vs(p.val)
        ck.forall_paths(rid, 'local variable %s' % {'a': 'with a name used before', 'c': 'with a fresh name', 'p': 'hiding an outer one'}[n], f, q.runs, pred, 'recorded, local to the token, and found under its name')
    # addSlave
    f = fn_of(ck, RI + '::addSlave', np=2)
    for n in ('s', 't'):
        q = seq()
        q.call(f, args=(S('SB'), K(n)))

        def pred(p):
            if each(p, 'this.m_slaves') != ['SA', 'SB']:
                return 'subgoals: %s' % each(p, 'this.m_slaves')
            return names(p.st, SN) == ({'s': 'SB'} if n == 's' else {'s': 'SA', 't': 'SB'}) or 'by name: %s' % names(p.st, SN)
        ck.forall_paths(rid, 'subgoal %s' % ('with a name used before' if n == 's' else 'with a fresh name'), f, q.runs, pred, 'recorded and found under its name')
    # addConstraint
    f = fn_of(ck, RI + '::addConstraint', ['string'], 2)
    q = seq()
    q.runs[0].st.conts['SCOPE'] = ((S('VA'), S('VB')), True)
    q.call(f, args=(K('k'), S('SCOPE')))

    def pred(p):
        c = [(t[2], t[3][0]) + t[5][1:2] for t in p.trace if t[0] == 'c' and t[1] == 'createConstraint']
        if c != [('CE', "'k'", ('VA', 'VB'))]:
            return 'creates %s' % c
        if each(p, 'this.m_constraints') != ['KA', 'KNEW']:
            return 'constraints: %s' % each(p, 'this.m_constraints')
        return names(p.st, KN) == {'k': 'KNEW'} or 'by name: %s' % names(p.st, KN)
    ck.forall_paths(rid, 'constraint', f, q.runs, pred, 'created over its scope and recorded')
    f = fn_of(ck, RI + '::addChildRule', np=1)
    q = seq()
    q.call(f, args=(S('CN'),))
    ck.forall_paths(rid, 'child rule', f, q.runs, lambda p: each(p, 'this.m_childRules') == ['C0', 'CN'] and (find(p, 'c', 'setRulesEngine', 'CN', ['E']) != [] or fin(p, 'CN.m_rulesEngine') == 'E') or 'children %s' % each(p, 'this.m_childRules'), 'recorded and attached to the engine')
    # construction
    for f in sorted((f for f in ck.P.fns.values() if f.get('ctor') and short(f.get('cls', '')) == RI and f.get('body') and len(f['p']) > 1), key=lambda f: f['line']):
        ty = [p['t'] for p in f['p']]
        child = 'Id<EUROPA::RuleInstance>' in ty[0]
        vec = [i for i, t in enumerate(ty) if 'vector<' in t]
        one = [i for i, t in enumerate(ty) if 'Id<EUROPA::ConstrainedVariable>' in t and 'vector<' not in t]
        dom = [i for i, t in enumerate(ty) if 'Domain' in t and 'vector' not in t]
        pos = [i for i, t in enumerate(ty) if t.replace('const ', '') == 'bool']
        args = [S('PAR') if child and i == 0 else S('G1S') if i in vec else S('G0') if i in one else S('DOM') if i in dom else S('POS') if i in pos else S('T') if 'Token' in t else S('$%d' % i) for i, t in enumerate(ty)]

        def v2(ev, st, fl):
            if ev.m == 'copy' and ev.recv.lstrip('*') == 'DOM':
                return [(S('DOMCOPY'), st)]
            if ev.m in ('canBeCompared', 'isValid') or ev.m == 'isA':
                return [(K(True), st)]
            if ev.m == 'getName' and ev.recv in ('V0', 'V1'):
                return [(K('n' + ev.recv), st)]
            if ev.m == 'getVariables':
                return [(S('TV'), st)]
            return None
        q = Seq(ck, rec(news='RuleVariableListener'), scope=SC, self_cls=RI, value_of=v2, assume=distinct('G0', 'PAR', 'T', 'V0', 'V1'), sizes=(0, 1), sat=20, trip=6)
        q.runs[0].st.conts.update({'G1S': ((S('G1'), S('G2')), True), 'TV': ((S('V0'), S('V1')), True), 'this.m_variablesByName': ((), True), 'this.m_guards': ((), True)})
        q.call(f, args=args)
        want = (['G0'] if one else []) + (['G1', 'G2'] if vec else [])

        def pred(p):
            g = each(p, 'this.m_guards') or []
            if g != want:
                return 'guards %s, expected %s' % (g, want)
            n = [t for t in p.trace if t[0] == 'n']
            if len(n) != (1 if want else 0):
                return '%d listeners on its guards' % len(n)
            if fin(p, 'this.m_guardDomain') not in (('DOMCOPY',) if dom else ('null', '0')):
                return 'guard values: %s' % fin(p, 'this.m_guardDomain')
            if fin(p, 'this.m_isPositive') != ('POS' if pos else 'true'):
                return 'positive: %s' % fin(p, 'this.m_isPositive')
            if fin(p, 'this.m_isExecuted') != 'false':
                return 'starts as executed'
            if want and (fin(p, 'this.m_guardListener') == 'null' or 'this.m_guards' not in n[0][2] and n[0][2][-1] != 'this.m_guards'):
                return 'listener over %s' % (n[0][2],)
            if fin(p, 'this.m_parent') != ('PAR' if child else 'null'):
                return 'parent: %s' % fin(p, 'this.m_parent')
            nm = names(p.st, 'this.m_variablesByName') or {}
            return nm == ({} if child else {'nV0': 'V0', 'nV1': 'V1'}) or 'names at the start: %s' % nm
        ck.forall_paths(rid, 'construction: %s' % ', '.join(re.sub(r'EUROPA::|const |std::|Id<|>', '', t).replace('vector<', 'several ') for t in ty), f, q.runs, pred, 'guards, values and listener as given')


def pending(ck, rid):
    f = fn_of(ck, RE + '::hasPendingRuleInstances', np=1)
    kids = {'X0': ['C0', 'C1'], 'C1': ['D0']}
    allx = ['X0', 'X1', 'X2', 'C0', 'C1', 'D0']
    for hot in [None] + allx:
        for (ex, wn) in ((False, False), (True, False), (False, True), (True, True)):
            def val(ev, st, fl):
                if ev.m == 'willNotFire':
                    return [(K(wn if ev.recv == hot else True), st)]
                if ev.m == 'getChildRules':
                    return [(S('kids of ' + ev.recv), st)]
                return None
            a = distinct('T', 'KT', 'KU', *allx)
            a['T.m_key'] = S('KT')
            for x in allx:
                a[x + '.m_isExecuted'] = K(ex if x == hot else x in kids)
            q = Seq(ck, rec(), scope=SC, self_cls=RE, value_of=val, assume=a, sizes=(0, 1), sat=40, trip=8, recur=3, maxdepth=10)
            c = q.runs[0].st.conts
            c['this.m_ruleInstancesByToken'] = (tuple(('pair', S(k), S(x)) for k, x in (('KT', 'X0'), ('KT', 'X1'), ('KU', 'X2'))), True)
            for x in allx:
                c['kids of ' + x] = (tuple(map(S, kids.get(x, []))), True)
            got = {b for b, p in q.ask(f, q.runs[0], args=(S('T'),))}
            want = hot not in (None, 'X2') and not ex and not wn
            ck.ob(rid, 'pending %s%s%s' % (hot, ' executed' if ex else '', ' cannot fire' if wn else ''), got == {want}, 'answers %s, expected %s' % (sorted(got), want), ck.where(f))
            if hot is None:
                break
