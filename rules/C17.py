"""Decision points: what choices they offer, what executing and undoing one does."""
from vf.lib import *
MODULES = ['Solvers', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'the client operations themselves are the subject of other properties']
EV = r'^DbClient::(?!get|is|has)|getCompatibleTokens$|getOrderingChoices$|^std::sort|^std::stable_sort'
DIST = {'eq(Token::ACTIVE,Token::MERGED)': False, 'eq(Token::ACTIVE,Token::REJECTED)': False, 'eq(Token::MERGED,Token::REJECTED)': False}


class Proto:
    """construct, initialize, then execute and undo until no choice is left"""
    def __init__(self, ck, cls, scope, limit=8, **kw):
        self.ck, self.cls = ck, cls
        ctor = [f for f in ck.P.fns.values() if f.get('ctor') and short(f.get('cls', '')) == cls and len(f['p']) >= 3]
        if len(ctor) != 1:
            raise Broken('constructor of %s' % cls)
        self.f = ctor[0]
        q = Seq(ck, rec(calls=EV, news='.', conts=kw.pop('conts', None)), scope=tuple(scope) + (cls, 'DecisionPoint'), self_cls=cls, newdisp=True, sat=50, trip=6, **kw)
        self.q = q
        q.call(ctor[0])
        q.runs = [q.mark(p, 'i') for p in q.runs if p.outcome == 'ret']
        q.call(ck.fn('DecisionPoint::initialize'))
        hn, ex, un = method(ck, cls, 'hasNext'), ck.fn('DecisionPoint::execute'), ck.fn('DecisionPoint::undo')
        self.done, self.over = [], []
        for n in range(limit):
            nxt = []
            for p in q.runs:
                if p.outcome != 'ret':
                    continue
                for b, r in q.ask(hn, p):
                    if not b:
                        self.done.append(r)
                    elif n < limit - 1:
                        nxt.append(q.mark(r, 'x'))
                    else:
                        self.over.append(r)
            q.runs = nxt
            q.call(ex)
            q.runs = [q.mark(p, 'u') for p in q.runs if p.outcome == 'ret']
            q.call(un)


def rounds(p):
    """[(execute events, undo events)] after initialization"""
    out, cur = [], None
    for t in p.trace:
        if t[0] == '#':
            if t[1] == 'x':
                out.append(([], []))
                cur = out[-1][0]
            elif t[1] == 'u':
                cur = out[-1][1]
        elif cur is not None and t[0] in 'cdn':
            cur.append(t)
    return out


def ops(evs):
    return [(t[1],) + tuple(t[3]) for t in evs if t[0] == 'c']


def run(ck):
    r1 = ck.rule('open token', 'a decision on an open token offers, in order, every compatible merge, activation and rejection that its state admits, each once; undoing cancels', 20)
    r2 = ck.rule('supported', 'a support decision activates the token, creates and activates the action and merges its effect; undoing takes back all of it', 3)
    r3 = ck.rule('ordering', 'an ordering decision posts each ordering choice once, and undoing frees exactly the same one', 4)
    r4 = ck.rule('value', 'a value decision specifies each candidate value once and undoing resets the variable', 8)
    r5 = ck.rule('sources', 'the candidate values are the members of the domain (or the configured ones that are members)', 6)
    r6 = ck.rule('canUndo', 'a decision can be undone only while what it decided still stands', 3)
    r7 = ck.rule('release', 'choices and helpers a decision allocated are released with it', 3)

    def state_val(m, a, r, extra=None):
        def val(ev, st, fl):
            if ev.m == 'isMember' and 'm_state' in ev.recv and ev.args:
                x = vs(ev.args[0])
                for n, b in (('MERGED', m), ('ACTIVE', a), ('REJECTED', r)):
                    if n in x:
                        return [(K(b), st)]
            return extra(ev, st, fl) if extra else None
        return val

    def judge(rid, inst, pr, want, exact=True):
        if not pr.done and not pr.over:
            ck.ob(rid, inst, False, 'the decision can no longer be initialized, executed and undone', ck.where(pr.f))
            return
        for p in pr.over:
            ck.ob(rid, inst, False, 'more choices are offered than there are: %s' % [ops(x) for x, u in rounds(p)][:10], ck.where(pr.f), p.why())
            return
        for p in pr.done:
            got = [(ops(x), ops(u)) for x, u in rounds(p)]
            r = want(p, got)
            if r is not True:
                ck.ob(rid, inst, False, r, ck.where(pr.f), p.why())
                return
        ck.ob(rid, inst, True)

    def expect(seq, perm=()):
        """seq: [(execute ops, undo ops)], the choices at the positions in perm may come in any order"""
        def want(p, got):
            g = list(got)
            if perm:
                lo, hi = perm
                g[lo:hi] = sorted(g[lo:hi], key=repr)
            return True if g == seq else 'offers %s, expected %s' % (got, seq)
        return want

    def compat(ev, st, n):
        """getCompatibleTokens fills its output with n tokens"""
        if ev.m != 'getCompatibleTokens':
            return None
        if vs(ev.args[0]) != '$1' or vs(ev.args[3]) != 'true' if len(ev.args) > 3 else True:
            return [(S('void'), st)]
        s = st.cp()
        s.conts[vs(ev.args[1])] = (tuple(S('T%d' % i) for i in range(n)), True)
        return [(S('void'), s)]
    CAN = [('cancel', '$1')]

    def choices(m, a, r, n, order='MAR', can=True):
        out, perm = [], (0, 0)
        for c in order:
            if c == 'M' and m:
                perm = (len(out), len(out) + n)
                out += [([('merge', '$1', 'T%d' % i)], CAN) for i in range(n)]
            elif c == 'A' and a and can:
                out.append(([('activate', '$1')], CAN))
            elif c == 'R' and r:
                out.append(([('reject', '$1')], CAN))
        return out, perm


    # ---- open tokens
    SC = [(m, a, r, n) for m in (True, False) for a in (True, False) for r in (True, False) for n in ((0, 1, 2, 3) if m else (0,))]
    for (m, a, r, n) in SC:
        lab = '%s%s%s, %d compatible' % ('M' if m else '', 'A' if a else '', 'R' if r else '', n)
        pr = Proto(ck, 'OpenConditionDecisionPoint', [], value_of=state_val(m, a, r, lambda ev, st, fl: compat(ev, st, n)), assume=DIST)
        seq, perm = choices(m, a, r, n)
        judge(r1, 'default: ' + lab, pr, expect(seq, perm))
    OC = ['SupportedOCDecisionPoint', 'MergeToken', 'ActivateToken', 'RejectToken', 'ChangeTokenState', 'SupportToken', 'OCDecision']
    NEWIN = dict(inline=lambda f: True if short(f.get('cls', '')) in OC else None)

    def plain(ev, st, n):
        if ev.name.endswith('hasSupports'):
            return [(K(False), st)]
        return compat(ev, st, n)
    for (m, a, r, n) in SC:
        lab = '%s%s%s, %d compatible' % ('M' if m else '', 'A' if a else '', 'R' if r else '', n)
        pr = Proto(ck, 'SupportedOCDecisionPoint', OC, value_of=state_val(m, a, r, lambda ev, st, fl: plain(ev, st, n)), assume=DIST, **NEWIN)
        seq, perm = choices(m, a, r, n)
        judge(r1, 'with support: ' + lab, pr, expect(seq, perm))
    for pol, order in (('mergeFirst', 'MAR'), ('activateFirst', 'AMR'), ('mergeOnly', 'MR'), ('activateOnly', 'AR'), (None, 'MAR')):
        for (m, a, r, n) in ((True, True, True, 2), (True, True, False, 0), (False, True, True, 0), (True, False, True, 1)):
            for can in ((True, False) if a else (True,)):
                def hsts(ev, st, fl):
                    if ev.m == 'Attribute' and ev.args and ev.args[0] == K('choice'):
                        return [(K(pol), st)]
                    if ev.m == 'hasOrderingChoice':
                        return [(K(can), st)]
                    return compat(ev, st, n)
                pr = Proto(ck, 'HSTS::OpenConditionDecisionPoint', ['OpenConditionDecisionPoint'], value_of=state_val(m, a, r, hsts), assume=DIST)
                seq, perm = choices(m, a, r, n, order, can)
                judge(r1, 'choice=%s: %s%s%s, %d compatible%s' % (pol, 'M' if m else '', 'A' if a else '', 'R' if r else '', n, '' if can else ', no ordering left'), pr, expect(seq, perm))

    # ---- support
    def supp(slaves):
        def val(ev, st, fl):
            x = ev.m
            if ev.name.endswith('hasSupports'):
                return [(K(True), st)]
            if x == 'hasAttributes' and ev.recv == '$1':
                return [(K(False), st)]
            if x == 'isFact':
                return [(K(False), st)]
            if x == 'getSupportCandidates':
                s = st.cp()
                s.conts[vs(ev.args[1])] = ((S('c0'), S('c1')), True)
                s.store['c0.m_effectCount'], s.store['c1.m_effectCount'] = K(2), K(1)
                return [(S('void'), s)]
            if x == 'createToken':
                return [(S('action(%s)' % vs(ev.args[0]).split('.m_signature')[0].split('.getSignature')[0]), st)]
            if x == 'getSlaves':
                return [(S('slaves(%s)' % ev.recv), st)]
            if x == 'size' and ev.recv.startswith('slaves('):
                return [(K(len(slaves)), st)]
            if x == 'get' and ev.recv.startswith('slaves('):
                i = ev.args[0][1]
                return [(S('slave%s(%s)' % (i, ev.recv[7:-1])), st)] if isinstance(i, int) and 0 <= i < len(slaves) else None
            g = re.match(r'slave(\d)\(', ev.recv or '')
            if g and x == 'hasAttributes':
                return [(K('E' in slaves[int(g.group(1))]), st)]
            if x == 'getFullTokenType' and (g or ev.recv == '$1'):
                return [(K('same' if not g or 'S' in slaves[int(g.group(1))] else 'other'), st)]
            return None
        return val
    for slaves in (('ES', 'ES'), ('S', 'ES', 'E', 'ES'), ('', 'ES', 'S', 'ES')):
        eff = [i for i, s in enumerate(slaves) if s == 'ES']
        seq = []
        for c, k in (('c0', 0), ('c0', 1), ('c1', 0)):
            act = 'action(%s.m_actionType)' % c
            sl = 'slave%d(%s)' % (eff[k], act)
            seq.append((c, [('activate', '$1'), ('createToken',), ('activate', act), ('merge', sl, '$1')], [('cancel', sl), ('cancel', act), ('cancel', '$1')], act))

        def sup(p, got):
            rs = rounds(p)
            if len(rs) != len(seq):
                return 'offers %d supports, expected %d' % (len(rs), len(seq))
            for (ex, un), (c, we, wu, act) in zip(rs, seq):
                e = [tuple(re.sub(r'\.m_id$', '', str(z)) for z in o) if o[0] != 'createToken' else ('createToken',) for o in ops(ex)]
                u = [tuple(re.sub(r'\.m_id$', '', str(z)) for z in o) for o in ops(un)]
                if e != we:
                    return 'supporting does %s, expected %s' % (e, we)
                cr = [t for t in ex if t[0] == 'c' and t[1] == 'createToken'][0]
                if cr[3][0].split('.m_signature')[0] != c + '.m_actionType' and c + '.m_actionType' not in cr[3][0]:
                    return 'creates %s' % (cr[3],)
                if tuple(cr[3][2:4]) != ('false', 'false'):
                    return 'the action is created rejectable or as a fact'
                if sorted(u) != sorted(wu) or u.index(('cancel', wu[0][1])) > u.index(('cancel', '$1')) or u.index(('cancel', wu[0][1])) > u.index(wu[1]):
                    return 'undoing does %s, expected %s' % (u, wu)
                d = [i for i, t in enumerate(un) if t[0] == 'd']
                if [un[i][1] for i in d] != [act] or d[0] < max(i for i, t in enumerate(un) if t[0] == 'c' and t[3] in ((act,), (wu[0][1],), (wu[0][1] + '.m_id',))):
                    return 'the action is not deleted after it was cancelled (%s)' % [un[i][1] for i in d]
            return True
        pr = Proto(ck, 'SupportedOCDecisionPoint', OC, value_of=state_val(False, True, False, supp(slaves)), assume=dict(DIST, **{'$1.m_isFact': False}), **NEWIN)
        judge(r2, 'slaves %s' % (slaves,), pr, sup)
    for what, key in (('fact', 'isFact'), ('effect', 'hasAttributes'), ('no supporter', None)):
        def nosup(ev, st, fl):
            if ev.name.endswith('hasSupports'):
                return [(K(key is not None), st)]
            if ev.m == 'hasAttributes' and ev.recv == '$1':
                return [(K(key == 'hasAttributes'), st)]
            if ev.m == 'isFact':
                return [(K(key == 'isFact'), st)]
        pr = Proto(ck, 'SupportedOCDecisionPoint', OC, value_of=state_val(False, True, True, nosup), assume=dict(DIST, **{'$1.m_isFact': key == 'isFact'}), **NEWIN)
        judge(r2, what + ' is activated without support', pr, expect([([('activate', '$1')], CAN), ([('reject', '$1')], CAN)]))

    # ---- orderings
    def orders(n):
        def val(ev, st, fl):
            if ev.m == 'getOrderingChoices':
                if vs(ev.args[0]) != '$1':
                    return None
                s = st.cp()
                s.conts[vs(ev.args[1])] = (tuple(('pair', S('o%d' % i), ('pair', S('p%d' % i), S('s%d' % i))) for i in range(n)), True)
                return [(S('void'), s)]
            return None
        return val
    for cls, sc in (('ThreatDecisionPoint', []), ('HSTS::ThreatDecisionPoint', ['ThreatDecisionPoint'])):
        for n in (0, 1, 2, 3):
            pr = Proto(ck, cls, sc, value_of=orders(n))
            judge(r3, '%s, %d orderings' % (cls, n), pr, expect([([('constrain', 'o%d' % i, 'p%d' % i, 's%d' % i)], [('free', 'o%d' % i, 'p%d' % i, 's%d' % i)]) for i in range(n)], (0, n)))

    # ---- values
    def vals(n, rnd=False):
        def val(ev, st, fl):
            if ev.name == 'ValueSource::getSource':
                return [(S('VS'), st)]
            if ev.m == 'getCount':
                return [(K(n), st)]
            if ev.m == 'getValue':
                return [(S('v' + vs(ev.args[0])), st)]
            if ev.m == 'rand':
                return [(K(i), st) for i in range(n)]
            if ev.m in ('FirstChildElement', 'NextSiblingElement'):
                return [(NULL, st)]
            if ev.m in ('srand', 'time'):
                return [(K(0), st)]
        return val
    for cls, order in (('MinValue', 1), ('MaxValue', -1), ('RandomValue', 0), ('HSTS::ValueEnum', 1)):
        for n in (0, 1, 3):
            kw = dict(assume={'$1.lastDomain().isSingleton()': True, '$1.m_derivedDomain.isSingleton()': True}) if 'Enum' in cls else {}
            pr = Proto(ck, cls, ['UnboundVariableDecisionPoint'], value_of=vals(n), **kw)
            pr.done = [p for p in pr.done if '*loop' not in p.st.why]
            seq = [([('specify', '$1', 'v%d' % i)], [('reset', '$1')]) for i in (range(n) if order >= 0 else reversed(range(n)))]
            judge(r4, '%s, %d values' % (cls, n), pr, expect(seq, (0, n) if order == 0 else ()))
    f = ck.fn('UnboundVariableDecisionPoint::handleExecute')
    ck.ob(r4, 'value decisions covered', {short(g['cls']) for g in ck.P.fns.values() if g['sq'].endswith('::getNext') and 'UnboundVariableDecisionPoint' in ck.P.bases(short(g.get('cls', '')))} <= {'MinValue', 'MaxValue', 'RandomValue', 'HSTS::ValueEnum', 'UnboundVariableDecisionPoint'}, 'a value decision class is not analysed', ck.where(f))

    # ---- sources
    f = ck.fn('ValueSource::getSource')
    for ext, enum in ((True, True), (True, False), (False, True), (False, False)):
        ps, fl = ck.flow(f, rec(news='.'), args=(S('$0'), S('$1'), K(ext)), value_of=lambda ev, st, fl_: [(K(enum), st)] if ev.m == 'isEnumerated' else None)
        w = 'OrderedValueSource' if ext else 'EnumValueSource' if enum else 'IntervalValueSource'
        ck.forall_paths(r5, 'source: ordered %s, enumerated %s' % (ext, enum), f, ps, lambda p: True if [t[1] for t in p.trace if t[0] == 'n'] == [w] and 'new %s@' % w in vs(p.val) else 'creates %s, expected %s' % ([t[1] for t in p.trace], w), 'value source')

    def ctor_of(cls, np):
        c = [g for g in ck.P.fns.values() if g.get('ctor') and short(g.get('cls', '')) == cls and len(g['p']) == np and cls not in g['p'][0]['t']]
        if len(c) != 1:
            raise Broken('constructor of ' + cls)
        return c[0]

    def geom(lo, hi, d):
        def val(ev, st, fl):
            return {'getLowerBound': [(K(lo), st)], 'getUpperBound': [(K(hi), st)], 'minDelta': [(K(d), st)]}.get(ev.m)
        return val
    for lo, hi, d in ((2, 8, 2), (0, 0, 1), (5, 9, 1)):
        q = Seq(ck, rec(), value_of=geom(lo, hi, d), self_cls='IntervalValueSource', scope=('IntervalValueSource', 'ValueSource'))
        c = ctor_of('IntervalValueSource', 1)
        q.call(c)
        n = (hi - lo) // d + 1
        got = {vs(p.val) for p in q.call(ck.fn('ValueSource::getCount'), paths=q.runs) if p.outcome == 'ret'}
        got2 = [{vs(p.val) for p in q.call(ck.fn('IntervalValueSource::getValue'), args=(K(i),), paths=q.runs) if p.outcome == 'ret'} for i in range(n)]
        ck.ob(r5, 'interval [%d %d] step %d' % (lo, hi, d), got == {str(n)} and got2 == [{str(lo + i * d)} for i in range(n)], 'count %s, values %s' % (got, got2), ck.where(c))
    c = ctor_of('EnumValueSource', 2)
    for n in (1, 3):
        def evals(ev, st, fl):
            if ev.m == 'getSize':
                return [(K(n), st)]
            if ev.m == 'getValues':
                s = st.cp()
                s.conts[vs(ev.args[0])] = (tuple(S('v%d' % i) for i in range(n)), True)
                return [(S('void'), s)]
        q = Seq(ck, rec(), value_of=evals, self_cls='EnumValueSource', scope=('EnumValueSource', 'ValueSource'))
        q.call(c)
        got = {vs(p.val) for p in q.call(ck.fn('ValueSource::getCount'), paths=q.runs) if p.outcome == 'ret'}
        got2 = [{vs(p.val) for p in q.call(ck.fn('EnumValueSource::getValue'), args=(K(i),), paths=q.runs) if p.outcome == 'ret'} for i in range(n)]
        ck.ob(r5, 'enumeration of %d' % n, got in ({str(n)}, {'size(this.m_values)'}) and all(len(g) == 1 for g in got2) and sorted(g.pop() for g in got2) == ['v%d' % i for i in range(n)], 'count %s, values %s' % (got, got2), ck.where(c))
    c = ctor_of('OrderedValueSource', 1)
    add = ck.fn('OrderedValueSource::addValue')
    q = Seq(ck, rec(), self_cls='OrderedValueSource', scope=('OrderedValueSource', 'ValueSource'), value_of=lambda ev, st, fl: [(K(ev.args[0][1] in ('a', 'b')), st)] if ev.m == 'isMember' else None)
    q.call(c)
    for v in ('x', 'b', 'y', 'a'):
        q.call(add, args=(S(v),))
    got = {vs(p.val) for p in q.call(ck.fn('ValueSource::getCount'), paths=q.runs) if p.outcome == 'ret'}
    got2 = [{vs(p.val) for p in q.call(ck.fn('OrderedValueSource::getValue'), args=(K(i),), paths=q.runs) if p.outcome == 'ret'} for i in (0, 1)]
    ck.ob(r5, 'configured values', got in ({'2'},) and got2 == [{'b'}, {'a'}], 'count %s, values %s after adding x, b, y, a where only a and b are members' % (got, got2), ck.where(add))

    # ---- canUndo
    for cls, obj in (('OpenConditionDecisionPoint', 'm_state'), ('SupportedOCDecisionPoint', 'm_state'), ('UnboundVariableDecisionPoint', 'm_flawedVariable')):
        f = ck.fn(cls + '::canUndo')
        for base, spec in ((True, True), (True, False), (False, True), (False, False)):
            def cu(ev, st, fl):
                if ev.name == 'DecisionPoint::canUndo':
                    return [(K(base), st)]
                if ev.m == 'isSpecified' and obj in ev.recv:
                    return [(K(spec), st)]
            ps, fl = ck.flow(f, rec(), value_of=cu)
            ck.ob(r6, '%s: executed %s, still specified %s' % (cls, base, spec), {vs(p.val) for p in ps if p.outcome == 'ret'} == {str(base and spec).lower()}, 'answers %s' % [vs(p.val) for p in ps], ck.where(f))

    # ---- release
    for cls, fld in (('UnboundVariableDecisionPoint', 'this.m_choices'), ('HSTS::OpenConditionDecisionPoint', 'this.m_comparator'), ('HSTS::ThreatDecisionPoint', 'this.m_comparator')):
        f = ck.fn('%s::~%s' % (cls, cls.split('::')[-1]))
        ps, fl = ck.flow(f, rec())
        ck.forall_paths(r7, cls, f, ps, lambda p: True if [t[1] for t in p.trace if t[0] == 'd'] == [fld] or p.facts.get('eq(%s,null)' % fld) else 'releases %s' % [t[1] for t in p.trace], 'release')
    f = ck.fn('SupportedOCDecisionPoint::~SupportedOCDecisionPoint')
    ps, fl = ck.flow(f, rec(), cont_init={'this.m_choices': (2,)})
    ck.forall_paths(r7, 'SupportedOCDecisionPoint', f, ps, lambda p: True if sorted(t[1] for t in p.trace if t[0] == 'd') == sorted(['this.m_choices[0]', 'this.m_choices[1]'] + ([] if p.facts.get('eq(this.m_heuristic,null)') else ['this.m_heuristic'])) else 'releases %s' % [t[1] for t in p.trace], 'release')
