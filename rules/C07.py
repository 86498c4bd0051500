"""Token life cycle: legal transitions only, each with its state change and its announcements."""
from vf.lib import *
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule (an exception is how an illegal transition is refused)',
               'the three state names ACTIVE, MERGED and REJECTED are pairwise different']
NAMES = ('ACTIVE', 'MERGED', 'REJECTED')
STATES = ('INACTIVE',) + NAMES
DISTINCT = {}
for _a in NAMES + ('INACTIVE', 'INCOMPLETE'):
    for _b in NAMES + ('INACTIVE', 'INCOMPLETE'):
        if _a != _b:
            DISTINCT['eq(Token::%s,Token::%s)' % (_a, _b)] = False


def token_in(state, obj='this'):
    """initial facts: the token obj is in the given state"""
    a = dict(DISTINCT)
    sv = obj + '.m_state'
    if state == 'INCOMPLETE':
        a[sv + '.m_baseDomain.m_closed'] = K(False)
        a[sv + '.m_specifiedFlag'] = K(False)
        return a
    a[sv + '.m_baseDomain.m_closed'] = K(True)
    a[sv + '.m_specifiedFlag'] = K(state != 'INACTIVE')
    if state != 'INACTIVE':
        a[sv + '.m_specifiedValue'] = S('Token::' + state)
    return a


STV = r'TokenVariable.*::(setSpecified|resetSpecified)$|ConstrainedVariable::(specify|reset|relax|close|restrictBaseDomain)$|TokenVariable.*::(close|specify|reset)$'
NOTE = r'^PlanDatabase::notify\w+$'
OBJ = r'^Object::notify\w+$'
ONOBJ = r"^(Token::|TokenVariable.*::|UnifyMemento::)"


def run(ck):
    r1 = ck.rule('predicates', 'exactly one of incomplete, inactive, active, merged, rejected holds for every content of the state variable, and the client view agrees', 5)
    r2 = ck.rule('guards', 'a transition requested in a state it is not defined for changes nothing: it is refused', 14)
    r3 = ck.rule('effect', 'every completed transition sets (or resets) the state variable exactly once, to the state it stands for', 7)
    r4 = ck.rule('announce', 'every completed transition is announced to the plan database exactly once, after the state has changed, and merging and rejection also to every object the token could be on', 8)
    r5 = ck.rule('cancel', 'cancel undoes the transition that led to the current state', 3)
    r6 = ck.rule('commit', 'only a pending active token is committed, for good; terminating deactivates every variable of the token first', 4)
    r7 = ck.rule('initial', 'a new token has a state variable offering REJECTED only if rejectable, its object and duration variables, the standard relation, and is added to its master', 4)

    # ---- predicates
    preds = {'INACTIVE': 'isInactive', 'ACTIVE': 'isActive', 'MERGED': 'isMerged', 'REJECTED': 'isRejected'}
    for s in ('INCOMPLETE',) + STATES:
        bad = []
        for ps_, m in preds.items():
            f = ck.fn('Token::' + m)
            ps, fl = ck.flow(f, rec(), assume=token_in(s))
            got = {vs(p.val) for p in ps if p.outcome == 'ret'}
            want = {'true' if ps_ == s else 'false'}
            if got != want:
                bad.append('%s() answers %s' % (m, sorted(got)))
        ck.ob(r1, s, not bad, 'token in state %s: %s' % (s, '; '.join(bad)), ck.where(ck.fn('Token::isActive')))
    f = ck.fn('Token::getTokenState')
    for s in STATES:
        ps, fl = ck.flow(f, rec(), assume=token_in(s))
        got = {vs(p.val) for p in ps if p.outcome == 'ret'}
        ck.ob(r1, 'getTokenState ' + s, len(got) == 1 and list(got)[0].strip('\'"').split(':')[-1] == s, 'reports %s for a token that is %s' % (sorted(got), s), ck.where(f))

    # ---- guards
    T = {'Token::activate': ('INACTIVE',), 'Token::doMerge': ('INACTIVE',), 'Token::reject': ('INACTIVE',), 'Token::split': ('MERGED',),
         'Token::reinstate': ('REJECTED',), 'Token::deactivate': ('ACTIVE',), 'Token::cancel': NAMES}
    for q, legal in T.items():
        f = ck.fn(q)
        for s in STATES:
            if s in legal:
                continue
            ps, fl = ck.flow(f, rec(calls=STV + '|' + NOTE + '|' + OBJ, conts='.', writes='.', news='.'), assume=token_in(s), sizes=(0, 1))
            done = [p for p in ps if p.outcome == 'ret' or p.trace]
            ck.ob(r2, '%s when %s' % (f['sq'], s), not done, 'takes effect (at least partly) for a token that is %s' % s, ck.where(f), done and done[0].why() or '')
    f = ck.fn('Token::doMerge')
    for s in STATES:
        if s != 'ACTIVE':
            ps, fl = ck.flow(f, rec(calls=STV + '|' + NOTE + '|' + OBJ, conts='.', writes='.', news='.'), assume=dict(token_in('INACTIVE'), **token_in(s, '$0')), sizes=(0, 1))
            ck.ob(r2, 'merge onto ' + s, not [p for p in ps if p.outcome == 'ret' or p.trace], 'merges onto a token that is %s' % s, ck.where(f))
    ps, fl = ck.flow(f, rec(calls=r'Schema::isA$'), assume=dict(token_in('INACTIVE'), **token_in('ACTIVE', '$0')), sizes=(0, 1))
    ck.forall_paths(r2, 'compatible predicate', f, ps, lambda p: True if [t for t in p.trace if t[1] == 'isA' and t[3][:2] == ('$0.m_predicateName', 'this.m_predicateName')] and
                    [b for a, b in p.facts.items() if '.isA(' in a] == [True] else 'predicate compatibility not required', 'guard')
    f = ck.fn('Token::reject')
    ps, fl = ck.flow(f, rec(), assume=token_in('INACTIVE'), sizes=(0, 1))
    ck.forall_paths(r2, 'reject has no master', f, ps, lambda p: True if p.facts.get('eq(this.m_master,null)') else 'a token with a master is rejected', 'guard')

    transitions(ck, r3, r4)

    # ---- cancel
    f = ck.fn('Token::cancel')
    for s, m in (('ACTIVE', 'deactivate'), ('MERGED', 'split'), ('REJECTED', 'reinstate')):
        ps, fl = ck.flow(f, rec(calls=r'^Token::(deactivate|split|reinstate|activate|reject|doMerge)$'), assume=token_in(s), opaque={'Token::deactivate', 'Token::split', 'Token::reinstate'})
        ck.forall_paths(r5, s, f, ps, lambda p: True if [(t[1], t[2]) for t in p.trace if t[0] == 'c'] == [(m, 'this')] else 'does %s' % [t[1] for t in p.trace], 'cancel of a token that is ' + s)

    # ---- commit / terminate
    f = ck.fn('Token::commit')
    for s in STATES:
        ps, fl = ck.flow(f, rec(calls=NOTE + r'|restrictBaseDomain$|::incRefCount$'), assume=token_in(s))
        if s != 'ACTIVE':
            ck.ob(r6, 'commit when ' + s, not [p for p in ps if p.outcome == 'ret'], 'a token that is %s is committed' % s, ck.where(f))
        else:
            def com(p):
                if was(p, 'this.m_committed') is not False or was(p, 'this.m_terminated') is not False:
                    return 'committed again, or after termination'
                if fin(p, 'this.m_committed') != 'true' or len(find(p, 'c', 'incRefCount')) != 1:
                    return 'not marked, or not retained (references taken: %d)' % len(find(p, 'c', 'incRefCount'))
                n = find(p, 'c', 'notifyCommitted')
                rb = find(p, 'c', 'restrictBaseDomain', 'this.m_state')
                return True if len(n) == 1 and len(rb) == 1 and rb[0] < n[0] else 'base state not restricted, or announcement missing'
            ck.forall_paths(r6, 'commit', f, ps, com, 'commit')
    f = ck.fn('Token::canBeCommitted')
    for s in ('INCOMPLETE',) + STATES:
        for c in (True, False):
            for t in (True, False):
                ps, fl = ck.flow(f, rec(), assume=dict(token_in(s), **{'this.m_committed': K(c), 'this.m_terminated': K(t)}))
                got = {vs(p.val) for p in ps if p.outcome == 'ret'}
                ck.ob(r6, 'committable %s committed=%s terminated=%s' % (s, c, t), got == {'true' if s == 'ACTIVE' and not c and not t else 'false'}, 'answers %s' % sorted(got), ck.where(f))
    f = ck.fn('Token::terminate')
    ps, fl = ck.flow(f, rec(calls=NOTE + r'|ConstrainedVariable::deactivate$', writes='m_terminated'), sizes=(0, 1, 2), maxdepth=7)

    def term(p):
        w = find(p, 'w', recv='this.m_terminated')
        n = find(p, 'c', 'notifyTerminated')
        d = find(p, 'c', 'deactivate')
        if fin(p, 'this.m_terminated') != 'true' or len(n) != 1 or n[0] != len(p.trace) - 1 or (d and min(d) < w[0]):
            return 'order: mark, deactivate the variables, announce; got %s' % [t[1] for t in p.trace]
        for c in ('this.m_allVariables', 'this.m_pseudoVariables', 'this.m_localVariables'):
            r = forward_to_all(p, c, 'deactivate', None)
            if r is not True:
                return r
        return True
    ck.forall_paths(r6, 'terminate', f, ps, term, 'termination')

    # ---- construction
    f = ck.fn('Token::commonInit')
    ps, fl = ck.flow(f, rec(calls=NOTE + r'|^(PlanDatabase|PlanDatabaseClient)::makeObjectVariableFromType|EnumeratedDomain::remove$|StateDomain::remove$|Domain::remove$|^Token::close$|ConstrainedVariable::(specify|close)$|TokenVariable.*::(specify|close)$|StateVar::close',
                            conts=r'm_allVariables|m_standardConstraints', news=r'TokenVariable|ObjectTokenRelation'), sizes=(0, 1), opaque={'Token::close', 'Token::isValid'})

    def init(p):
        ns = [t for t in p.trace if t[0] == 'n']
        kinds = [t[1] for t in ns]
        if len([k for k in kinds if 'TokenVariable' in k]) != 3 or len([k for k in kinds if 'ObjectTokenRelation' in k]) != 1:
            return 'creates %s' % kinds
        names = [t[2][-1].strip('"\'') for t in ns if 'TokenVariable' in t[1]]
        if names != ['state', 'object', 'duration']:
            return 'variables are %s' % names
        if len(find(p, '+', recv='this.m_allVariables')) != 3 or len(find(p, '+', recv='this.m_standardConstraints')) != 1:
            return 'variables / relation not registered with the token'
        return True
    ck.forall_paths(r7, 'variables', f, ps, init, 'initialisation')
    ck.forall_paths(r7, 'rejectable', f, ps, lambda p: True if bool([t for t in p.trace if t[0] == 'c' and t[1] == 'remove' and t[3] and t[3][0] == 'Token::REJECTED']) == (p.facts.get('$1') is False) else
                    'rejectable=%s but REJECTED removed %s' % (p.facts.get('$1'), [t for t in p.trace if t[0] == 'c' and t[1] == 'remove']), 'state domain')
    ck.forall_paths(r7, 'closed', f, ps, lambda p: True if len(find(p, 'c', 'close', 'this')) == (1 if p.facts.get('$5') else 0) else 'token closed %d times' % len(find(p, 'c', 'close', 'this')), 'close')
    f = ck.fn('Token::close')
    ps, fl = ck.flow(f, rec(calls=NOTE + r'|::close$'), assume=token_in('INCOMPLETE'))
    ck.forall_paths(r7, 'Token::close', f, ps, lambda p: True if [t[1] for t in p.trace if t[0] == 'c'] == ['close', 'notifyAdded'] and p.trace[0][2] == 'this.m_state' else 'events %s' % [t[1:4] for t in p.trace], 'closing')


def transitions(ck, r3, r4):
    """effects (rule r3) and announcements (rule r4) of every transition; either rule may be None"""
    def fp(rid, *a):
        if rid:
            ck.forall_paths(rid, *a)

    # ---- effects and announcements
    def states(p):
        return [(t[1], t[2], t[3][:1]) for t in p.trace if t[0] == 'c' and t[2] == 'this.m_state']
    E = {'Token::activate': ('INACTIVE', 'ACTIVE', 'notifyActivated'), 'Token::doMerge': ('INACTIVE', 'MERGED', 'notifyMerged'), 'Token::reject': ('INACTIVE', 'REJECTED', 'notifyRejected'),
         'Token::split': ('MERGED', None, 'notifySplit'), 'Token::reinstate': ('REJECTED', None, 'notifyReinstated'), 'Token::activateInternal': ('INACTIVE', 'ACTIVE', 'notifyActivated')}
    for q, (s0, s1, note) in E.items():
        f = ck.P.byq.get(q)
        if not f:
            continue
        f = f[0]
        asm = token_in(s0)
        if q.endswith('doMerge'):
            asm.update(token_in('ACTIVE', '$0'))
        ps, fl = ck.flow(f, rec(calls=STV + '|' + NOTE + '|' + OBJ), assume=asm, sizes=(0, 1, 2))
        want = [('setSpecified', 'this.m_state', ('Token::' + s1,))] if s1 else [('resetSpecified', 'this.m_state', ())]
        fp(r3, f['sq'], f, ps, lambda p: True if states(p) == want else 'state variable receives %s' % (states(p),), 'state change')

        def ann(p):
            ns = [(i, t) for i, t in enumerate(p.trace) if t[0] == 'c' and t[4].startswith('PlanDatabase::notify')]
            if [(t[1], t[3]) for i, t in ns] != [(note, ('this.m_id',))] and [(t[1], t[3]) for i, t in ns] != [(note, ('this',))]:
                return 'plan database is told %s' % [(t[1], t[3]) for i, t in ns]
            sc = [i for i, t in enumerate(p.trace) if t[0] == 'c' and t[2] == 'this.m_state']
            return True if sc and max(sc) < ns[0][0] else 'announced before the state changes'
        fp(r4, f['sq'], f, ps, ann, 'announcement')
        on = {'Token::doMerge': 'notifyMerged', 'Token::reject': 'notifyRejected'}.get(q)

        def objs(p):
            conts = [c for c in p.st.conts if re.search(r'm_object\.\w*[dD]omain\w*\.getValues\(\)|m_object.*m_baseDomain.*', c)]
            tgt = [(t[2], t[1], t[3][0] if t[3] else '') for t in p.trace if t[0] == 'c' and t[4].startswith('Object::notify')]
            if on is None:
                return True if not tgt else 'objects are told %s' % tgt
            vals = [vs(x) for c in conts for x in p.st.conts[c][0]]
            if not conts:
                return 'objects are not visited'
            exp = sorted((on, v) for v in vals)
            got = sorted((m, next((v for v in vals if v in r), r)) for r, m, a in tgt if a in ('this', 'this.m_id'))
            return True if exp == got else 'objects told: %s; possible objects: %s' % (got, vals)
        if on:
            fp(r4, f['sq'] + ' to objects', f, ps, objs, 'announcement')

    f = ck.fn('Token::deactivate')
    ps, fl = ck.flow(f, rec(calls=STV + '|' + NOTE + r'|^Token::(split|removeMaster|remove)$', dels=True), assume=token_in('ACTIVE'), sizes=(0, 1, 2), opaque={'Token::split', 'Token::removeMaster'},
                     volatile=r'm_mergedTokens|m_slaves')
    kept = lambda p: (was(p, 'this.m_committed') is True and was(p, 'this.m_deleted') is False)

    def deact(p):
        if kept(p):
            return True if not p.trace else 'a committed token that is not being deleted is changed: %s' % (p.trace[0],)
        if states(p) != [('resetSpecified', 'this.m_state', ())]:
            return 'state variable receives %s' % (states(p),)
        i = find(p, 'c', 'resetSpecified')[0]
        n = find(p, 'c', 'notifyDeactivated')
        if [t[1] for t in p.trace if t[0] == 'c' and t[4].startswith('PlanDatabase::notify')] != ['notifyDeactivated'] or p.trace[n[0]][3] not in (('this.m_id',), ('this',)):
            return 'announced %s' % [t[1] for t in p.trace if t[0] == 'c']
        if n[0] < i:
            return 'announced before the state changes'
        if any(j > i for j in find(p, 'c', 'split')):
            return 'a merged token is split after the state was reset'
        rm = find(p, 'c', 'removeMaster')
        if any(j < n[0] for j in rm):
            return 'slaves are removed before the announcement'
        return True
    fp(r3, 'Token::deactivate', f, ps, deact, 'deactivation')
    fp(r4, 'Token::deactivate', f, ps, deact, 'deactivation')

    def emptied(p):
        if kept(p):
            return True
        for c in ('this.m_mergedTokens', 'this.m_slaves'):
            dec = [w for w in p.st.why if re.match(r'!?(size|empty)\(%s(~\d+)?\)' % re.escape(c), w)]
            if '*loop' not in p.st.why and (not dec or not re.search(r'=0$|^empty\(', dec[-1])):   # *loop: the loop was cut by the trip bound
                return '%s may be left over (last decision: %s)' % (c, dec[-1:])
        return True
    ps2, fl2 = ck.flow(f, rec(calls=r'^Token::(split|removeMaster)$'), assume=token_in('ACTIVE'), opaque={'Token::split', 'Token::removeMaster'}, volatile=r'm_mergedTokens|m_slaves')
    fp(r3, 'Token::deactivate leaves no supported token or slave', f, ps2, emptied, 'loops until empty')

