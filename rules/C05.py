"""Variables, constraints and propagators stay linked: every change reaches every active constraint; removals undo their effect."""
from vf.lib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule']
CE = 'ConstraintEngine::'


def run(ck):
    r1 = ck.rule('links', 'a constraint is linked to each of its variables at its own argument index when created and unlinked from the same positions when destroyed', 4)
    r2 = ck.rule('agenda', 'a constraint enters its propagator\'s agenda when added, activated or notified, leaves it when removed, deactivated or executed, and a propagator asks for time exactly while it has work', 12)
    r3 = ck.rule('dispatch', 'a change of an active variable is classified and passed to the propagator of every active constraint that does not ignore it', 5)
    r4 = ck.rule('removal', 'removing or deactivating a constraint withdraws it from every engine set and relaxes what it may have restricted', 6)
    r5 = ck.rule('violations', 'violated constraints are deactivated while listed, listed only while violated, and restored when one of their variables is relaxed', 8)
    r6 = ck.rule('redundant', 'redundant constraints are tracked, deactivated at quiescence, and dropped when removed', 4)

    # ---- links
    f = fn_of(ck, 'Constraint::Constraint', np=4)
    ps, fl = ck.flow(f, rec(calls=r'^ConstrainedVariable::(add|remove)Constraint$'), sizes=(1, 2), opaque=lambda q: q in ('Constraint::isValid',) or q.startswith('ConstrainedVariable::addC'))

    def link(meth):
        def pr(p):
            els = each(p, 'this.m_variables')
            if els is None:
                return 'variables are not visited'
            for i, e in enumerate(els):
                c = [t for t in p.trace if t[0] == 'c' and t[2] == e and t[1] == meth]
                if len(c) != 1:
                    return 'variable %d receives %s %d times' % (i, meth, len(c))
                if c[0][3][0] not in ('this', 'this.m_id') or c[0][3][1] != str(i):
                    return 'variable %d is given (%s)' % (i, ', '.join(c[0][3]))
            return True if len(find(p, 'c')) == len(els) else 'extra link calls'
        return pr
    ck.forall_paths(r1, 'constraint created', f, ps, link('addConstraint'), 'link')
    f = ck.fn('Constraint::~Constraint')
    ps, fl = ck.flow(f, rec(calls=r'^ConstrainedVariable::(add|remove)Constraint$'), sizes=(1, 2), opaque=lambda q: q in ('Constraint::isValid',) or q.startswith('ConstrainedVariable::remove'))
    ck.forall_paths(r1, 'constraint destroyed', f, ps, lambda p: True if purging(p) else link('removeConstraint')(p), 'link')
    for meth, kind, note in (('addConstraint', '+', 'notifyConstraintAdded'), ('removeConstraint', '-', 'notifyConstraintRemoved')):
        f = ck.fn('ConstrainedVariable::' + meth)
        ps, fl = ck.flow(f, rec(calls=r'ConstrainedVariableListener::notify|::handleConstraint', conts=r'^this\.m_constraints$'), opaque=lambda q: q.endswith('isConstrainedBy'))

        def pr(p):
            if meth == 'removeConstraint' and p.facts.get('this.m_deleted'):
                return True
            es = [t for t in p.trace if t[0] in '+-' and t[1] == 'this.m_constraints']
            if [e[0] for e in es] != [kind] or '($0,$1)' not in es[0][2]:
                return 'own list changes %s' % [(e[0], e[2]) for e in es]
            h = [t for t in p.trace if t[0] == 'c' and t[1].startswith('handleConstraint')]
            if [(t[1], t[3]) for t in h] != [('handleConstraintAdded' if kind == '+' else 'handleConstraintRemoved', ('$0',))]:
                return 'hook called %s' % [(t[1], t[3]) for t in h]
            r = forward_to_all(p, 'this.m_listeners', note, ['$0', '$1'])
            return r
        ck.forall_paths(r1, 'ConstrainedVariable::' + meth, f, ps, pr, 'variable side of the link')

    # ---- agendas
    AG = 'this.m_agenda'
    for q, kind in (('handleConstraintAdded', '+'), ('handleConstraintRemoved', '-'), ('handleConstraintActivated', '+'), ('handleConstraintDeactivated', '-')):
        f = ck.fn('DefaultPropagator::' + q)
        ps, fl = ck.flow(f, rec(conts=r'm_agenda$'), opaque={'DefaultPropagator::isValid'})
        ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if [(t[0], t[1]) for t in p.trace] == [(kind, AG)] and '$0' in p.trace[0][2] else 'agenda changes: %s' % [t for t in p.trace], 'agenda')
    f = ck.fn('DefaultPropagator::handleNotification')
    ps, fl = ck.flow(f, rec(conts=r'm_agenda$'))
    ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if [(t[0], t[1]) for t in p.trace] == [('+', AG)] and '$2' in p.trace[0][2] or
                    (not p.trace and any('m_activeConstraint' in a and b and a.startswith('eq(') for a, b in p.facts.items())) else 'a notified constraint other than the executing one must be queued: %s' % fmt_trace(p.trace), 'agenda')
    if not any(p.trace for p in ps if p.outcome == 'ret'):
        raise Broken('C05: notifications never queue')
    upd = ck.fn('DefaultPropagator::updateRequired')
    for n in (0, 1, 2):
        ps, fl = ck.flow(upd, rec(), cont_init={AG: (n,)})
        ck.forall_paths(r2, 'updateRequired with %d' % n, upd, ps, lambda p: True if p.val == K(n > 0) else 'asks for time: %s with %d constraints queued' % (vs(p.val), n), 'agenda')
    f = fn_of(ck, 'DefaultPropagator::execute', np=0)
    pi = ck.fn(CE + 'provenInconsistent')
    ps, fl = ck.flow(f, rec(calls=r'^(ConstraintEngine::execute|ViolationMgr\w*::canContinuePropagation)$', conts=r'm_agenda$'), cont_init={AG: (1, 2)}, assume={'this.m_activeConstraint': K(0)}, volatile=r'getEmptyVariables\(', scope={'Propagator'})
    isact = ck.fn('Constraint::isActive')

    def dex(p):
        e = [t for t in p.trace if t[0] == 'c' and t[1] == 'execute']
        taken = [t for t in p.trace if t[0] == '-' and t[1] == AG]
        if len(e) > 1:
            return 'executes %d constraints in one step' % len(e)
        if any(w.startswith('size(') and 'getEmptyVariables' in w and not w.endswith('=0') for w in p.st.why[:2]):
            return True
        if len(taken) != 1:
            return 'takes %d constraints off the agenda' % len(taken)
        x = taken[0][2][0]
        if e and e[0][3][0] != x:
            return 'executes %s but takes %s off the agenda' % (e[0][3][0], x)
        if e and p.trace.index(taken[0]) > p.trace.index(e[0]):
            return 'constraint is still queued while it executes'
        act = was(p, 'eq(%s.m_deactivationRefCount,0)' % x)
        if act is None:
            q = query(fl, p.st, isact, x)
            act = True if q == {True} else False if q == {False} else None
        if (act is True) != bool(e):
            return 'active=%s but executed %d times' % (act, len(e))
        cl = [t for t in p.trace if t[0] == '0']
        if cl and any('canContinue' in t[1] for t in p.trace if t[0] == 'c') and any('canContinuePropagation' in a and b for a, b in p.facts.items()):
            return 'agenda dropped although propagation may continue'
        return True
    ck.forall_paths(r2, f['sq'], f, ps, dex, 'execution step')

    def drop(p):
        cont = [b for a, b in p.facts.items() if 'canContinuePropagation' in a]
        cl = [t for t in p.trace if t[0] == '0']
        inc = query(fl, p.st, pi, 'this.m_constraintEngine')
        if inc == {False} and cl:
            return 'agenda dropped although the network is consistent'
        if cl and True in cont:
            return 'agenda dropped although propagation may continue'
        if inc == {True} and not cl and cont != [True]:
            return 'agenda kept although propagation was proven inconsistent and cannot continue'
        return True
    ck.forall_paths(r2, f['sq'] + ' clean-up', f, ps, drop, 'agenda')
    EQ = 'EqualityConstraintPropagator::'
    for q in ('handleConstraintAdded', 'handleConstraintActivated'):
        f = ck.fn(EQ + q)
        ps, fl = ck.flow(f, rec(calls=r'^EquivalenceClassCollection::(add|remove)Connection$', conts=r'm_eqClassAgenda$'), opaque=lambda q: q.startswith('EquivalenceClass'))
        ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if [(t[1], set(t[3])) for t in p.trace if t[0] == 'c'] == [('addConnection', {'$0.m_variables[0]', '$0.m_variables[1]'})] or
                        [(t[1], len(set(t[3]))) for t in p.trace if t[0] == 'c'] == [('addConnection', 2)] and find(p, '+') and find(p, '+')[-1] > find(p, 'c')[0] else 'equality not entered in its class and queued: %s' % (p.trace,), 'equality class')
        ck.forall_paths(r2, f['sq'] + ' queued', f, ps, lambda p: True if find(p, '+') and find(p, 'c', 'addConnection') and find(p, '+')[-1] > find(p, 'c', 'addConnection')[-1] else 'the merged class is not queued', 'equality class')
    for q in ('handleConstraintRemoved', 'handleConstraintDeactivated'):
        f = ck.fn(EQ + q)
        ps, fl = ck.flow(f, rec(calls=r'^EquivalenceClassCollection::(add|remove)Connection$', conts=r'm_eqClassAgenda$'), opaque=lambda q: q.startswith('EquivalenceClass'))
        ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if [(t[1], len(set(t[3]))) for t in p.trace if t[0] == 'c'] == [('removeConnection', 2)] and fin(p, 'this.m_fullReprop') == 'true' else
                        'equality not withdrawn, or full repropagation not requested (%s)' % fin(p, 'this.m_fullReprop'), 'equality class')
    f = ck.fn(EQ + 'handleNotification')
    ps, fl = ck.flow(f, rec(conts=r'm_eqClassAgenda$'), opaque=lambda q: q.startswith('EquivalenceClass'))
    ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if len(find(p, '+')) == 1 or p.facts.get('this.m_fullReprop') or p.facts.get('this.m_active') else 'change of a variable does not queue its class', 'equality class')
    f = ck.fn(EQ + 'updateRequired')
    for n in (0, 1):
        for full in (True, False):
            ps, fl = ck.flow(f, rec(), cont_init={'this.m_eqClassAgenda': (n,)}, assume={'this.m_fullReprop': K(full)})
            ck.forall_paths(r2, '%s(%d,%s)' % (f['sq'], n, full), f, ps, lambda p: True if p.val == K(bool(n or full)) else vs(p.val), 'asks for time')
    for meth, kind, h in (('addConstraint', '+', 'handleConstraintAdded'), ('removeConstraint', '-', 'handleConstraintRemoved')):
        f = ck.fn('Propagator::' + meth)
        ps, fl = ck.flow(f, rec(calls='::handleConstraint', conts='^this.m_constraints$'))
        ck.forall_paths(r2, f['sq'], f, ps, lambda p: True if find(p, kind, recv='this.m_constraints', args=['$0']) and [(t[1], t[3]) for t in p.trace if t[0] == 'c'] == [(h, ('$0',))] else '%s' % (p.trace,), 'propagator membership')

    # ---- dispatch of changes
    f = ck.fn(CE + 'notify')
    ct = ck.P.cls.get('DomainListener')
    act = ck.fn('ConstrainedVariable::isActive')
    opq = {CE + 'handleRelax', CE + 'handleEmpty', CE + 'handleRestrict'}
    kinds = {'EMPTIED': 'handleEmpty', 'RELAXED': 'handleRelax', 'OPENED': 'handleRelax', None: 'handleRestrict'}
    ps, fl = ck.flow(f, rec(calls=r'^(ConstraintEngine::handle\w+|Propagator::handleNotification|ConstrainedVariable::setCurrent)$'), opaque=opq, cont_init={'this.m_listeners': (0,)})

    def kind_of(p):
        for a, b in p.facts.items():
            if b and a.startswith("eq($1,'enum:") and a.endswith("')"):
                return a.split('::')[-1][:-2]
        return None

    def inactive(p):
        return query(fl, p.st, act, '$0') == {False}

    def disp(p):
        if inactive(p):
            return True if not p.trace else 'inactive variable handled'
        want = kinds.get(kind_of(p), 'handleRestrict')
        got = [t[1] for t in p.trace if t[0] == 'c' and t[4].startswith(CE)]
        return True if got == [want] and find(p, 'c', want, args=['$0']) else 'change %s handled by %s' % (kind_of(p) or 'restriction', got)
    ck.forall_paths(r3, 'classification', f, ps, disp, 'change')
    seenk = {kind_of(p) for p in ps if p.outcome == 'ret'}
    ck.ob(r3, 'kinds distinguished', {'EMPTIED', 'RELAXED', 'OPENED'} <= seenk, 'emptied, relaxed and opened domains are not told apart: %s' % sorted(map(str, seenk)), ck.where(f))
    cis = ck.fn('Constraint::isActive')

    def fwd(p):
        if inactive(p):
            return True
        els = contents(p, '$0.m_constraints')
        if els is None:
            return 'constraints of the variable are not visited'
        for i, e in enumerate(els):
            c, ix = (vs(e[1]), vs(e[2])) if e[0] == 'pair' else (vs(e) + '.first', vs(e) + '.second')
            got = [t for t in p.trace if t[1] == 'handleNotification' and len(t[3]) > 2 and t[3][2] == c]
            a = query(fl, p.st, cis, c)
            ign = [b for k, b in p.facts.items() if k.startswith(c + '.canIgnore(')]
            if kind_of(p) == 'EMPTIED' or a == {False} or ign == [True]:
                if got:
                    return 'notification delivered although it must be dropped'
                continue
            if len(got) != 1:
                return 'constraint %s is notified %d times (active=%s ignore=%s)' % (c, len(got), sorted(a), ign)
            if got[0][3][0] != '$0' or got[0][3][1] != ix or got[0][3][3] not in ('$1', '&$1'):
                return 'notification carries %s' % (got[0][3],)
            if not got[0][2].startswith(c + '.'):
                return 'notification goes to %s' % got[0][2]
        return True
    ck.forall_paths(r3, 'constraints notified', f, ps, fwd, 'change')
    ck.forall_paths(r3, 'engine marked dirty', f, ps, lambda p: True if fin(p, 'this.m_dirty') == 'true' else 'engine is not marked dirty', 'change')
    f = ck.fn(CE + 'handleEmpty')
    ps, fl = ck.flow(f, rec(calls=r'^ViolationMgr\w*::'))
    ck.forall_paths(r3, 'emptied variable', f, ps, lambda p: True if [(t[1], t[3]) for t in p.trace if t[1] in ('addEmptyVariable', 'handleEmpty')] == [('addEmptyVariable', ('$0',)), ('handleEmpty', ('$0',))] else
                    'violation manager told %s' % [t[1] for t in p.trace], 'change')
    f = ck.fn(CE + 'handleRelax')
    ps, fl = ck.flow(f, rec(calls=r'^(ViolationMgr\w*::handleRelax|ConstrainedVariable::(relax|updateLastRelaxed))$', conts=r'^this\.m_relaxed$'), assume={'this.m_relaxing': K(False)}, sizes=(0, 1))

    def hrel(p):
        if not find(p, '+', recv='this.m_relaxed', args=['$0']):
            return 'variable not recorded as relaxed'
        rv = p.facts.get('this.m_relaxingViolation')
        n = len(find(p, 'c', 'handleRelax', args=['$0']))
        if rv is None or n != (0 if rv else 1):
            return 'violation manager told %d times (relaxing violations: %s)' % (n, rv)
        return True
    ck.forall_paths(r3, 'relaxed variable', f, ps, hrel, 'change')

    def linked(p):
        rx = {t[2] for t in p.trace if t[0] == 'c' and t[1] == 'relax'}
        for x in rx:
            if len(find(p, 'c', 'relax', x)) != 1:
                return '%s relaxed twice' % x
            u = find(p, 'c', 'updateLastRelaxed', x)
            if not u or u[0] > find(p, 'c', 'relax', x)[0]:
                return '%s is not stamped before it is relaxed' % x
            if p.facts.get('this.m_relaxingViolation') is False and not find(p, 'c', 'handleRelax', args=[x]):
                return 'violations on linked variable %s are not revisited' % x
        return True
    ck.forall_paths(r3, 'linked variables', f, ps, linked, 'change')
    ck.ob(r3, 'linked variables are relaxed', any(t[1] == 'relax' for p in ps for t in p.trace if t[0] == 'c' and t[2] != '$0'), 'no path relaxes a linked variable', ck.where(f))
    f = ck.fn(CE + 'addLinkedVarsForRelaxation')
    ps, fl = ck.flow(f, rec(conts=r'^\$1$|^\$3$'), sizes=(0, 1))

    def al(p):
        els = contents(p, '$0.m_constraints')
        if els is None:
            return 'constraints not visited'
        for e in els:
            c = vs(e[1]) if e[0] == 'pair' else vs(e) + '.first'
            a = query(fl, p.st, cis, c)
            sc = [k for k in p.st.conts if k.startswith(c + '.getModifiedVariables(')]
            if a == {True} and not sc:
                return 'scope of an active constraint is not visited'
            for k in sc:
                for v in p.st.conts[k][0]:
                    v = vs(v)
                    spec = p.facts.get('%s.m_specifiedFlag' % v, p.facts.get('%s.isSpecified()' % v))
                    seen = was(p, 'in(%s,$3)' % v)
                    late = p.facts.get('lt(%s.m_lastRelaxed,this.m_cycleCount)' % v)
                    put = bool(find(p, '+', recv='$1', args=[v]))
                    if put and spec is not False:
                        return 'specified variable queued for relaxation'
                    if spec is False and seen is False and late is True and not put:
                        return 'unspecified linked variable not queued for relaxation'
        return True
    ck.forall_paths(r3, 'linked variables collected', f, ps, al, 'change')

    # ---- removal
    f = [x for x in ck.P.byq[CE + 'remove'] if 'Constraint' in x['p'][0]['t'] and 'Listener' not in x['p'][0]['t'] and 'Variable' not in x['p'][0]['t']]
    if len(f) != 1:
        raise Broken('remove(constraint)')
    f = f[0]
    ps, fl = ck.flow(f, rec(calls=r'^(Propagator::removeConstraint|ConstrainedVariable::relax|ViolationMgr\w*::handleRemoved)$', conts=r'^this\.m_(constraints|redundantConstraints)$'), sizes=(0, 1, 2), cont_init={'this.m_listeners': (0,)})
    ck.forall_paths(r4, 'own sets', f, ps, lambda p: True if find(p, '-', recv='this.m_constraints', args=['$0']) and find(p, '-', recv='this.m_redundantConstraints', args=['$0']) else 'constraint stays in an engine set', 'removal')
    ck.forall_paths(r4, 'propagator and violations', f, ps, lambda p: True if purging(p) or (len(find(p, 'c', 'removeConstraint', args=['$0'])) == 1 and len(find(p, 'c', 'handleRemoved', args=['$0'])) == 1) else
                    'propagator or violation manager not told', 'removal')

    def relx(p):
        if purging(p) or query(fl, p.st, cis, '$0') != {True}:
            return True
        sc = [k for k in p.st.conts if k.startswith('$0.getModifiedVariables(')]
        if not sc:
            return 'variables of an active constraint are not considered for relaxation'
        for v in p.st.conts[sc[0]][0]:
            v = vs(v)
            late = p.facts.get('lt(%s.m_lastRelaxed,this.m_cycleCount)' % v)
            n = len(find(p, 'c', 'relax', v))
            if late is not False and n != 1:
                return '%s is relaxed %d times' % (v, n)
        return True
    ck.forall_paths(r4, 'restricted variables', f, ps, relx, 'removal')
    f = [x for x in ck.P.byq[CE + 'remove'] if 'Variable' in x['p'][0]['t']]
    if len(f) != 1:
        raise Broken('remove(variable)')
    f = f[0]
    ps, fl = ck.flow(f, rec(calls=r'^ViolationMgr\w*::clearEmptyVariables$', conts=r'^this\.m_(variables|relaxed)$'), cont_init={'this.m_listeners': (0,)})
    ck.forall_paths(r4, 'variable', f, ps, lambda p: True if find(p, '-', recv='this.m_variables', args=['$0']) and find(p, '-', recv='this.m_relaxed', args=['$0']) else 'variable stays in an engine set', 'removal')

    def emp(p):
        e = [b for a, b in p.facts.items() if '.isEmpty($0)' in a]
        return True if purging(p) or e == [False] or find(p, 'c', 'clearEmptyVariables') or (not e and find(p, 'c')) else 'a deleted variable stays in the set of empty variables'
    ck.forall_paths(r4, 'empty variable', f, ps, emp, 'removal')
    for note, h in (('notifyDeactivated', 'handleConstraintDeactivated'), ('notifyActivated', 'handleConstraintActivated')):
        f = [x for x in ck.P.byq[CE + note] if 'Variable' not in x['p'][0]['t']]
        if len(f) != 1:
            raise Broken(note)
        ps, fl = ck.flow(f[0], rec(calls=r'^Propagator::'), cont_init={'this.m_listeners': (0,)})
        ck.forall_paths(r4, note, f[0], ps, lambda p: True if [(t[1], t[3]) for t in p.trace if t[1].startswith('handle')] == [(h, ('$0',))] and p.trace[-1][2].startswith('$0.') else 'propagator told %s' % [t[1] for t in p.trace], 'activation')
    for note, h in (('notifyDeactivated', 'handleVariableDeactivated'), ('notifyActivated', 'handleVariableActivated')):
        f = [x for x in ck.P.byq[CE + note] if 'Variable' in x['p'][0]['t']]
        if len(f) != 1:
            raise Broken(note)
        ps, fl = ck.flow(f[0], rec(calls=r'^Propagator::'), cont_init={'this.m_listeners': (0,)})
        ck.forall_paths(r4, note + ' variable', f[0], ps, lambda p: forward_to_all(p, 'this.m_propagators', h, ['$0']), 'activation')

    # ---- violations
    VM = 'ViolationMgrImpl::'
    VC = 'this.m_violatedConstraints'
    opq = lambda q: q.startswith(('Constraint::', 'ConstraintEngine::'))
    f = ck.fn(VM + 'addViolatedConstraint')
    ps, fl = ck.flow(f, rec(calls=r'^Constraint::', conts='m_violatedConstraints'), opaque=opq)
    ck.forall_paths(r5, f['sq'], f, ps, lambda p: True if find(p, '+', recv=VC, args=['$0']) and [(t[1], t[2]) for t in p.trace if t[0] == 'c' and t[1] in ('deactivate', 'undoDeactivation')] == [('deactivate', '$0')] else '%s' % (p.trace,), 'violated constraint')
    f = ck.fn(VM + 'removeViolatedConstraint')
    ps, fl = ck.flow(f, rec(calls=r'^Constraint::', conts='m_violatedConstraints'), opaque=opq)
    ck.forall_paths(r5, f['sq'], f, ps, lambda p: True if find(p, '-', recv=VC, args=['$0']) and [(t[1], t[2]) for t in p.trace if t[0] == 'c' and t[1] in ('deactivate', 'undoDeactivation')] == [('undoDeactivation', '$0')] else '%s' % (p.trace,), 'violated constraint')
    f = ck.fn(VM + 'handleRemoved')
    ps, fl = ck.flow(f, rec(conts='m_violatedConstraints'), opaque=opq)
    ck.forall_paths(r5, f['sq'], f, ps, lambda p: True if was(p, 'in($0,%s)' % VC) is False or find(p, '-', recv=VC) else 'deleted constraint stays listed as violated', 'violated constraint')
    for q, cls in (('notifyViolated', 'addViolatedConstraint'), ('notifyNoLongerViolated', 'removeViolatedConstraint')):
        f = ck.fn('Constraint::' + q)
        ps, fl = ck.flow(f, rec(calls=r'^ViolationMgr\w*::'))
        ck.forall_paths(r5, f['sq'], f, ps, lambda p: True if [(t[1], t[3]) for t in p.trace] in ([(cls, ('this',))], [(cls, ('this.m_id',))]) else '%s' % (p.trace,), 'violated constraint')
    f = ck.fn(VM + 'canContinuePropagation')
    for n, mx, want in ((0, 0, False), (0, 1, True), (1, 1, False), (1, 2, True), (2, 1, False)):
        ps, fl = ck.flow(f, rec(), cont_init={VC: (n,)}, assume={'this.m_maxViolationsAllowed': K(mx)})
        ck.forall_paths(r5, '%s %d of %d' % (f['sq'], n, mx), f, ps, lambda p: True if p.val == K(want) else 'answers %s' % vs(p.val), 'violation limit')
    f = ck.fn(VM + 'handleEmpty')
    for n, mx in ((0, 0), (0, 1), (1, 1)):
        ps, fl = ck.flow(f, rec(calls=r'^Constraint::notifyViolated$'), cont_init={VC: (n,)}, assume={'this.m_maxViolationsAllowed': K(mx)}, opaque=lambda q: q == 'Constraint::notifyViolated')

        def he(p):
            c = find(p, 'c', 'notifyViolated')
            if n >= mx:
                return True if not c else 'constraint marked violated although no violation is allowed'
            own = [b for a, b in p.facts.items() if a.startswith('eq(') and a.endswith(',null)') and 'ropagatingConstraint' in a]
            return True if len(c) == 1 or own == [True] else 'constraint that emptied the variable is not marked violated'
        ck.forall_paths(r5, '%s %d of %d' % (f['sq'], n, mx), f, ps, he, 'violation')
    f = ck.fn(VM + 'handleRelax')
    ps, fl = ck.flow(f, rec(calls=r'^Constraint::notifyNoLongerViolated$'), opaque=lambda q: q.startswith('Constraint::') or q.endswith('::constraints'), sizes=(0, 1))

    def hr(p):
        c = [k for k in p.st.conts if k.startswith('out:constraints')]
        if not c:
            return True if contents(p, VC) == () else 'constraints of the relaxed variable are not visited'
        for e in p.st.conts[c[0]][0]:
            v = was(p, 'in(%s,%s)' % (vs(e), VC))
            n = len(find(p, 'c', 'notifyNoLongerViolated', vs(e)))
            if v is None or n != int(v):
                return 'constraint (violated=%s) restored %d times' % (v, n)
        return True
    ck.forall_paths(r5, f['sq'], f, ps, hr, 'violation')

    # ---- redundancy
    f = ck.fn(CE + 'processRedundantConstraints')
    ps, fl = ck.flow(f, rec(calls=r'^Constraint::deactivate$'), opaque=lambda q: q.startswith('Constraint::') or q.endswith('constraintConsistent'))

    def prc(p):
        els = {t[2] for t in p.trace}
        return True if contents(p, 'this.m_redundantConstraints') == () and len(p.trace) == len(els) else 'redundant constraints not deactivated once each and forgotten'
    ck.forall_paths(r6, f['sq'], f, ps, prc, 'redundant')
    ck.ob(r6, 'deactivated', any(len(p.trace) == 2 for p in ps) and any(len(p.trace) == 1 for p in ps), 'not every redundant constraint is deactivated', ck.where(f))
    f = ck.fn(CE + 'notifyRedundant')
    ps, fl = ck.flow(f, rec(calls=r'^ConstraintEngine::notifyActivated$', conts='m_redundantConstraints'), opaque=lambda q: q.endswith('notifyActivated'))
    ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if query(fl, p.st, cis, '$0') == {False} or (find(p, '+', args=['$0']) and find(p, 'c', args=['$0'])) else 'active constraint that became redundant is not propagated once more', 'redundant')
    f = [x for x in ck.P.byq[CE + 'add'] if len(x['p']) == 2]
    f = f[0] if len(f) == 1 else None
    if f is None:
        raise Broken('add(constraint)')
    ps, fl = ck.flow(f, rec(calls=r'^Propagator::addConstraint$|::setPropagator$', conts='m_redundantConstraints|m_constraints$'), cont_init={'this.m_listeners': (0,)}, opaque=lambda q: q.endswith('setPropagator') or q.startswith('Propagator::'))
    ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if len(find(p, 'c', 'addConstraint', args=['$0'])) == 1 and len(find(p, 'c', 'setPropagator', '$0')) == 1 and find(p, '+', recv='this.m_constraints') and
                    (p.facts.get('$0.m_isRedundant') is not True or find(p, '+', recv='this.m_redundantConstraints')) and find(p, 'c', 'setPropagator')[0] > find(p, 'c', 'addConstraint')[0] and
                    p.trace[find(p, 'c', 'setPropagator')[0]][3][0] == p.trace[find(p, 'c', 'addConstraint')[0]][2] else '%s' % (p.trace,), 'new constraint')
    f = ck.fn('Constraint::notifyBaseDomainRestricted')
    ps, fl = ck.flow(f, rec(calls=r'^ConstraintEngine::notifyRedundant$'))

    def nb(p):
        n = len(find(p, 'c'))
        v = p.st.store.get('this.m_isRedundant')
        now = p.facts.get('this.m_isRedundant') if v is None else (v[1] if v[0] == 'k' else p.facts.get(vs(v)))
        if was(p, 'this.m_isRedundant') is True:
            return True if n == 0 else 'already redundant'
        return True if n == int(bool(now)) else 'redundancy %s reported %d times' % (now, n)
    ck.forall_paths(r6, f['sq'], f, ps, nb, 'redundant')
    f = ck.fn('ConstrainedVariable::restrictBaseDomain')
    ps, fl = ck.flow(f, rec(calls=r'(notifyBaseDomainRestricted|ConstraintEngine::notify|handleRestrictBaseDomain)$'), opaque=lambda q: q.startswith(('Constraint::', 'Domain::')))
    ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if not p.trace or (len(find(p, 'c', 'handleRestrictBaseDomain', args=['&$0'])) + len(find(p, 'c', 'handleRestrictBaseDomain', args=['$0'])) == 1 and
                    len(find(p, 'c', 'notify')) == 1 and all(len(find(p, 'c', 'notifyBaseDomainRestricted', vs(e[1]) if e[0] == 'pair' else vs(e) + '.first')) == 1 for e in contents(p, 'this.m_constraints') or ())) else '%s' % (p.trace,), 'base domain')
