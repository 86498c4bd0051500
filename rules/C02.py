"""Propagation is never re-entered, runs to quiescence and restores the engine's transient state."""
from vf.lib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule: the engine documents no recovery from EUROPA::Error',
               'propagators and callbacks called during a run do not write the engine\'s private flags (they are not friends; checked by the accessibility of the fields)']
VOL = r'getEmptyVariables\(|updateRequired\(|canContinuePropagation\('
CE = 'ConstraintEngine::'


def run(ck):
    r1 = ck.rule('no-reentry', 'a propagation run that finds another run in progress, or the engine being purged, executes nothing', 2)
    r2 = ck.rule('flags-during', 'propagators execute only while the in-progress flag is set; callbacks run with the flag cleared and automatic propagation switched off', 2)
    r3 = ck.rule('flags-after', 'every transient flag has its entry value again when the function returns', 8)
    r4 = ck.rule('quiescence', 'success is reported only when no variable is empty and no enabled propagator has work left; work left over keeps the engine dirty', 7)
    r5 = ck.rule('callbacks', 'every post-propagation callback runs once per round, and any callback that changed something causes another round', 2)
    r6 = ck.rule('scoped-owner', 'while a constraint executes, each of its variables names it as the propagating constraint, and none does afterwards', 3)

    f = ck.fn(CE + 'doPropagate')
    nxt = ck.fn(CE + 'getNextPropagator')
    pi = ck.fn(CE + 'provenInconsistent')
    cc = ck.fn(CE + 'constraintConsistent')

    def rcd(ev, st, fl):
        if ev.kind == 'call' and ev.name == 'Propagator::execute':
            return ('exec', vs(st.store.get('this.m_propInProgress', S('?'))), tuple(sorted(map(str, query(fl, st, pi)))))
        if ev.kind == 'call' and (ev.m == 'operator()' or 'Callback' in ev.name) and ev.recv.startswith('this.m_callbacks'):
            return ('cb', ev.recv, vs(st.store.get('this.m_propInProgress', S('?'))), vs(st.store.get('this.m_autoPropagate', S('?'))))
        if ev.kind == 'call' and ev.m == 'relaxEmptyVariables':
            return ('relax',)
        return None
    for a in ('this.m_propInProgress', 'Entity::isPurging()'):
        ps, fl = ck.flow(f, rcd, assume={a: True}, sizes=(0, 1))
        bad = [p for p in ps if p.outcome == 'ret' and any(t[0] in ('exec', 'cb') for t in p.trace)]
        ck.ob(r1, a, not bad, 'a propagator or callback runs although %s holds' % a, ck.where(f), bad and bad[0].why() or '')
    ps, fl = ck.flow(f, rcd, assume={'this.m_propInProgress': K(False)}, sizes=(0, 1), trip=2, opaque={CE + 'processRedundantConstraints'},
                     cont_init={'this.m_listeners': (0,), 'this.m_propagators': (0, 1)}, volatile=VOL)
    ck.counters['propagation_paths'] = len(ps)
    ex = lambda p: [t for t in p.trace if t[0] == 'exec']
    cb = lambda p: [t for t in p.trace if t[0] == 'cb']
    ck.forall_paths(r2, 'propagators', f, ps, lambda p: True if all(t[1] == 'true' for t in ex(p)) else 'in-progress flag is %s while a propagator executes' % [t[1] for t in ex(p)], 'flag')
    ck.forall_paths(r2, 'callbacks', f, ps, lambda p: True if all(t[2] == 'false' and t[3] == 'false' for t in cb(p)) else 'flags (in progress, automatic) are %s during a callback' % [(t[2], t[3]) for t in cb(p)], 'flag')
    if not any(ex(p) for p in ps) or not any(cb(p) for p in ps):
        raise Broken('C02: no path executes a propagator / callback')
    ck.forall_paths(r3, 'in progress', f, ps, lambda p: True if fin(p, 'this.m_propInProgress') == 'false' else 'm_propInProgress ends %s' % fin(p, 'this.m_propInProgress'), 'flag')

    def auto(p):
        v = p.st.store.get('this.m_autoPropagate')
        if v is None or v == S('this.m_autoPropagate'):
            return True
        fct = p.facts.get('this.m_autoPropagate')
        return True if v[0] == 'k' and fct is not None and v[1] == fct else 'automatic propagation ends %s, was %s' % (vs(v), fct)
    ck.forall_paths(r3, 'automatic propagation', f, ps, auto, 'flag')

    def rl(p):
        c = p.st.conts.get('this.m_relaxed')
        # paths that never started working (clean engine / still empty variables) leave it alone
        if not ex(p) and not cb(p) and fin(p, 'this.m_cycleCount') == 'this.m_cycleCount':
            return True
        return True if c is not None and c == ((), True) else 'set of relaxed variables not emptied'
    ck.forall_paths(r3, 'relaxed set', f, ps, rl, 'state')

    def quiet(p):
        if vs(p.val) != 'true':
            return True
        if not ex(p) and was(p, 'this.m_dirty') is False:
            return True
        a, b = query(fl, p.st, cc), query(fl, p.st, pi)
        return True if a == {True} and b == {False} else 'returns success although the network may be inconsistent or a propagator may have work (consistent=%s inconsistent=%s)' % (sorted(a), sorted(b))
    ck.forall_paths(r4, 'success', f, ps, quiet, 'quiescence')

    def dirty(p):
        v = p.st.store.get('this.m_dirty')
        if v is None:
            return True
        if v == K(False) and vs(p.val) != 'true':
            return 'engine marked clean although propagation did not succeed'
        return True
    ck.forall_paths(r4, 'dirty', f, ps, dirty, 'quiescence')
    ck.forall_paths(r4, 'stop when inconsistent', f, ps, lambda p: True if all(t[2] == ('False',) for t in ex(p)) else 'a propagator executes although inconsistency is not excluded', 'quiescence')
    ck.forall_paths(r4, 'clean means nothing to do', f, ps, lambda p: True if was(p, 'this.m_dirty') is not False or (vs(p.val) == 'true' and not ex(p)) else 'clean engine', 'quiescence')

    def cbs(p):
        c = each(p, 'this.m_callbacks')
        if c is None:
            return True if not ex(p) else 'callbacks are not consulted after propagators executed'
        n = [sum(1 for t in cb(p) if t[1] == e or t[1].startswith(e)) for e in c]
        return True if len(set(n)) <= 1 and (not n or n[0] >= 1) else 'callbacks run %s times' % n
    # a callback that reports a change leads to another round: two callbacks, no propagators
    ps1, fl1 = ck.flow(f, rcd, assume={'this.m_propInProgress': K(False)}, opaque={CE + 'processRedundantConstraints'},
                       sizes=(0, 1), cont_init={'this.m_listeners': (0,), 'this.m_propagators': (0,), 'this.m_callbacks': (2,)}, volatile=VOL)
    ck.forall_paths(r5, 'each round', f, ps + ps1, cbs, 'callbacks')
    heads = lambda p: sum(1 for t in cb(p))
    multi = [p for p in ps1 if p.outcome == 'ret' and heads(p) > 2]
    once = [p for p in ps1 if p.outcome == 'ret' and heads(p) == 2]
    badonce = [p for p in once if any(('this.m_callbacks[%d]' % i) in a and b is True and 'eq(' not in a for i in (0, 1) for a, b in p.facts.items())]
    ck.ob(r5, 'repeat after change', bool(multi) and not badonce, 'a callback reported a change but no further propagation round follows', ck.where(f), badonce and badonce[0].why() or '')

    # propagate(): repeat while violations may be relaxed
    f = ck.fn(CE + 'propagate')

    def rp(ev, st, fl):
        if ev.kind == 'call' and ev.name == CE + 'doPropagate':
            return ('do',)
        if ev.kind == 'call' and ev.m == 'relaxEmptyVariables':
            return ('relax', vs(st.store.get('this.m_relaxingViolation', S('?'))))
    ps, fl = ck.flow(f, rp, opaque={CE + 'doPropagate'})
    ck.forall_paths(r3, 'relaxing violations', f, ps, lambda p: True if fin(p, 'this.m_relaxingViolation') in ('false', 'this.m_relaxingViolation') else 'flag stays %s' % fin(p, 'this.m_relaxingViolation'), 'flag')
    ck.forall_paths(r2, 'violation relaxation', f, ps, lambda p: True if all(t[1] == 'true' for t in p.trace if t[0] == 'relax') else 'flag not set while relaxing violated variables', 'flag')
    ck.forall_paths(r4, 'retry', f, ps, lambda p: True if p.trace and p.trace[-1][0] == 'do' and all(p.trace[i + 1][0] == 'relax' for i in range(len(p.trace) - 1) if p.trace[i][0] == 'do') else
                    'the last step of a run must be a propagation pass, and every repetition must relax the empty variables first: %s' % [t[0] for t in p.trace], 'quiescence')

    def res(p):
        # single-pass paths: the value returned is the pass's own result
        d = [t for t in p.trace if t[0] == 'do']
        if len(d) != 1:
            return True
        a = [b for x, b in p.facts.items() if 'doPropagate' in x]
        return True if (p.val[0] == 's' and 'doPropagate' in p.val[1]) or (len(a) == 1 and p.val == K(a[0])) else 'result %s is not that of the pass' % vs(p.val)
    ck.forall_paths(r4, 'result', f, ps, res, 'quiescence')

    f = ck.fn(CE + 'setAutoPropagation')
    ps, fl = ck.flow(f, rec(calls='^ConstraintEngine::propagate$', writes='m_autoPropagate$'), opaque={CE + 'propagate'})
    for v in (True, False):
        ps, fl = ck.flow(f, rec(calls='^ConstraintEngine::propagate$', writes='m_autoPropagate$'), opaque={CE + 'propagate'}, args=[K(v)])
        ck.forall_paths(r4, 'automatic propagation set to %s' % v, f, ps, lambda p: True if ([t[2] for t in p.trace if t[0] == 'w'][-1:] == [str(v).lower()] and (not find(p, 'c') or find(p, 'w')[-1] < find(p, 'c')[0]) or p.facts.get('this.m_autoPropagate') is v) and
                        (bool(find(p, 'c')) == (v and was(p, 'this.m_autoPropagate') is False and was(p, 'this.m_propInProgress') is False)) else
                        'flag %s, propagates %d times' % (fin(p, 'this.m_autoPropagate'), len(find(p, 'c'))), 'switching automatic propagation on catches up, switching off does not propagate')

    # relaxation guards
    f = ck.fn('ViolationMgrImpl::relaxEmptyVariables')

    def rr_(ev, st, fl):
        if ev.kind == 'call' and ev.m == 'relax':
            return ('relax', ev.recv, vs(st.store.get('this.m_relaxing', S('?'))))
        if ev.kind == 'cdel' and ev.recv == 'this.m_emptyVariables':
            return ('gone', vs(ev.args[0]) if ev.args else '')
    ps, fl = ck.flow(f, rr_, assume={'this.m_relaxing': K(True)})
    ck.forall_paths(r1, 'nested relaxation of empty variables', f, ps, lambda p: True if not p.trace and fin(p, 'this.m_relaxing') == 'true' else 'nested relaxation does something', 'guard')
    ps, fl = ck.flow(f, rr_, assume={'this.m_relaxing': K(False)})
    ck.forall_paths(r3, 'relaxing empty variables', f, ps, lambda p: True if fin(p, 'this.m_relaxing') == 'false' and p.st.conts.get('this.m_emptyVariables', (None,))[0] == () else
                    'guard ends %s, empty variables left %s' % (fin(p, 'this.m_relaxing'), p.st.conts.get('this.m_emptyVariables')), 'guard')
    ck.forall_paths(r2, 'relaxing empty variables', f, ps, lambda p: True if all(t[2] == 'true' for t in p.trace if t[0] == 'relax') and
                    {t[1] for t in p.trace if t[0] == 'relax'} == {t[1] for t in p.trace if t[0] == 'gone'} else 'each empty variable must be relaxed, under the guard, and dropped from the set', 'guard')
    f = ck.fn(CE + 'handleRelax')

    def rh(ev, st, fl):
        if ev.kind == 'call' and ev.m == 'relax':
            return ('relax', ev.recv, vs(st.store.get('this.m_relaxing', S('?'))))
        if ev.kind in ('cins', 'cdel') and ev.recv == 'this.m_relaxed':
            return ('w',)
        if ev.kind == 'write':
            return ('w',)
    ps, fl = ck.flow(f, rh, assume={'this.m_relaxing': K(True)}, sizes=(0, 1))
    ck.forall_paths(r1, 'nested relaxation', f, ps, lambda p: True if not p.trace else 'nested relaxation does something', 'guard')
    ps, fl = ck.flow(f, rh, assume={'this.m_relaxing': K(False)}, sizes=(0, 1))
    ck.forall_paths(r3, 'relaxation', f, ps, lambda p: True if fin(p, 'this.m_relaxing') == 'false' else 'guard stays set', 'guard')
    ck.forall_paths(r2, 'relaxation', f, ps, lambda p: True if all(t[2] == 'true' for t in p.trace if t[0] == 'relax') else 'linked variable relaxed without the guard', 'guard')

    # owner of the execution
    for np in (0, 3):
        f = fn_of(ck, 'Constraint::execute', np=np)

        def ro(ev, st, fl):
            if ev.kind == 'call' and ev.m == 'setCurrentPropagatingConstraint':
                return ('own', ev.recv, vs(ev.args[0]))
            if ev.kind == 'call' and ev.m == 'handleExecute':
                return ('exec', tuple(vs(a) for a in ev.args))
            if ev.kind == 'write' and ev.m == 'm_propagatingConstraint':
                return ('own', ev.recv, vs(ev.args[0]))
        ps, fl = ck.flow(f, ro, opaque=lambda q: q == 'Constraint::handleExecute' or q.endswith('setCurrentPropagatingConstraint'))

        def own(p):
            e = [i for i, t in enumerate(p.trace) if t[0] == 'exec']
            if len(e) != 1:
                return 'body executed %d times' % len(e)
            if p.trace[e[0]][1] != tuple('$%d' % i for i in range(np)) and p.trace[e[0]][1] != tuple(('&$%d' if i == 2 else '$%d') % i for i in range(np)):
                return 'change description passed as %s' % (p.trace[e[0]][1],)
            for v in each(p, 'this.m_variables') or []:
                b = [t[2] for t in p.trace[:e[0]] if t[0] == 'own' and t[1] == v]
                a = [t[2] for t in p.trace[e[0]:] if t[0] == 'own' and t[1] == v]
                if b[-1:] not in (['this.m_id'], ['this']):
                    return '%s does not name the constraint during execution' % v
                if a[-1:] != ['null']:
                    return '%s still names a constraint afterwards' % v
            return True if each(p, 'this.m_variables') is not None else 'variables not visited'
        ck.forall_paths(r6, 'Constraint::execute/%d' % np, f, ps, own, 'owner')
    f = fn_of(ck, 'DefaultPropagator::execute', np=0)
    ps, fl = ck.flow(f, lambda ev, st, fl: ('exec', ev.args[0] and vs(ev.args[0]), vs(st.store.get('this.m_activeConstraint', S('?')))) if ev.kind == 'call' and ev.name in ('ConstraintEngine::execute',) else None, assume={'this.m_activeConstraint': K(0)}, scope={'Propagator'})
    if not any(p.trace for p in ps):
        raise Broken('DefaultPropagator executes nothing')
    ck.forall_paths(r3, 'active constraint', f, ps, lambda p: True if fin(p, 'this.m_activeConstraint') in ('0', 'eint(0)') else 'm_activeConstraint ends %s' % fin(p, 'this.m_activeConstraint'), 'flag')
    ck.forall_paths(r6, 'DefaultPropagator', f, ps, lambda p: True if all('getKey' in t[2] or 'm_key' in t[2] for t in p.trace) else 'the executing constraint is not recorded: %s' % [t[2] for t in p.trace], 'owner')
    f = fn_of(ck, 'EqualityConstraintPropagator::execute', np=0)
    ps, fl = ck.flow(f, lambda ev, st, fl: ('eq', vs(st.store.get('this.m_active', S('?')))) if ev.kind == 'call' and ev.m in ('equate', 'processScope') else None, assume={'this.m_active': K(False)}, opaque=lambda q: q.endswith('equate'))
    ck.forall_paths(r3, 'equality propagation', f, ps, lambda p: True if fin(p, 'this.m_active') == 'false' and all(t[1] == 'true' for t in p.trace) and contents(p, 'this.m_eqClassAgenda') == () and
                    fin(p, 'this.m_fullReprop') in ('false', 'this.m_fullReprop') else 'active=%s agenda=%s' % (fin(p, 'this.m_active'), contents(p, 'this.m_eqClassAgenda')), 'flag')
