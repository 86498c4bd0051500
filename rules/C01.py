"""Constraint-network events reach every constraint-engine listener exactly once."""
from vf.lib import *
MODULES = ['ConstraintEngine', 'Utils']
ASSUMPTIONS = ['listeners do not unregister other listeners while an event is being delivered']
CE = 'ConstraintEngine::'
V, C = 'ConstrainedVariable', 'Constraint>'


def cparam(ck, q, what, np=None):
    fs = [f for f in ck.P.byq.get(q, []) if f['p'] and (('ConstrainedVariable' in f['p'][0]['t']) if what == 'V' else ('Constraint>' in f['p'][0]['t'] or f['p'][0]['t'].endswith('ConstraintId')))
          and (np is None or len(f['p']) == np)]
    if len(fs) != 1:
        raise Broken('%s(%s): %d candidates' % (q, what, len(fs)))
    return fs[0]


def run(ck):
    rp = ck.rule('publish', 'on every normal path each registered listener receives exactly the event of the operation, for the entity concerned; nothing is delivered while purging', 13)
    rr = ck.rule('registration', 'the set the events are delivered to is exactly the set maintained by registration and unregistration', 5)
    ro = ck.rule('order', 'the engine\'s own bookkeeping (sets of variables, constraints, violated constraints, propagator assignment) is up to date when the event is delivered', 6)
    rb = ck.rule('bracket', 'a propagation run reports its start once before the first propagator executes and afterwards exactly one of completed / preempted, matching the result it returns', 3)
    rt = ck.rule('transition', 'activation and deactivation are reported exactly when the reference count crosses zero, and reach every constraint of a variable', 12)
    rs = ck.rule('source', 'creation, destruction, execution, domain change and violation of an entity are handed to the engine exactly once', 10)

    reg = [f for f in ck.P.byq.get(CE + 'add', []) if 'ConstraintEngineListener' in f['p'][0]['t']]
    unreg = [f for f in ck.P.byq.get(CE + 'remove', []) if 'ConstraintEngineListener' in f['p'][0]['t']]
    if len(reg) != 1 or len(unreg) != 1:
        raise Broken('listener registration functions')
    cont = container_of_registration(ck, rr, reg[0], 'engine listener')
    if cont is None:
        return
    removal_of_registration(ck, rr, unreg[0], cont, 'engine listener')
    for q, meth in (('ConstraintEngineListener::ConstraintEngineListener', 'add'), ('ConstraintEngineListener::~ConstraintEngineListener', 'remove'),
                    ('ConstraintEngineListener::setConstraintEngine', 'add')):
        fs = [f for f in ck.P.byq.get(q, []) if f['p'] and 'ConstraintEngine' in f['p'][0]['t']] or [f for f in ck.P.byq.get(q, []) if '~' in q]
        if len(fs) != 1:
            raise Broken(q)
        ps, fl = ck.flow(fs[0], rec(calls=r'^ConstraintEngine::(add|remove)$'))
        ck.forall_paths(rr, q, fs[0], ps, lambda p: True if len(find(p, 'c', meth)) == len(find(p, 'c')) == 1 else 'calls %s' % [t[1] for t in p.trace],
                        'the listener must %s itself exactly once' % meth)

    lis = {'ConstraintEngineListener'}
    active = {'V': ck.fn('ConstrainedVariable::isActive'), 'C': ck.fn('Constraint::isActive')}
    TAB = [
        ('add', 'V', 1, 'notifyAdded', ('+', 'this.m_variables')),
        ('remove', 'V', 1, 'notifyRemoved', ('-', 'this.m_variables')),
        ('add', 'C', 2, 'notifyAdded', ('+', 'this.m_constraints')),
        ('remove', 'C', 1, 'notifyRemoved', ('-', 'this.m_constraints')),
        ('notifyActivated', 'V', 1, 'notifyActivated', None), ('notifyDeactivated', 'V', 1, 'notifyDeactivated', None),
        ('notifyActivated', 'C', 1, 'notifyActivated', None), ('notifyDeactivated', 'C', 1, 'notifyDeactivated', None),
        ('execute', 'C', 1, 'notifyExecuted', None), ('execute', 'C', 4, 'notifyExecuted', None),
        ('notifyViolationAdded', 'C', 1, 'notifyViolationAdded', None), ('notifyViolationRemoved', 'C', 1, 'notifyViolationRemoved', None),
        ('notify', 'V', 2, 'notifyChanged', None),
    ]
    for name, what, np, note, book in TAB:
        f = cparam(ck, CE + name, what, np)
        inst = '%s(%s,%d)' % (f['sq'], 'variable' if what == 'V' else 'constraint', np)

        def extra(ev, st, fl):
            if ev.kind in ('cins', 'cdel') and book and ev.recv == book[1]:
                return ('book', ev.kind, ev.args)
            if ev.kind == 'call' and ev.m in ('addConstraint', 'removeConstraint', 'setPropagator', 'handleRemoved', 'handleExecute', 'relax') or (ev.kind == 'call' and ev.name == 'Constraint::execute'):
                return ('op', ev.m)
        ps, fl = ck.flow(f, rec_listener(lis, extra), opaque={'ConstraintEngine::handleRelax', 'ConstraintEngine::handleEmpty', 'ConstraintEngine::handleRestrict'})

        def exp(p):
            if purging(p):
                return check_notes(p, cont, [])
            if name == 'notify':
                if query(fl, p.st, active['V'], '$0') == {False}:
                    return check_notes(p, cont, []) if not any(t[0] == 'note' for t in p.trace) else 'inactive variable reported'
                return check_notes(p, cont, [(note, ['$0', lambda x: x in ('$1', '&$1')])])
            return check_notes(p, cont, [(note, ['$0'])])
        ck.forall_paths(rp, inst, f, ps, exp, 'event')
        if book:
            ck.forall_paths(ro, inst + ' own set', f, ps, lambda p: (True if any(t[0] == 'book' for t in p.trace) and order(p, lambda t: t[0] == 'book', lambda t: t[0] == 'note') else
                                                          'set not updated before listeners are told'), 'bookkeeping')
            if what == 'C':
                ck.forall_paths(ro, inst + ' propagator', f, ps, lambda p: True if purging(p) or (any(t[0] == 'op' for t in p.trace) and order(p, lambda t: t[0] == 'op', lambda t: t[0] == 'note')) else
                                'propagator not informed before listeners are told', 'bookkeeping')
        if name == 'execute':
            ck.forall_paths(rs, inst, f, ps, lambda p: True if sum(1 for t in p.trace if t == ('op', 'execute')) == 1 else 'constraint executed %d times' % sum(1 for t in p.trace if t == ('op', 'execute')),
                            'an execution event stands for exactly one execution')

    # propagation run
    f = ck.fn(CE + 'doPropagate')
    ps, fl = ck.flow(f, rec_listener(lis, lambda ev, st, fl: ('exec', ev.recv) if ev.kind == 'call' and ev.name == 'Propagator::execute' else None), sizes=(0, 1),
                     opaque=lambda q: q.endswith('::processRedundantConstraints'))

    def br(p):
        n, res, other = notes_for(p, cont)
        ran = any(t[0] == 'exec' for t in p.trace)
        if other:
            return 'unexpected event %s' % other[0][1]
        if n is None or n == 0:
            return True
        val = vs(p.val)
        for i in range(n):
            got = [g[0] for g in res.get(i, [])]
            if not ran:
                if got not in ([], ['notifyPropagationCommenced', 'notifyPropagationCompleted' if val == 'true' else 'notifyPropagationPreempted']):
                    return 'events %s although no propagator ran and the result is %s' % (got, val)
                continue
            want = ['notifyPropagationCommenced', 'notifyPropagationCompleted' if val == 'true' else 'notifyPropagationPreempted']
            if got != want:
                return 'listener gets %s, expected %s' % (got, want)
        return True
    ck.forall_paths(rb, 'propagation events', f, ps, br, 'propagation bracket')

    def brn(p):
        ran = any(t[0] == 'exec' for t in p.trace)
        return 'a propagator executed on a path that never looks at the listeners' if ran and p.st.conts.get(cont) is None else True
    ck.forall_paths(rb, 'listeners consulted', f, ps, brn, 'propagation bracket')
    ck.forall_paths(rb, 'start first', f, ps, lambda p: True if not any(t[0] == 'exec' for t in p.trace) or not any(t[0] == 'note' for t in p.trace) or
                    [t for t in p.trace if t[0] in ('exec', 'note')][0][0] == 'note' else 'a propagator executes before the start is reported', 'propagation bracket')

    # transitions
    for cls, fld, sub in (('Constraint', 'm_deactivationRefCount', None), ('ConstrainedVariable', 'm_deactivationRefCount', 'm_constraints')):
        for meth, starts in (('deactivate', {0: 'notifyDeactivated', 1: None, 2: None}), ('undoDeactivation', {1: 'notifyActivated', 2: None, 3: None})):
            f = ck.fn('%s::%s' % (cls, meth))
            for n0, note in starts.items():
                ps, fl = ck.flow(f, rec(calls=r'^(ConstraintEngine::notify(Act|Deact)ivated|Constraint::(deactivate|undoDeactivation))$'), assume={'this.' + fld: K(n0)})

                def pr(p):
                    calls = [t for t in p.trace if t[1].startswith('notify')]
                    if p.facts.get('this.m_isRedundant') or p.facts.get('this.isRedundant()'):
                        return True if not calls and fin(p, 'this.' + fld) == str(n0) else 'redundant constraint reactivated'
                    want = [note] if note else []
                    if [t[1] for t in calls] != want:
                        return 'count %d: engine is told %s, expected %s' % (n0, [t[1] for t in calls], want)
                    if any(t[3][:1] not in (('this.m_id',), ('this',)) for t in calls):
                        return 'wrong entity reported'
                    n1 = n0 + (1 if meth == 'deactivate' else -1)
                    if fin(p, 'this.' + fld) != str(n1):
                        return 'count goes from %d to %s' % (n0, fin(p, 'this.' + fld))
                    if sub:
                        els = p.st.conts.get('this.' + sub)
                        if els is None:
                            return 'constraints of the variable are not visited'
                        k = len(els[0])
                        sb = [t for t in p.trace if t[4] == 'Constraint::' + meth]
                        if len(sb) != k or len({t[2] for t in sb}) != k:
                            return '%d of %d constraints are told to %s' % (len({t[2] for t in sb}), k, meth)
                    return True
                ck.forall_paths(rt, '%s::%s from %d' % (cls, meth, n0), f, ps, pr, 'activation accounting')

    # sources
    def src(q, pred, calls, msg, np=None, pt=None, **kw):
        fs = [x for x in ck.P.byq.get(q, []) if (np is None or len(x['p']) == np)]
        if len(fs) != 1:
            raise Broken('%s: %d candidates' % (q, len(fs)))
        ps, fl = ck.flow(fs[0], rec(calls=calls, conts=r'm_violatedConstraints'), **kw)
        ck.forall_paths(rs, q, fs[0], ps, pred, msg)
    me = lambda x: x in ('this.m_id', 'this', 'new')

    def once(name, args=None):
        return lambda p: True if len(find(p, 'c', name)) == 1 and len(find(p, 'c', name, args=args)) == 1 else '%s called %s' % (name, [t[3] for t in p.trace if t[0] == 'c' and t[1] == name] or 'never')
    src('ConstrainedVariable::ConstrainedVariable', once('add', [me]), r'^ConstraintEngine::(add|remove)$', 'a new variable is registered once', np=6)
    src('ConstrainedVariable::~ConstrainedVariable', once('remove', [me]), r'^ConstraintEngine::(add|remove)$', 'a dying variable is unregistered once', sizes=(0, 1))
    src('Constraint::Constraint', once('add', [me]), r'^ConstraintEngine::(add|remove)$', 'a new constraint is registered once', np=4, sizes=(1, 2), opaque=lambda q: q == 'Constraint::isValid')
    src('Constraint::~Constraint', once('remove', [me]), r'^ConstraintEngine::(add|remove)$', 'a dying constraint is unregistered once')
    src('VariableChangeListener::notifyChange', once('notify', ['this.m_variable', lambda x: x in ('$0', '&$0')]), r'^ConstraintEngine::notify$', 'a domain change is passed to the engine once')
    src('Propagator::execute', once('execute', ['$0']), r'^ConstraintEngine::execute$', 'executed through the engine', np=1)
    src('ViolationMgrImpl::addViolatedConstraint', lambda p: True if len(find(p, 'c', 'notifyViolationAdded', args=['$0'])) == 1 and find(p, '+', recv='this.m_violatedConstraints', args=['$0']) and
        max(find(p, '+')) < find(p, 'c', 'notifyViolationAdded')[0] else 'violation not recorded and then reported exactly once', r'notifyViolation', 'new violation', opaque=lambda q: q.startswith('Constraint::'))
    src('ViolationMgrImpl::removeViolatedConstraint', lambda p: True if len(find(p, 'c', 'notifyViolationRemoved', args=['$0'])) == 1 and find(p, '-', recv='this.m_violatedConstraints', args=['$0']) and
        max(find(p, '-')) < find(p, 'c', 'notifyViolationRemoved')[0] else 'violation not withdrawn and then reported exactly once', r'notifyViolation', 'violation resolved', opaque=lambda q: q.startswith('Constraint::'))

    def hr(p):
        inn = was(p, 'in($0,this.m_violatedConstraints)')
        n = len(find(p, 'c', 'notifyViolationRemoved', args=['$0']))
        d = find(p, '-', recv='this.m_violatedConstraints')
        if inn is False:
            return True if n == 0 else 'reported although the constraint was not violated'
        return True if n == 1 and d and max(d) < find(p, 'c', 'notifyViolationRemoved')[0] else 'removal of a violated constraint not withdrawn and reported exactly once'
    src('ViolationMgrImpl::handleRemoved', hr, r'notifyViolation', 'violated constraint deleted', opaque=lambda q: q.startswith('Constraint::'))
    for m in ('notifyViolationAdded', 'notifyViolationRemoved', 'notifyChanged'):
        fs = [x for x in ck.P.byq.get('PSConstraintEngineListener::' + m, []) if 'Id' in x['p'][0]['t'] or 'Id<' in x['p'][0].get('ct', x['p'][0]['t'])]
        fs = fs or [x for x in ck.P.byq.get('PSConstraintEngineListener::' + m, []) if not x['p'][0]['t'].rstrip().endswith('*')]
        if len(fs) != 1:
            raise Broken('PSConstraintEngineListener::' + m)
        ps, fl = ck.flow(fs[0], rec(calls=r'^PSConstraintEngineListener::notify'), opaque=lambda q: True)
        ck.forall_paths(rs, 'PS adapter ' + m, fs[0], ps, lambda p: True if len(p.trace) == 1 and p.trace[0][1] == m and '$0' in p.trace[0][3][0] and (m != 'notifyChanged' or '$1' in p.trace[0][3][1]) else
                        'event forwarded as %s' % [(t[1], t[3]) for t in p.trace], 'the solver-level listener gets the same event')
