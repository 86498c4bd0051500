"""What a deleted token, variable or constraint takes along, and which tokens may be archived."""
from vf.lib import *
from .C07 import token_in
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule, except where the rule says that they are refused', 'what cancelling, terminating and the notified objects do is decided by other properties']
MEMBERS = ('this.m_allVariables', 'this.m_pseudoVariables', 'this.m_standardConstraints')


def token(ck, rid):
    f = ck.fn('Token::handleDiscard')
    for state in ('INACTIVE', 'ACTIVE', 'MERGED', 'REJECTED'):
        for com in ((False, True) if state == 'ACTIVE' else (False,)):
            for mas in (False, True):
                def record(ev, st, fl):
                    dead = st.store.get('this.m_deleted', S('?')) == K(True)
                    if ev.kind == 'call' and (ev.m in ('cancel', 'notifyDeleted', 'notifyRemoved') or ev.m == 'remove' and ev.recv == 'M'):
                        return ('tell', ev.m, ev.recv if ev.m != 'notifyRemoved' else 'db', tuple(vs(fl.deref(a, st)) for a in ev.args), dead)
                    if ev.kind in ('delete', 'release'):
                        return ('del', vs(ev.args[0]) if ev.args else ev.recv)
                    return None

                def val(ev, st, fl):
                    if ev.m == 'getTypedEntity':
                        return [(fl.deref(ev.args[0], st), st)]
                    if ev.m == 'isPurging':
                        return [(K(False), st)]
                    if ev.m in ('isInactive', 'isActive', 'isMerged', 'isRejected'):
                        return [(K(state == ev.m[2:].upper()), st)]
                    if ev.m == 'isIncomplete':
                        return [(K(False), st)]
                    if ev.m == 'getValues':
                        return [(('ref', 'base objects'), st)]
                    return None
                fl = Seq(ck, record, scope=('Token.cc', 'Utils.hh', 'Entity.hh', 'Entity.cc'), value_of=val, self_cls='Token', assume=distinct('M', 'O1', 'O2', 'V0', 'V1', 'V2', 'P0', 'P1', 'C0', 'C1', 'this.m_planDatabase', 'this.m_id'), sat=60, trip=8,
                         opaque=lambda q: q.split('::')[-1] in ('cancel', 'notifyDeleted', 'notifyRemoved', 'remove') or q.startswith(('MergeMemento', 'UnifyMemento')))
                s = fl.runs[0].st
                s.store['this.m_master'] = S('M') if mas else NULL
                s.store['this.m_committed'] = K(com)
                s.store['this.m_refCount'] = K(3)
                s.conts['base objects'] = ((S('O1'), S('O2')), True)
                own = {'this.m_allVariables': ('V0', 'V1', 'V2'), 'this.m_pseudoVariables': ('P0', 'P1'), 'this.m_standardConstraints': ('C0', 'C1')}
                for k, v in own.items():
                    s.conts[k] = (tuple(S(x) for x in v), True)
                bad, n = None, 0
                for p in fl.call(f):
                    if p.outcome != 'ret':
                        continue
                    n += 1
                    tells = [t for t in p.trace if t[0] == 'tell']
                    dels = [re.sub(r'^\*', '', t[1]) for t in p.trace if t[0] == 'del']
                    want = [('cancel', 'this')] * (state != 'INACTIVE') + [('notifyDeleted', 'O1'), ('notifyDeleted', 'O2'), ('notifyRemoved', 'db')] + [('remove', 'M')] * mas
                    got = [(t[1], t[2]) for t in tells]
                    if sorted(got) != sorted(want):
                        bad = bad or 'tells %s, expected %s' % (got, want)
                    elif state != 'INACTIVE' and got[0][0] != 'cancel':
                        bad = bad or 'is cancelled only after %s' % (got[0],)
                    elif any(t[1] != 'cancel' and t[3] not in (('this',), ('this.m_id',)) for t in tells):
                        bad = bad or 'tells about %s' % [t[3] for t in tells]
                    elif not all(t[4] for t in tells):
                        bad = bad or 'is not yet marked as deleted when it tells'
                    elif sorted(dels) != sorted(sum(own.values(), ())):
                        bad = bad or 'deletes %s of what belongs to it: %s' % (dels, sum(own.values(), ()))
                    elif max(dels.index(c) for c in own['this.m_standardConstraints']) > min(dels.index(v) for v in own['this.m_allVariables'] + own['this.m_pseudoVariables']):
                        bad = bad or 'deletes a variable before the constraints on it: %s' % dels
                    elif p.trace.index(tells[-1]) > min(i for i, t in enumerate(p.trace) if t[0] == 'del'):
                        bad = bad or 'tells %s after deleting its variables' % (tells[-1][1:3],)
                    elif p.st.store.get('this.m_refCount') != K(2 if com else 3):
                        bad = bad or 'has %s references left of 3' % vs(p.st.store.get('this.m_refCount'))
                ck.ob(rid, 'delete %s%s%s' % (state, ' committed' * com, ' dependent' * mas), bad is None and n, bad or 'no path', ck.where(f))


# variables of the token, and others: name -> (of the token, has a parent, base domain is a single value)
VARS = {'V0': (1, 1, 0), 'V1': (1, 1, 0), 'L0': (1, 1, 0), 'X': (0, 1, 0), 'Y': (0, 1, 1), 'G': (0, 0, 0), 'H': (0, 0, 1)}
# constraint -> scope, active, redundant
SITES = [
    ('alone', {}, True), ('only its own', {'C': ('V0', 'V1')}, True), ('its local variable', {'C': ('V1', 'L0')}, True), ('another open variable', {'C': ('V0', 'X')}, False),
    ('another open variable first', {'C': ('X', 'V1')}, False), ('another fixed variable', {'C': ('V0', 'Y')}, True), ('a global variable', {'C': ('V0', 'G')}, True), ('a fixed global', {'C': ('H', 'V1')}, True),
    ('a fixed and an open one', {'C': ('V0', 'Y', 'X')}, False), ('a global and an open one', {'C': ('G', 'V0', 'X')}, False), ('through its local variable', {'C': ('L0', 'X')}, False),
    ('the second constraint', {'C': ('V0', 'V1'), 'D': ('V1', 'X')}, False), ('the first constraint', {'C': ('V0', 'X'), 'D': ('V1', 'Y')}, False), ('a constraint that is inactive', {'C-': ('V0', 'X')}, True),
    ('a redundant constraint', {'C*': ('V0', 'X')}, True), ('an inactive and an active one', {'C-': ('V0', 'X'), 'D': ('V1', 'X')}, False), ('a redundant and an active one', {'C*': ('V0', 'X'), 'D': ('L0', 'X')}, False),
    ('of others only', {'C': ('X', 'Y')}, True),
]


def archive(ck, rid):
    f = ck.fn('Token::canBeTerminated')

    def go(what, want, cons, **kw):
        def val(ev, st, fl):
            r, m = ev.recv, ev.m
            a = [fl.deref(x, st) for x in ev.args]
            if m in ('isTerminated', 'isRejected', 'isMerged') and r in ('this', ''):
                return [(K(kw.get(m, False)), st)]
            if r == 'A':
                if m in ('isTerminated', 'isCommitted'):
                    return [(K(kw['active'][m]), st)]
                if m == 'getVariables':
                    return [(('ref', 'active variables'), st)]
            if m == 'constraints' and r in VARS:
                k = ev.args[0][1]
                st = st.cp()
                have, c = st.conts.get(k, ((), True))
                st.conts[k] = (have + tuple(S(x) for x, sc in cons.items() if r in sc and S(x) not in have), c)
                return [(K(len(cons)), st)]
            if r in cons:
                if m == 'isActive':
                    return [(K(not r.endswith('-')), st)]
                if m == 'isRedundant':
                    return [(K(r.endswith('*')), st)]
                if m == 'getScope':
                    return [(('ref', 'scope ' + r), st)]
            if r in VARS:
                if m == 'getKey':
                    return [(K(100 + sorted(VARS).index(r)), st)]
                if m == 'parent':
                    own, par, one = VARS[r]
                    return [(S('this.m_id') if own else S('another') if par else NULL, st)]
                if m == 'baseDomain':
                    return [(S('base ' + r), st)]
                if m in ('lastDomain', 'derivedDomain'):
                    return [(S('last ' + r), st)]
            if r.startswith('base '):
                if m == 'isSingleton':
                    return [(K(bool(VARS[r[5:]][2])), st)]
            if m == 'isSubsetOf':
                return [(K((r, vs(a[0])) in kw.get('sub', ())), st)]
            if re.match(r'^A\d$', r):
                return [(S(('base ' if m == 'baseDomain' else 'last ') + r), st)] if m in ('baseDomain', 'lastDomain', 'derivedDomain') else None
            if r.startswith('last ') and m == 'isSingleton':
                return [(K(False), st)]
            if m == 'isNoId' and r in ('this.m_id', 'another'):
                return [(K(False), st)]
            return None
        q = Seq(ck, lambda ev, st, fl: None, scope=('Token.cc',), value_of=val, self_cls='Token', assume=distinct('A', 'another', 'this.m_id', 'C', 'D', 'C-', 'C*', *VARS), sat=60, trip=12)
        q.fl.grow = 16
        s = q.runs[0].st
        s.store['this.m_activeToken'] = S('A')
        s.conts['this.m_mergedTokens'] = (tuple(S(x) for x in kw.get('merged', ())), True)
        s.conts['this.m_allVariables'] = ((S('V0'), S('V1')), True)
        s.conts['this.m_localVariables'] = ((S('L0'),), True)
        s.conts['active variables'] = ((S('A0'), S('A1')), True)
        for c, sc in cons.items():
            s.conts['scope ' + c] = (tuple(S(v) for v in sc), True)
        bad, n = None, 0
        for p in q.call(f, args=[K(10)]):
            if p.outcome != 'ret':
                bad = bad or 'is refused [%s]' % p.why()[-100:]
                continue
            n += 1
            if p.val != K(want):
                bad = bad or 'answers %s, expected %s' % (vs(p.val), str(want).lower())
        ck.ob(rid, what, bad is None and n, bad or 'no answer', ck.where(f))
    for what, cons, want in SITES:
        go('constraints: ' + what, want, cons)
    blocking = {'C': ('V0', 'X')}
    go('already terminated', False, {}, isTerminated=True)
    go('rejected', True, blocking, isRejected=True)
    go('with a token merged onto it', False, {}, merged=('B',))
    ok = (('base A1', 'last V1'),)
    for com in (False, True):
        for ter in (False, True):
            for sub in (False, True):
                go('merged, active token%s%s%s' % (' committed' * com, ' terminated' * ter, ', restricts nothing' * sub), com and (ter or sub), blocking, isMerged=True, active={'isCommitted': com, 'isTerminated': ter}, sub=ok if sub else (('last V1', 'base A1'), ('base A0', 'last V0')))


def variable(ck, rid):
    f = ck.fn('ConstrainedVariable::handleDiscard')
    for cons in ((), ('C',)):
        def record(ev, st, fl):
            if ev.kind == 'call' and (ev.m == 'remove' and ev.recv == 'this.m_constraintEngine' or ev.m == 'notifyDiscard'):
                return ('tell', ev.m, ev.recv, tuple(vs(a) for a in ev.args), st.store.get('this.m_deleted', S('?')) == K(True))
            if ev.kind in ('delete', 'release'):
                return ('del', vs(ev.args[0]) if ev.args else ev.recv)
            return None

        def val(ev, st, fl):
            if ev.m == 'isPurging':
                return [(K(False), st)]
            if ev.m == 'notifyDiscard':
                st = st.cp()
                e, c = st.conts['this.m_listeners']
                st.conts['this.m_listeners'] = (tuple(x for x in e if vs(x) != ev.recv), c)
                return [(S('void'), st)]
            return None
        q = Seq(ck, record, scope=('ConstrainedVariable.cc',), value_of=val, self_cls='ConstrainedVariable', assume=distinct('W1', 'W2', 'this.m_constraintEngine', 'this.m_id'), sat=40, trip=6)
        s = q.runs[0].st
        s.conts['this.m_listeners'] = ((S('W1'), S('W2')), True)
        s.conts['this.m_constraints'] = (tuple(S('pair' + c) for c in cons), True)
        bad, n = None, 0
        for p in q.call(f):
            if p.outcome != 'ret':
                n += bool(cons)
                continue
            n += 1
            got = [t[1:3] for t in p.trace if t[0] == 'tell']
            if cons:
                bad = bad or 'a variable that still has constraints is deleted'
            elif sorted(got) != [('notifyDiscard', 'W1'), ('notifyDiscard', 'W2'), ('remove', 'this.m_constraintEngine')]:
                bad = bad or 'tells %s' % got
            elif not all(t[4] for t in p.trace if t[0] == 'tell'):
                bad = bad or 'is not yet marked as deleted when it tells'
        ck.ob(rid, 'delete a variable%s' % (' that has constraints' if cons else ''), bad is None and n, bad or 'no path', ck.where(f))
    f = ck.fn('Constraint::handleDiscard')

    def rc(ev, st, fl):
        if ev.kind == 'call' and ev.m in ('removeConstraint', 'remove'):
            return ('tell', ev.m, ev.recv, tuple(vs(fl.deref(a, st)) for a in ev.args))
    for purge in (False, True):
        q = Seq(ck, rc, scope=('Constraint.cc',), value_of=lambda ev, st, fl: ([(K(purge), st)] if ev.m == 'isPurging' else None), self_cls='Constraint', assume=distinct('V0', 'V1', 'this.m_constraintEngine', 'this.m_id'), sat=40, trip=6)
        q.runs[0].st.conts['this.m_variables'] = ((S('V0'), S('V1'), S('V0')), True)
        bad, n = None, 0
        for p in q.call(f):
            if p.outcome != 'ret':
                continue
            n += 1
            got = [t[1:] for t in p.trace]
            want = [('removeConstraint', v, ('this.m_id', str(i))) for i, v in enumerate(('V0', 'V1', 'V0'))] * (not purge) + [('remove', 'this.m_constraintEngine', ('this.m_id',))]
            if sorted(got) != sorted(want):
                bad = bad or 'tells %s' % got
        ck.ob(rid, 'delete a constraint%s' % (' while everything is purged' if purge else ''), bad is None and n, bad or 'no path', ck.where(f))


def run(ck):
    r1 = ck.rule('token', 'a deleted token is cancelled unless inactive, told to the objects it may be on, the plan database and its master, and then deletes its constraints and variables once each', 10)
    r2 = ck.rule('archive', 'a token may be archived exactly when no active constraint relates it to an open variable of something else, or when its active token says the same', 25)
    r3 = ck.rule('network', 'a deleted constraint leaves all its variables and the engine; a deleted variable leaves the engine and tells its listeners, and is refused while it has constraints', 4)
    token(ck, r1)
    archive(ck, r2)
    variable(ck, r3)
