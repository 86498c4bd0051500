"""Merging transfers everything from the merged to the active token; splitting takes exactly that back."""
from vf.lib import *
from .C07 import token_in
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule', 'tokens of compatible predicates have their variables at the same indices (enforced by the constructor check on the numbers of variables)']
MM = 'MergeMemento::'
KEEP = lambda q: q in ('Token::isStandardConstraint', 'Token::isActive', 'Token::isMerged', 'Token::isTerminated', 'Token::isDeleted') or q.startswith(('Token::handle', 'Token::remove', 'Token::add'))


def run(ck):
    r1 = ck.rule('link', 'merging records the active token, creates one memento for the pair and makes the active token keep a reference; splitting takes all of it back', 6)
    r2 = ck.rule('memento', 'the memento delegates every request to the one mechanism it was created with', 4)
    r3 = ck.rule('transfer', 'merging applies the base domain and the specified value of every variable except the state to the same variable of the active token, deactivates it, and re-posts every non-standard constraint on the active token', 4)
    r4 = ck.rule('restore', 'splitting removes every re-posted constraint, re-activates every variable and recomputes the domains on both sides', 2)
    r5 = ck.rule('late', 'a constraint added to or removed from a merged token is re-posted on, respectively withdrawn from, the active token', 5)
    r6 = ck.rule('domain', 'a variable of an active token is bounded by its own base domain and by the base domain of the same variable of every token merged onto it, and is specified when one of them is', 6)

    # ---- link
    f = ck.fn('Token::doMerge')
    asm = dict(token_in('INACTIVE'), **token_in('ACTIVE', '$0'))
    ps, fl = ck.flow(f, rec(calls=r'^Token::addMergedToken$|^TokenVariable.*::setSpecified$', writes=r'^this\.m_(activeToken|unifyMemento)', news='UnifyMemento'), assume=asm, sizes=(0, 1), opaque={'Token::addMergedToken'})

    def link(p):
        n = [t for t in p.trace if t[0] == 'n']
        if [(t[1], t[2]) for t in n] != [('UnifyMemento', ('this.m_id', '$0'))] and [(t[1], t[2]) for t in n] != [('UnifyMemento', ('this', '$0'))]:
            return 'creates %s' % n
        if fin(p, 'this.m_activeToken') != '$0':
            return 'active token recorded is %s' % fin(p, 'this.m_activeToken')
        if 'UnifyMemento' not in fin(p, 'this.m_unifyMemento'):
            return 'memento not kept'
        a = find(p, 'c', 'addMergedToken')
        if len(a) != 1 or p.trace[a[0]][2] not in ('$0', 'this.m_activeToken') or p.trace[a[0]][3][0] not in ('this', 'this.m_id'):
            return 'active token is told %s' % [p.trace[i] for i in a]
        s = find(p, 'c', 'setSpecified')
        return True if s and s[0] < p.trace.index(n[0]) else 'memento created before the token is marked merged'
    ck.forall_paths(r1, 'merge', f, ps, link, 'link')
    f = ck.fn('Token::split')
    ps, fl = ck.flow(f, rec(calls=r'^Token::removeMergedToken$|^TokenVariable.*::resetSpecified$|^UnifyMemento::'), assume=token_in('MERGED'), sizes=(0, 1), opaque={'Token::removeMergedToken'})

    def unlink(p):
        if fin(p, 'this.m_activeToken') != 'null' or fin(p, 'this.m_unifyMemento') != 'null':
            return 'link not cleared'
        r = find(p, 'c', 'removeMergedToken', 'this.m_activeToken')
        u = find(p, 'c', 'undo', 'this.m_unifyMemento')
        d = find(p, 'd', recv='this.m_unifyMemento')
        s = find(p, 'c', 'resetSpecified')
        if len(r) != 1 or len(u) != 1 or len(d) != 1:
            return 'unlinked from the active token %d times, undone %d times, memento freed %d times' % (len(r), len(u), len(d))
        if not (s and s[0] < r[0] < u[0] < d[0]):
            return 'order must be: reset state, unlink, undo, free'
        if p.trace[r[0]][3][0] not in ('this', 'this.m_id'):
            return 'unlinks %s' % p.trace[r[0]][3][0]
        a = p.trace[u[0]][3][0]
        if a not in ('true', 'false') and 'removeMergedToken' not in a:
            return 'undo is told %s instead of whether the active token is gone' % a
        dec = [b for x, b in p.facts.items() if 'removeMergedToken' in x]
        if a in ('true', 'false') and dec and (a == 'true') != dec[-1]:
            return 'undo is told %s' % a
        return True
    ck.forall_paths(r1, 'split', f, ps, unlink, 'link')
    for m, kind, rc in (('addMergedToken', '+', 'incRefCount'), ('removeMergedToken', '-', 'decRefCount')):
        f = ck.fn('Token::' + m)
        ps, fl = ck.flow(f, rec(calls=r'::(inc|dec)RefCount$', conts='m_mergedTokens'), opaque=KEEP)
        ck.forall_paths(r1, m, f, ps, lambda p: True if len(find(p, kind, recv='this.m_mergedTokens', args=['$0'])) == 1 and [t[1] for t in p.trace if t[0] == 'c'] == [rc] and len(p.trace) == 2 else 'does %s' % (p.trace,), 'reference')
        if kind == '-':
            ck.forall_paths(r1, m + ' result', f, ps, lambda p: True if 'decRefCount' in vs(p.val) or decided(p, 'decRefCount') == [p.val == K(True)] else 'returns %s' % vs(p.val), 'reports whether the active token is gone')
    f = ck.fn('Token::removeMaster')
    ps, fl = ck.flow(f, rec(calls=r'^Token::(remove|terminate)$|::decRefCount$|^Entity::refCount$', writes='m_master'), opaque=KEEP)

    def rmm(p):
        if fin(p, 'this.m_master') != 'null' or len(find(p, 'c', 'remove', args=['this.m_id'])) != 1:
            return 'slave and master are not unlinked on both sides'
        one = [b for a, b in p.facts.items() if 'refCount' in a and a.startswith('eq(')]
        ter = [b for a, b in p.facts.items() if 'isTerminated' in a or 'm_terminated' in a]
        if p.val not in (K(True), K(False)) and 'refCount' not in vs(p.val):
            return 'returns %s' % vs(p.val)
        if one and p.val in (K(True), K(False)) and (p.val == K(True)) != one[0]:
            return 'says %s although last reference=%s' % (vs(p.val), one[0])
        t, d = len(find(p, 'c', 'terminate')), len(find(p, 'c', 'decRefCount'))
        return True if (t, d) == ((1, 0) if one == [True] and ter == [True] else (0, 1)) else 'last=%s terminated=%s: terminates %d times, gives up %d references' % (one, ter, t, d)
    ck.forall_paths(r1, 'removeMaster', f, ps, rmm, 'slave unlinking')

    # ---- unify memento
    for m in ('undo', 'handleAdditionOfInactiveConstraint', 'handleRemovalOfInactiveConstraint'):
        f = ck.fn('UnifyMemento::' + m)
        ps, fl = ck.flow(f, rec(calls=r'^(Merge|Stack)Memento::'))

        def dg(p):
            c = [t for t in p.trace if t[0] == 'c']
            mmnull = was(p, 'eq(this.m_mm,null)')
            want = 'this.m_sm' if mmnull else 'this.m_mm'
            return True if [(t[1], t[2], t[3]) for t in c] == [(m, want, ('$0',))] else 'calls %s' % c
        ck.forall_paths(r2, m, f, ps, dg, 'delegation')
    f = fn_of(ck, 'UnifyMemento::UnifyMemento', np=2)
    ps, fl = ck.flow(f, rec(news=r'Memento$', writes=r'this\.m_[ms]m$'))
    ck.forall_paths(r2, 'constructor', f, ps, lambda p: True if len(find(p, 'n')) == 1 and p.trace[find(p, 'n')[0]][2] == ('$0', '$1') and
                    (fin(p, 'this.m_mm') != 'null') != (fin(p, 'this.m_sm') != 'null') else 'creates %s' % [t for t in p.trace if t[0] == 'n'], 'exactly one mechanism')
    f = ck.fn('UnifyMemento::~UnifyMemento')
    ps, fl = ck.flow(f, rec())
    ck.forall_paths(r2, 'destructor', f, ps, lambda p: True if all((len(find(p, 'd', recv=x)) == 1) == (p.facts.get('eq(%s,null)' % x) is False) for x in ('this.m_mm', 'this.m_sm')) else '%s' % (p.trace,), 'frees its mechanism')

    # ---- transfer
    f = fn_of(ck, MM + 'MergeMemento', np=2)

    def scope_of(ev, st, fl):
        if ev.kind == 'call' and ev.m == 'createConstraint':
            v = vs(ev.args[1])
            c = st.conts.get(v)
            return ('create', vs(ev.args[0]), tuple(vs(x) for x in c[0]) if c else None, 'createConstraint')
        return None
    base = rec(calls=r'^(ConstrainedVariable|Token\w*|TokenVariable.*)::(handleBase|handleSpecified|deactivate|constraints|handleReset|undoDeactivation)$|^MergeMemento::migrateConstraint$|^Constraint::setSource$', conts=r'm_(new|deactivated)Constraints')

    def r(ev, st, fl):
        return scope_of(ev, st, fl) or base(ev, st, fl)
    ps, fl = ck.flow(f, r, sizes=(0, 1, 3), opaque=lambda q: KEEP(q) or q == MM + 'migrateConstraint', cont_init={'$1.m_allVariables': (3,), '$0.m_allVariables': (3,)})

    def tr(p):
        for i in (1, 2):
            iv, av = '$0.m_allVariables[%d]' % i, '$1.m_allVariables[%d]' % i
            hb = [t for t in p.trace if t[0] == 'c' and t[1] == 'handleBase' and t[2] == av]
            if len(hb) != 1 or not hb[0][3][0].startswith(iv + '.') or 'ase' not in hb[0][3][0]:
                return 'base domain of variable %d applied: %s' % (i, [t[3] for t in hb])
            hs = [t for t in p.trace if t[0] == 'c' and t[1] == 'handleSpecified' and t[2] == av]
            sp = was(p, iv + '.m_specifiedFlag')
            if len(hs) != (1 if sp else 0) or (hs and not hs[0][3][0].startswith(iv + '.')):
                return 'variable %d specified=%s but value posted %s' % (i, sp, [t[3] for t in hs])
            d = find(p, 'c', 'deactivate', iv)
            if len(d) != 1 or len(find(p, 'c', 'deactivate', av)):
                return 'variable %d of the merged token deactivated %d times' % (i, len(d))
            g = find(p, 'c', 'constraints', iv)
            if not g:
                return 'constraints of variable %d not collected' % i
        for v in ('$0.m_allVariables[0]', '$1.m_allVariables[0]'):
            if [t for t in p.trace if t[0] == 'c' and t[2] == v and t[1] != 'constraints']:
                return 'state variable is touched'
        return True
    ck.forall_paths(r3, 'variables', f, ps, tr, 'transfer')

    def mig(p):
        cs = [c for c in p.st.conts if 'constraints' in c]
        els = [vs(x) for c in cs for x in p.st.conts[c][0]]
        if not cs:
            return 'collected constraints are not visited'
        for e in els:
            std = [b for a, b in p.facts.items() if 'isStandardConstraint' in a and e in a]
            n = len(find(p, 'c', 'migrateConstraint', 'this', [e]))
            if not std and n == 1:
                continue       # migrateConstraint itself skips standard constraints
            if n != (0 if std == [True] else 1):
                return 'constraint %s standard=%s migrated %d times' % (e, std, n)
        return True
    ck.forall_paths(r3, 'constraints', f, ps, mig, 'transfer')
    f = ck.fn(MM + 'migrateConstraint')
    ps, fl = ck.flow(f, r, sizes=(0, 1, 2), opaque=KEEP)

    def mc(p):
        std = [b for a, b in p.facts.items() if 'isStandardConstraint' in a or a == 'in($0,this.m_inactiveToken.m_standardConstraints)']
        cr = [t for t in p.trace if t[0] == 'create']
        if len(cr) != (0 if True in std else 1):
            return 'standard=%s: creates %d constraints' % (std, len(cr))
        if not cr:
            return True if not find(p, '+', recv='this.m_newConstraints') else 'lists out of step'
        if cr[0][1] not in ('$0.m_name', '$0.getName()'):
            return 'creates a constraint named %s' % cr[0][1]
        n = len(p.st.conts['$0.m_variables'][0])
        if cr[0][2] is None and n == 0:
            return True
        if cr[0][2] is None or len(cr[0][2]) != n:
            return 'scope has %s entries for %d variables' % (cr[0][2], n)
        for i in range(n):
            v = '$0.m_variables[%d]' % i
            own = [b for a, b in p.facts.items() if a in ('eq(%s.m_parent,this.m_inactiveToken)' % v, 'eq(this.m_inactiveToken,%s.m_parent)' % v)]
            want = 'this.m_activeToken.m_allVariables{%s.m_index}' % v if own == [True] else v
            if not own or cr[0][2][i] != want:
                return 'position %d: own variable=%s, replaced by %s' % (i, own, cr[0][2][i])
        s = [t for t in p.trace if t[0] == 'c' and t[1] == 'setSource']
        if len(s) != 1 or 'createConstraint' not in s[0][2] or s[0][3][0] != '$0':
            return 'source of the new constraint: %s' % s
        nn = find(p, '+', recv='this.m_newConstraints')
        dd = find(p, '+', recv='this.m_deactivatedConstraints')
        return True if len(nn) == 1 and len(dd) == 1 and 'createConstraint' in str(p.trace[nn[0]][2]) and '$0' in p.trace[dd[0]][2] else 'bookkeeping: %s' % (p.trace,)
    ck.forall_paths(r3, 'one constraint', f, ps, mc, 're-posting')
    f = fn_of(ck, 'StackMemento::StackMemento', np=2)
    ps, fl = ck.flow(f, lambda ev, st, fl: scope_of(ev, st, fl) or rec(conts='m_stackConstraints')(ev, st, fl), cont_init={'$1.m_allVariables': (3,), '$0.m_allVariables': (3,)})
    ck.forall_paths(r3, 'stacking', f, ps, lambda p: True if [t[2] for t in p.trace if t[0] == 'create'] == [('$0.m_allVariables[%d]' % i, '$1.m_allVariables[%d]' % i) for i in (1, 2)] and
                    all(t[1] in ("'eq'", '"eq"', 'eq') for t in p.trace if t[0] == 'create') and len(find(p, '+')) == 2 else '%s' % (p.trace,), 'equalities')
    # ---- restore
    f = ck.fn('StackMemento::undo')
    ps, fl = ck.flow(f, rec(calls='^cleanup$', conts='m_stackConstraints'))
    ck.forall_paths(r4, 'stacking', f, ps, lambda p: True if [t[3] for t in p.trace if t[0] == 'c'] == [('this.m_stackConstraints',)] else '%s' % (p.trace,), 'equalities removed')
    f = ck.fn(MM + 'undo')
    base2 = rec(calls=r'::(handleReset|undoDeactivation)$|^cleanup$', conts=r'm_(new|deactivated)Constraints')

    def r2_(ev, st, fl):
        t = base2(ev, st, fl)
        return t + (vs(st.store.get('this.m_undoing', S('this.m_undoing'))),) if t else None
    ps, fl = ck.flow(f, r2_, cont_init={'this.m_activeToken.m_allVariables': (3,), 'this.m_inactiveToken.m_allVariables': (3,)}, opaque=KEEP)
    isT = lambda p: [b for a, b in p.facts.items() if 'isTerminated' in a or a.endswith('m_terminated')] == [True]

    def und(p):
        if isT(p):
            return True if not p.trace else 'a terminated token is changed'
        cl = find(p, 'c', 'cleanup', args=['this.m_newConstraints'])
        if len(cl) != 1 or p.trace[cl[0]][-1] != 'true':
            return 're-posted constraints removed %d times, while undoing=%s' % (len(cl), cl and p.trace[cl[0]][-1])
        gone = was(p, '$0')
        for i in (1, 2):
            av, iv = 'this.m_activeToken.m_allVariables[%d]' % i, 'this.m_inactiveToken.m_allVariables[%d]' % i
            a, u, h = find(p, 'c', 'handleReset', av), find(p, 'c', 'undoDeactivation', iv), find(p, 'c', 'handleReset', iv)
            if len(a) != (0 if gone else 1) or len(u) != 1 or len(h) != 1:
                return 'variable %d: active side reset %d times (deleted=%s), re-activated %d times, reset %d times' % (i, len(a), gone, len(u), len(h))
            if min(a + u) < cl[0] or h[0] < u[0]:
                return 'variable %d: wrong order' % i
        if [t for t in p.trace if t[0] == 'c' and t[2].endswith('m_allVariables[0]')]:
            return 'state variable is touched'
        return True if fin(p, 'this.m_undoing') == 'false' and len(find(p, '0', recv='this.m_deactivatedConstraints')) == 1 else 'memento left undoing=%s' % fin(p, 'this.m_undoing')
    ck.forall_paths(r4, 'merging', f, ps, und, 'restore')

    # ---- late changes
    f = ck.fn(MM + 'handleAdditionOfInactiveConstraint')
    ps, fl = ck.flow(f, rec(calls='migrateConstraint'), opaque={MM + 'migrateConstraint'})
    ck.forall_paths(r5, 'addition', f, ps, lambda p: True if [t[3] for t in p.trace] == [('$0',)] else '%s' % (p.trace,), 'migrate')
    f = ck.fn(MM + 'handleRemovalOfInactiveConstraint')
    ND = ('this.m_deactivatedConstraints', 'this.m_newConstraints')
    for n in (0, 1, 2):
        ps, fl = ck.flow(f, rec(conts=r'm_(new|deactivated)Constraints'), cont_init={c: (n,) for c in ND})

        def rem(p):
            if was(p, 'this.m_undoing'):
                return True if not p.trace else 'changed while undoing'
            hit = None
            for i in range(n):
                e = 'this.m_deactivatedConstraints[%d]' % i
                if p.facts.get('eq($0,%s)' % e) or p.facts.get('eq(%s,$0)' % e):
                    hit = i
                    break
                if p.facts.get('eq($0,%s)' % e) is None and p.facts.get('eq(%s,$0)' % e) is None:
                    return 'entry %d is not looked at' % i
            if hit is None:
                return True if not p.trace else 'removes something else: %s' % (p.trace,)
            for c in ND:
                d = find(p, '-', recv=c)
                if [p.trace[i][2][0] for i in d] != ['%s[%d]' % (c, hit)]:
                    return '%s loses %s' % (c, [p.trace[i][2] for i in d])
            x = 'this.m_newConstraints[%d]' % hit
            return True if len(find(p, 'd')) == (0 if p.facts.get('eq(%s,null)' % x) else 1) and all(p.trace[i][1] == x for i in find(p, 'd')) else 'deletes %s' % [p.trace[i] for i in find(p, 'd')]
        ck.forall_paths(r5, 'removal (%d known)' % n, f, ps, rem, 'withdraw')
    for m in ('handleAdditionOfInactiveConstraint', 'handleRemovalOfInactiveConstraint'):
        f = ck.fn('Token::' + m)
        ps, fl = ck.flow(f, rec(calls=r'^UnifyMemento::'), assume=token_in('MERGED'))
        ck.forall_paths(r5, f['sq'], f, ps, lambda p: True if [(t[1], t[2], t[3]) for t in p.trace] == [(m, 'this.m_unifyMemento', ('$0',))] or (not p.trace and 'Removal' in m and was(p, 'this.m_terminated')) else '%s' % (p.trace,), 'forward')
    # ---- variables of tokens
    for d in ('IntervalIntDomain', 'ObjectDomain', 'StateDomain'):
        TV = 'TokenVariable<%s>::' % d
        for m, h in (('handleConstraintAdded', 'handleAdditionOfInactiveConstraint'), ('handleConstraintRemoved', 'handleRemovalOfInactiveConstraint')):
            f = ck.fn(TV + m)
            ps, fl = ck.flow(f, rec(calls=r'^Token::handle(Addition|Removal)'), opaque=KEEP)

            def fw(p):
                mg = decided(p, 'isMerged')
                ac = [b for a, b in p.facts.items() if a.startswith('eq($0.m_deactivationRefCount,0)')]
                want = 1 if mg == [True] and not (m.endswith('Removed') and ac == [True]) else 0
                return True if [(t[1], t[3]) for t in p.trace] == [(h, ('$0',))] * want else 'merged=%s active=%s: %s' % (mg, ac, [(t[1], t[3]) for t in p.trace])
            ck.forall_paths(r5, f['sq'], f, ps, fw, 'forward')
        f = ck.fn(TV + 'handleBase')
        ps, fl = ck.flow(f, rec(calls=r'::intersect$'))
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if {(t[2], t[3][0]) for t in p.trace if t[0] == 'c'} == {('this.m_integratedBaseDomain', '$0'), ('this.m_derivedDomain', '$0')} else '%s' % (p.trace,), 'intersect')
        f = ck.fn(TV + 'computeBaseDomain')
        ps, fl = ck.flow(f, rec(calls=r'Domain::(relax|intersect|operator=)$'), sizes=(0, 1, 2), opaque=KEEP)

        def cbd(p):
            c = [t for t in p.trace if t[0] == 'c' and t[2].startswith('this.m_integratedBaseDomain')]
            if not c or c[0][1] != 'relax' or c[0][3][0] not in ('this.m_baseDomain', '*this.m_baseDomain'):
                return 'does not start from the own base domain: %s' % c[:1]
            els = each(p, 'this.m_parentToken.m_mergedTokens')
            if els is None:
                return 'merged tokens are not visited'
            want = ['%s.m_allVariables{this.m_index}' % e for e in els]
            got = [t[3][0].split('.baseDomain')[0].split('.m_baseDomain')[0] for t in c[1:]]
            if got != want or any(t[1] != 'intersect' or 'ase' not in t[3][0][len(w):] for t, w in zip(c[1:], want)):
                return 'restricted by %s instead of the base domains of %s' % ([t[3][0] for t in c[1:]], want)
            sp = [b for a, b in p.facts.items() if a.endswith('{this.m_index}.m_specifiedFlag')]
            if len([1 for w in want]) and len(sp) != len(want):
                return 'specified values not looked at'
            return True if p.val == K(any(sp)) else 'returns %s although specified=%s' % (vs(p.val), sp)
        ck.forall_paths(r6, f['sq'], f, ps, cbd, 'integrated domain')
        for m in ('handleReset', 'resetSpecified'):
            f = ck.fn(TV + m)
            ps, fl = ck.flow(f, rec(calls=r'Domain::relax$|::computeBaseDomain$|^(Variable.*|ConstrainedVariable)::reset$|^ConstrainedVariable::handleReset$', writes='m_isLocallySpecified'), opaque=lambda q: KEEP(q) or q.endswith(('computeBaseDomain', 'Variable<%s>::reset' % d)))

            def hr(p):
                cb = find(p, 'c', 'computeBaseDomain')
                if len(cb) != 1:
                    return 'integrated domain recomputed %d times' % len(cb)
                sh = decided(p, 'computeBaseDomain')
                ls = was(p, 'this.m_isLocallySpecified')
                ch = [t for t in p.trace if t[0] == 'c' and t[1] in ('relax', 'reset')]
                keep = sh == [True] or (m == 'handleReset' and ls is True)
                if keep != (not ch):
                    return 'should stay specified=%s: %s' % (keep, [t[1] for t in ch])
                if m == 'handleReset' and ch and ls is not False:
                    return 'changed although possibly specified locally'
                for t in ch:
                    if 'm_integratedBaseDomain' not in t[3][0]:
                        return 'relaxed to %s' % t[3][0]
                sp = was(p, 'this.m_specifiedFlag')
                if ch and (ch[0][1] == 'reset') != (sp is not False):
                    return 'specified=%s but %s' % (sp, ch[0][1])
                if m == 'resetSpecified':
                    if fin(p, 'this.m_isLocallySpecified') != 'false':
                        return 'still marked as specified locally'
                    mg = decided(p, 'isMerged')
                    h = [t for t in p.trace if t[0] == 'c' and t[1] == 'handleReset']
                    if [t[2] for t in h] != (['this.m_parentToken.m_activeToken.m_allVariables{this.m_index}'] if mg == [True] else []):
                        return 'merged=%s but active token variable told %s' % (mg, h)
                return True
            ck.forall_paths(r6, f['sq'], f, ps, hr, 'reset')
        f = ck.fn(TV + 'setSpecified')
        ps, fl = ck.flow(f, rec(calls=r'::internalSpecify$', writes='m_isLocallySpecified|m_localSpecifiedValue'), opaque=lambda q: KEEP(q) or q.endswith('internalSpecify'))
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if [t[3] for t in p.trace if t[0] == 'c'] == [('$0',)] and fin(p, 'this.m_isLocallySpecified') == 'true' and decided(p, 'isMerged') == [False] else '%s' % (p.trace,), 'specify')
        f = ck.fn(TV + 'handleSpecified')
        ps, fl = ck.flow(f, rec(calls=r'::(internalSpecify|specify)$'), opaque=lambda q: KEEP(q) or q.endswith(('specify', 'Specify')))
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if [t[3] for t in p.trace if t[0] == 'c'] == ([] if was(p, 'this.m_specifiedFlag') else [('$0',)]) else '%s' % (p.trace,), 'implied value')
        f = ck.fn(TV + 'relax')
        ps, fl = ck.flow(f, rec(calls=r'::relax$'), opaque=lambda q: q.endswith('Variable<%s>::relax' % d) and not q.startswith('Token') or q == 'ConstrainedVariable::relax')
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if [t for t in p.trace if t[2] == 'this.m_derivedDomain' and 'm_integratedBaseDomain' in t[3][0]] or any(b for a, b in p.facts.items() if 'm_specifiedFlag' in a or 'isSpecified' in a) else '%s' % (p.trace,), 'relax')
