"""Tokens on objects: assignment and precedence bookkeeping, and the token sequence of a timeline."""
from vf.lib import *
from rules.C07 import token_in
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule (an exception is how a call outside the preconditions is refused)',
               'entries of the tables of an object are reached by key as the container contracts say']
ENG = 'ConstraintEngine::'
Q = {'Object::isConstrainedToPrecede', 'Object::getPrecedenceConstraint', 'Object::isValid', 'Timeline::isValid', 'ConstraintEngine::propagate', 'ConstraintEngine::createConstraint'}
TAB = r'm_(constraintsByKeyPair|keyPairsByConstraintKey|constraintsByTokenKey|explicitConstraints|tokens|tokenSequence|tokenIndex)\b|^L\d+:'
BK, KB, BT, EX = ('this.m_' + x for x in ('constraintsByKeyPair', 'keyPairsByConstraintKey', 'constraintsByTokenKey', 'explicitConstraints'))
SEQ, IDX = 'this.m_tokenSequence', 'this.m_tokenIndex'


def run(ck):
    r1 = ck.rule('constrain', 'constraining two active tokens on an object binds both to the object, posts exactly one precedence from the end of the first to the start of the second, enters it in every table, marks it when explicit, and announces it', 6)
    r2 = ck.rule('free', 'freeing removes exactly that precedence (tables, mark and constraint), drops the binding of a token that nothing keeps on the object, and announces it', 8)
    r3 = ck.rule('token removal', 'removing a token from an object drops it, its mark and every constraint the object holds for it, and announces it', 4)
    r4 = ck.rule('lookups', 'the lookups by token and by pair answer from the tables', 5)
    r5 = ck.rule('sequence', 'the sequence of a timeline and its position index change together, and a token enters next to the token it is constrained with', 6)
    r6 = ck.rule('gaps', 'neighbours in the sequence of a timeline stay linked by a precedence when a token enters or leaves between them', 4)
    r7 = ck.rule('ordering', 'a timeline announces that a token needs ordering when it is added or leaves the sequence, and that it no longer does when it is sequenced or removed', 5)
    r8 = ck.rule('membership', 'the relation between a token and its possible objects adds and removes the token exactly on the objects that enter or leave the domain of its object variable', 6)
    r9 = ck.rule('object end', 'deleting an object deletes its variables and components, takes it off its parent and announces it', 3)
    P = ck.P

    # ---- Object::constrain
    f = fn_of(ck, 'Object::constrain', np=3)
    act = dict(token_in('ACTIVE', '$0'), **token_in('ACTIVE', '$1'))
    R = rec(conts=TAB, calls=r'createConstraint$|::notifyConstrained$|ConstraintEngine::propagate$')
    ps, fl = ck.flow(f, R, opaque=Q, sizes=(0, 1), assume=act)

    def cons(p):
        same = was(p, 'eq($0,$1)')
        cc = [(i, t) for i, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'createConstraint']
        pre = [(i, t) for i, t in cc if 'precedes' in t[3][0]]
        eq = [(i, t) for i, t in cc if 'eq' == t[3][0].strip('\'"')]
        if len(pre) != (0 if same else 1):
            return '%d precedence constraints for %s' % (len(pre), 'a token alone' if same else 'two tokens')
        exp = was(p, '$2')
        if same:
            key = '$0.m_key'
        else:
            i, t = pre[0]
            v = t[5][1]
            if v is None or list(v) != ['$0.end()', '$1.start()']:
                return 'precedence over %s' % v
            con = [x for x in p.trace if x[0] == '+' and x[1] == BK]
            if len(con) != 1 or not con[0][2][0].startswith('(($0.m_key,$1.m_key),'):
                return 'entries by key pair: %s' % con
            c = con[0][2][0][len('(($0.m_key,$1.m_key),'):-1]
            if 'createConstraint(\'precedes' not in c.replace('"', "'"):
                return 'entered by key pair: %s' % c
            if [x[2][0] for x in p.trace if x[0] == '+' and x[1] == KB] != ['(%s.m_key,($0.m_key,$1.m_key))' % c]:
                return 'key pair not entered by constraint'
            got = sorted(x[2][0] for x in p.trace if x[0] == '+' and x[1] == BT and c in x[2][0])
            if got != ['($0.m_key,%s)' % c, '($1.m_key,%s)' % c]:
                return 'entries by token: %s' % got
            key = c + '.m_key'
        marks = [x[2][0] for x in p.trace if x[0] == '+' and x[1] == EX]
        if exp and same is not True and 'eq(%s,null)' % key[:-6] in p.st.why:
            pass        # the engine could not tell that a created constraint exists
        elif marks != ([key] if exp else []):
            return 'explicit marks %s (explicit: %s)' % (marks, exp)
        for k in ('0', '1') if not same else ('0',):
            bound = was(p, 'in($%s.m_key,%s)' % (k, BT))
            b = [x for x in p.trace if x[0] == '+' and x[1] == BT and "createConstraint('eq'" in x[2][0].replace('"', "'") and x[2][0].startswith('($%s.m_key,' % k)]
            if len(b) != (0 if bound else 1):
                return 'token %s bound to the object %d times (bound before: %s)' % (k, len(b), bound)
        for i, t in eq:
            vv = t[5][1] or [t[3][1]]
            if not any('m_thisVar' in x for x in vv) or not any(re.search(r'\$[01]\.m_object', x) for x in vv):
                return 'binding over %s' % vv
        n = find(p, 'c', 'notifyConstrained', args=['this.m_id', '$0', '$1'])
        if len(n) != 1 or len(find(p, 'c', 'notifyConstrained')) != 1:
            return 'announced %d times' % len(n)
        if any(j > n[0] for j, t in enumerate(p.trace) if t[0] in '+-'):
            return 'announced before the tables are complete'
        ap = was(p, 'this.m_planDatabase.m_constraintEngine.m_autoPropagate')
        return True if len(find(p, 'c', 'propagate')) == (1 if ap else 0) else 'propagates %d times (automatic: %s)' % (len(find(p, 'c', 'propagate')), ap)
    ck.forall_paths(r1, 'Object::constrain', f, ps, cons, 'constrain')
    for k in '01':
        for s in ('INACTIVE', 'MERGED', 'REJECTED'):
            a = dict(token_in('ACTIVE', '$' + '10'[int(k)]), **token_in(s, '$' + k))
            ps2, _ = ck.flow(f, R, opaque=Q, sizes=(0, 1), assume=a)
            done = [p for p in ps2 if p.outcome == 'ret' or p.trace]
            ck.ob(r1, 'token %s %s' % (k, s), not done, 'constrains a token that is %s' % s, ck.where(f), done and done[0].why() or '')
    ck.forall_paths(r1, 'not twice', f, ps, lambda p: True if p.facts.get('this.isConstrainedToPrecede($0,$1)') is False or p.facts.get('eq(this.getPrecedenceConstraint($0,$1),null)') else
                    'two tokens that are already constrained are constrained again', 'constrain')
    f = fn_of(ck, 'Object::constrain', np=2)
    ps, fl = ck.flow(f, rec(calls=r'^Object::constrain$'), opaque=lambda q: q == 'Object::constrain')
    ck.forall_paths(r1, 'user request is explicit', f, ps, lambda p: True if [t[3] for t in p.trace] == [('$0', '$1', 'true')] else 'calls %s' % [t[1:4] for t in p.trace], 'constrain')

    # ---- Object::free
    f = fn_of(ck, 'Object::free', np=3)
    ps, fl = ck.flow(f, rec(conts=TAB, calls=r'^Object::(clean|removePrecedenceConstraint)$|::notifyFreed$|ConstraintEngine::propagate$'), sizes=(0, 1),
                     opaque=Q | {'Object::hasExplicitConstraint', 'Object::clean', 'Object::removePrecedenceConstraint'})

    def free(p):
        same, exp = was(p, 'eq($0,$1)'), was(p, '$2')
        got = [(t[1], t[3]) for t in p.trace if t[0] == 'c' and t[1] != 'propagate' and t[1] != 'notifyFreed']
        marks = [t[2] for t in p.trace if t[0] == '-' and t[1] == EX]
        if same:
            if marks != ([('$0.m_key',)] if exp else []):
                return 'explicit marks removed: %s' % marks
            if got != [('clean', ('$0',))]:
                return 'does %s' % got
        else:
            if [g for g in got if g[0] != 'clean'] != [('removePrecedenceConstraint', ('this.getPrecedenceConstraint($0,$1)',))]:
                return 'does %s' % got
            if sorted(g[1] for g in got if g[0] == 'clean') != [('$0',), ('$1',)] or got[0][0] == 'clean':
                return 'does %s' % got
        n = find(p, 'c', 'notifyFreed')
        if len(n) != 1 or p.trace[n[0]][3] != ('this.m_id', '$0', '$1'):
            return 'announced %s' % [p.trace[i][3] for i in n]
        if any(t[0] in '+-' or t[1] in ('clean', 'removePrecedenceConstraint') for t in p.trace[n[0] + 1:]):
            return 'announced too early'
        ap = was(p, 'this.m_planDatabase.m_constraintEngine.m_autoPropagate')
        return True if len(find(p, 'c', 'propagate')) == (1 if ap else 0) else 'propagates %d times (automatic: %s)' % (len(find(p, 'c', 'propagate')), ap)
    ck.forall_paths(r2, 'Object::free', f, ps, free, 'free')
    f = fn_of(ck, 'Object::free', np=2)
    ps, fl = ck.flow(f, rec(calls=r'^Object::free$'), opaque=lambda q: q == 'Object::free')
    ck.forall_paths(r2, 'user request is explicit', f, ps, lambda p: True if [t[3] for t in p.trace] == [('$0', '$1', 'true')] else 'calls %s' % [t[1:4] for t in p.trace], 'free')

    f = ck.fn('Object::removePrecedenceConstraint')
    ps, fl = ck.flow(f, rec(conts=TAB, calls=r'^Object::clean$'), opaque=Q | {'Object::clean'}, sizes=(0, 1, 2))
    PK, SK = '$0.m_variables[0].m_parent.m_key', '$0.m_variables[1].m_parent.m_key'

    def rpc(p):
        if [t[2] for t in p.trace if t[0] == '-' and t[1] == KB] != [('$0.m_key',)] or ('$0.m_key',) not in [t[2] for t in p.trace if t[0] == '-' and t[1] == EX]:
            return 'entry by constraint or explicit mark left behind'
        cl = sorted(t[3] for t in p.trace if t[0] == 'c')
        if cl != sorted([('$0', PK), ('$0', SK)]):
            return 'cleaned: %s' % cl
        dl = [i for i, t in enumerate(p.trace) if t[0] == 'd']
        if [p.trace[i][1] for i in dl] != ['$0'] or dl[0] < len(p.trace) - 1:
            return 'constraint deleted %d times, or before the tables are updated' % len(dl)
        er = [t[2][0] for t in p.trace if t[0] == '-' and t[1] == BK]
        hits = [(w[0] != '!', w.lstrip('!')) for w in p.st.why if re.match(r'!?eq\(', w) and BK in w and ',null)' not in w and w.lstrip('!').startswith('eq($0,')]
        pos = [x for b, x in hits if b]
        if len(er) != len(pos):
            return 'entries by key pair: %d erased, %d are of this constraint' % (len(er), len(pos))
        return True
    ck.forall_paths(r2, 'removePrecedenceConstraint', f, ps, rpc, 'removal of a precedence')
    ck.ob(r2, 'entry by key pair erased', any(find(p, '-', recv=BK) for p in ps), 'the entry by key pair is never erased', ck.where(f))

    f = fn_of(ck, 'Object::clean', np=1)
    ps, fl = ck.flow(f, rec(conts=TAB), opaque=Q | {'Object::hasExplicitConstraint'})

    def clean1(p):
        other = [p.facts[a] for a in p.facts if a.startswith('eq($0.m_key,next(') or (a.startswith('eq(') and a.endswith(',$0.m_key)') and 'next(' in a)]
        last = p.facts.get('eq(it(%s,next(it(%s,$0.m_key))),it(%s,end))' % (BT, BT, BT))
        only = last is True or other == [False] or p.facts.get('eq(1,count($0.m_key,%s))' % BT) or p.facts.get('eq(count($0.m_key,%s),1)' % BT)
        exp = p.facts.get('this.hasExplicitConstraint($0)')
        er = [t[2] for t in p.trace if t[0] == '-' and t[1] == BT]
        dl = [t[1] for t in p.trace if t[0] == 'd']
        if only and exp is False:
            return True if er == [('$0.m_key',)] and dl == ['%s{$0.m_key}' % BT] else 'the last constraint of the token survives (erased %s, deleted %s)' % (er, dl)
        return True if not er and not dl else 'removes %s although %s' % (er or dl, 'explicitly constrained' if exp else 'not the only constraint')
    ck.forall_paths(r2, 'binding', f, ps, clean1, 'clean-up')
    f = fn_of(ck, 'Object::clean', np=2)
    ps, fl = ck.flow(f, rec(conts=TAB), trip=2)

    def clean2(p):
        yes = [w for w in p.st.why if re.match(r'eq\(\$0,', w) and (BT in w or 'second' in w) and ',it(' not in w]
        return True if len(find(p, '-', recv=BT)) == len(yes) else 'erases %d entries where %d are of the constraint' % (len(find(p, '-', recv=BT)), len(yes))
    ck.forall_paths(r2, 'entries by token', f, ps, clean2, 'clean-up')
    ck.ob(r2, 'entries by token erased', any(find(p, '-', recv=BT) for p in ps), 'never erases an entry', ck.where(f))
    f = ck.fn('Object::freeImplicitConstraints')
    ps, fl = ck.flow(f, rec(calls='^Object::free$'), opaque=Q | {'Object::getPrecedenceConstraints', 'Object::free'}, sizes=(0, 1, 2))

    def fic(p):
        c = [c for c in p.st.conts if c.startswith('out:')]
        n = len(p.st.conts[c[0]][0]) if c else 0
        fr = [t[3] for t in p.trace]
        if len(fr) != n or any(x[2:3] != ('false',) for x in fr):
            return '%d of %d precedences freed' % (len(fr), n)
        for i, x in enumerate(fr):
            if '[%d].m_variables[0].m_parent' % i not in x[0] or '[%d].m_variables[1].m_parent' % i not in x[1]:
                return 'frees %s' % (x,)
        return True
    ck.forall_paths(r2, 'freeImplicitConstraints', f, ps, fic, 'implied constraints')

    # ---- Object::remove(token)
    f = fn_of(ck, 'Object::remove', ['Token'])
    ps, fl = ck.flow(f, rec(conts=TAB, calls=r'^Object::removePrecedenceConstraint$|(^|::)cleanup$|::notifyRemoved$|discardAll'), trip=2, sizes=(0, 1, 2),
                     opaque=Q | {'Object::removePrecedenceConstraint', 'Object::clean'})

    def rem(p):
        if [t[2] for t in p.trace if t[0] == '-' and t[1] == 'this.m_tokens'] != [('$0',)]:
            return 'token not taken off the object'
        if ('$0.m_key',) not in [t[2] for t in p.trace if t[0] == '-' and t[1] == EX]:
            return 'explicit mark of the token left behind'
        n = find(p, 'c', 'notifyRemoved')
        if len(n) != 1 or p.trace[n[0]][3] != ('this.m_id', '$0') or n[0] != len(p.trace) - 1:
            return 'announced %s' % [p.trace[i][3] for i in n]
        looked = [(w[0] != '!', re.match(r'!?in\((.*)\.m_key,' + re.escape(KB), w).group(1)) for w in p.st.why if re.match(r'!?in\(.*\.m_key,' + re.escape(KB), w)]
        if was(p, 'in($0.m_key,%s)' % BT) and not looked:
            return 'constraints of the token not visited'
        for b, x in looked:
            if b and [t[3] for t in p.trace if t[0] == 'c' and t[1] == 'removePrecedenceConstraint'].count((x,)) != 1:
                return 'precedence %s not removed' % x
            if not b:
                loc = [t[1] for t in p.trace if t[0] == '+' and t[2] == (x,)]
                if not loc or not [t for t in p.trace if t[0] == 'c' and t[1] in ('cleanup', 'discardAll') and loc[0] in t[3]]:
                    return 'constraint %s not deleted' % x
        ds = [t for t in p.trace if t[0] == '-' and t[1] == BT]
        return True if len(ds) >= len(looked) else 'entries by token left behind'
    ck.forall_paths(r3, 'Object::remove', f, ps, rem, 'removal of a token')
    ck.ob(r3, 'both kinds of constraint', any(find(p, 'c', 'removePrecedenceConstraint') for p in ps) and any(find(p, 'c', 'cleanup') or find(p, 'c', 'discardAll') for p in ps),
          'one kind of constraint is never removed', ck.where(f))

    def done(p):
        if p.outcome != 'ret' or '*loop' in p.st.why or not was(p, 'in($0.m_key,%s)' % BT):
            return True
        ends = [w for w in p.st.why if 'next(' in w and (w.startswith('eq(it(') and w.endswith('end))') or w.startswith('!eq($0.m_key,next') or (w.startswith('!eq(') and w.endswith(',$0.m_key)')))]
        return True if ends else 'stops before the last constraint of the token'
    ck.forall_paths(r3, 'all constraints', f, ps, done, 'removal of a token')
    f = fn_of(ck, 'Object::notifyDeleted')
    ps, fl = ck.flow(f, rec(calls=r'::remove$'), opaque=lambda q: q.endswith('::remove'))
    ck.forall_paths(r3, 'notifyDeleted', f, ps, lambda p: True if [(t[2], t[3]) for t in p.trace] == [('this', ('$0',))] else 'calls %s' % [t[1:4] for t in p.trace], 'deletion of a token')
    f = fn_of(ck, 'Object::add', ['Token'])
    ps, fl = ck.flow(f, rec(conts='m_tokens', calls='::notifyAdded$'))
    ck.forall_paths(r3, 'Object::add', f, ps, lambda p: True if [(t[0], t[1], t[2] if t[0] == '+' else t[3]) for t in p.trace] == [('+', 'this.m_tokens', ('$0',)), ('c', 'notifyAdded', ('this.m_id', '$0'))] else
                    'does %s' % [t[:4] for t in p.trace], 'addition of a token')

    # ---- lookups
    f = ck.fn('Object::getPrecedenceConstraint')
    ps, fl = ck.flow(f, rec(), sizes=(0, 1, 2), trip=2)

    def gpc(p):
        v = vs(p.val)
        if v == 'null':
            return True
        if BK not in v:
            return 'answers %s' % v
        a, b = [p.facts.get('eq($0.end(),%s.m_variables[0])' % v), p.facts.get('eq($1.start(),%s.m_variables[1])' % v)]
        return True if a and b else 'answers a constraint between other variables'
    ck.forall_paths(r4, 'getPrecedenceConstraint', f, ps, gpc, 'lookup by pair')
    ck.ob(r4, 'getPrecedenceConstraint finds', any(p.outcome == 'ret' and vs(p.val) != 'null' for p in ps) and not [p for p in ps if p.outcome == 'ret' and vs(p.val) == 'null' and
          [a for a in p.facts if a.startswith('eq($0.end(),') and p.facts[a]] and any(p.facts.get(a.replace('$0.end()', '$1.start()').replace('m_variables[0]', 'm_variables[1]')) for a in p.facts if a.startswith('eq($0.end(),') and p.facts[a])],
          'a matching constraint is not answered', ck.where(f))
    f = ck.fn('Object::isConstrainedToPrecede')
    ps, fl = ck.flow(f, rec(), opaque=Q - {'Object::isConstrainedToPrecede'})
    ck.forall_paths(r4, 'isConstrainedToPrecede', f, ps, lambda p: True if vs(p.val) == ('false' if p.facts.get('eq(this.getPrecedenceConstraint($0,$1),null)') else 'true') else 'answers %s' % vs(p.val), 'lookup by pair')
    f = ck.fn('Object::getPrecedenceConstraints')
    ps, fl = ck.flow(f, rec(conts=r'^\$1'), trip=2, opaque=Q)

    def gpcs(p):
        looked = [(w[0] != '!', re.match(r'!?in\((.*)\.m_key,' + re.escape(KB), w).group(1)) for w in p.st.why if re.match(r'!?in\(.*\.m_key,' + re.escape(KB), w)]
        if was(p, 'in($0.m_key,%s)' % BT) and not looked:
            return 'constraints of the token not visited'
        return True if [t[2] for t in p.trace if t[0] == '+'] == [(x,) for b, x in looked if b] else 'answers %s where the precedences are %s' % (p.trace, looked)
    ck.forall_paths(r4, 'getPrecedenceConstraints', f, ps, gpcs, 'lookup by token')
    ck.forall_paths(r4, 'getPrecedenceConstraints all', f, ps, done, 'lookup by token')
    f = ck.fn('Object::hasExplicitConstraint')
    ps, fl = ck.flow(f, rec(), sizes=(0, 1, 2), opaque=Q | {'Object::getPrecedenceConstraints'})

    def hec(p):
        m = [b for a, b in p.facts.items() if a.startswith('in(') and a.endswith(',%s)' % EX)]
        v = vs(p.val)
        if v == 'true':
            return True if any(m) else 'answers true without a mark'
        c = [c for c in p.st.conts if c.startswith('out:') and '[' not in c]
        n = len(p.st.conts[c[0]][0]) if c else 0
        return True if not any(m) and len(m) == n + 1 and p.facts.get('in($0.m_key,%s)' % EX) is False else 'answers %s after looking at %d of %d marks' % (v, len(m), n + 1)
    ck.forall_paths(r4, 'hasExplicitConstraint', f, ps, hec, 'explicit marks')
    f = fn_of(ck, 'Timeline::hasToken')
    ps, fl = ck.flow(f, rec())
    ck.forall_paths(r4, 'Timeline::hasToken', f, ps, lambda p: True if vs(p.val) == ('true' if p.facts.get('in($0.m_key,%s)' % IDX) else 'false') else 'answers %s' % vs(p.val), 'lookup')
    # tokens to order: the active ones that are not sequenced
    for q in ('Timeline::getTokensToOrder', 'Timeline::hasTokensToOrder'):
        f = ck.fn(q)
        ps, fl = ck.flow(f, rec(conts=r'^\$0'), sizes=(0, 1, 2), opaque=Q | {'Token::isActive', 'ConstraintEngine::constraintConsistent'})

        def tto(p):
            els = each(p, 'this.m_tokens') or []
            want = [e for e in els if p.facts.get('%s.isActive()' % e) and p.facts.get('in(%s.m_key,%s)' % (e, IDX)) is False]
            und = [e for e in els if not (p.facts.get('%s.isActive()' % e) is False or p.facts.get('in(%s.m_key,%s)' % (e, IDX)) is not None)]
            if 'has' in q:
                if vs(p.val) == 'true':
                    return True if want else 'answers true with no such token'
                return True if not want and not und else 'answers %s although %s may need ordering' % (vs(p.val), want or und)
            got = [t[2][0] for t in p.trace if t[0] == '+']
            return True if got == want and not und else 'lists %s, expected %s' % (got, want)
        ck.forall_paths(r4, q, f, ps, tto, 'tokens to order')

    # ---- Timeline
    OPT = Q | {'Object::constrain', 'Object::free', 'Object::remove', 'Object::add', 'Object::hasExplicitConstraint', 'Object::freeImplicitConstraints',
               'Object::notifyOrderingRequired', 'Object::notifyOrderingNoLongerRequired'}
    RT = rec(conts=TAB, calls=r'^Object::(constrain|free|remove|add|freeImplicitConstraints|notifyOrdering\w+)$')

    def paired(p):
        """index and sequence events pair up; returns list of errors"""
        ins = [t[2][-1] for t in p.trace if t[0] == '+' and t[1] == SEQ]
        ii = [t[2][0] for t in p.trace if t[0] == '+' and t[1] == IDX]
        if len(ins) != len(ii):
            return '%d tokens enter the sequence, %d the index' % (len(ins), len(ii))
        for a, b in zip(ins, ii):
            if not b.startswith('(%s.m_key,it(%s,' % (a, SEQ)):
                return 'token %s enters the sequence, the index gets %s' % (a, b)
        de = [t for t in p.trace if t[0] in '-0' and t[1] == SEQ]
        di = [t[2][0] for t in p.trace if t[0] == '-' and t[1] == IDX]
        if len(de) != len(di):
            return '%d tokens leave the sequence, %d the index' % (len(de), len(di))
        gone = set()
        for t, k in zip(de, di):
            gone.add(k)
            if t[0] == '0':
                if not any(w.startswith('size(%s' % IDX) and w.endswith('=0') for w in p.st.why):
                    return 'sequence cleared while the index holds other tokens'
                continue
            x = t[2][0]
            tok = k[:-len('.m_key')] if k.endswith('.m_key') else k
            ok = x in ('%s{%s}' % (IDX, k), tok) or '%s[end]' % IDX in x or any(w in ('eq(%s,%s)' % (tok, x), 'eq(%s,%s)' % (x, tok)) for w in p.st.why)
            if not ok:
                return '%s leaves the sequence while %s leaves the index' % (x, tok)
        return True
    tl = {q: fn_of(ck, 'Timeline::' + q, ['Token']) for q in ('constrain', 'free', 'remove', 'add', 'notifyDeleted')}
    T = {}
    for q, f in tl.items():
        if q == 'notifyDeleted':
            continue
        T[q] = ck.flow(f, RT, opaque=OPT, sizes=(0, 1, 2))[0]
        ck.forall_paths(r5, f['sq'] + ' pairing', f, T[q], paired, 'sequence and index')
    f = tl['constrain']

    def sequenced(p):
        if 'size(%s)=0' % SEQ in p.st.why:
            return False, False        # an empty sequence holds neither (pairing is checked separately)
        return was(p, 'in($0.m_key,%s)' % IDX), was(p, 'in($1.m_key,%s)' % IDX)

    def tcon(p):
        c = [t for t in p.trace if t[0] == 'c' and t[1] == 'constrain']
        if not c or c[0][3] != ('$0', '$1', 'true') or [t for t in c[1:] if t[3][2] != 'false']:
            return 'constraints posted: %s' % [t[3] for t in c]
        i0, i1 = sequenced(p)
        ins = [t[2] for t in p.trace if t[0] == '+' and t[1] == SEQ]
        ni = [b for a, b in p.facts.items() if a.startswith('eq(it(%s' % SEQ)]
        if i0 and i1:
            return True if not ins and len(c) == 1 else 'inserts a sequenced token again'
        if not i0 and not i1:
            els = each(p, SEQ)
            want = ['$0', '$1'] if was(p, 'eq($0,$1)') is False else ['$1']
            if els != want and not (want == ['$1'] and els == ['$0']):
                return 'first tokens sequenced as %s' % els
            return True if len(c) == 1 else 'more constraints than the requested one'
        if i0:
            want, tok = ('%s{$0.m_key}+1' % IDX, '$1'), '$1'
        else:
            want, tok = ('%s{$1.m_key}' % IDX, '$0'), '$0'
        return True if ins == [want] else 'token enters at %s, expected %s' % (ins, want)
    ck.forall_paths(r5, 'Timeline::constrain position', f, T['constrain'], tcon, 'position in the sequence')

    def gapc(p):
        i0, i1 = sequenced(p)
        extra = [t[3] for t in p.trace if t[0] == 'c' and t[1] == 'constrain'][1:]
        if bool(i0) == bool(i1):
            return True
        dec = [b for a, b in p.facts.items() if a.startswith('eq(it(%s' % SEQ)]
        if dec[-1:] == [True] or not dec:
            return True if dec and not extra else 'end of the sequence not tested, or constrained with %s' % extra
        if len(extra) != 1:
            return 'the token enters between two others: %d implied precedences' % len(extra)
        a, b, _ = extra[0]
        ok = (b == '$0' and a == 'prev(it(%s,$0))' % SEQ) if not i0 else (a == '$1' and b == 'next(it(%s,$1))' % SEQ)
        return True if ok else 'implied precedence between %s and %s' % (a, b)
    ck.forall_paths(r6, 'Timeline::constrain', f, T['constrain'], gapc, 'entering between two tokens')

    # removal from the middle
    f = tl['remove']
    at = '%s{$0.m_key}' % IDX

    def gapr(p):
        fr = [i for i, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'remove']
        if len(fr) != 1 or p.trace[fr[0]][3] != ('$0',):
            return 'handed to the object %d times' % len(fr)
        if not was(p, 'in($0.m_key,%s)' % IDX):
            return True if not find(p, 'c', 'constrain') else 'constrains others'
        first = was(p, 'eq(it(%s,0),%s)' % (SEQ, at))
        last = was(p, 'eq(it(%s,end),%s+1)' % (SEQ, at))
        c = [t[3] for t in p.trace if t[0] == 'c' and t[1] == 'constrain' and t[3][:2] == (at + '-1', at + '+1')]
        mid = first is False and last is False and was(p, 'eq(%s-1,null)' % at) is not True and was(p, 'eq(%s+1,null)' % at) is not True
        pre = was(p, 'eq(this.getPrecedenceConstraint(%s-1,%s+1),null)' % (at, at))
        if pre is None and was(p, 'this.isConstrainedToPrecede(%s-1,%s+1)' % (at, at)) is not None:
            pre = not was(p, 'this.isConstrainedToPrecede(%s-1,%s+1)' % (at, at))
        if mid and pre is None:
            return 'leaves the middle of the sequence; whether its neighbours are linked is not looked at'
        want = 1 if mid and pre else 0
        return True if len(c) == want else 'neighbours linked %d times (between two tokens: %s, linked before: %s)' % (len(c), mid, pre is False)
    ck.forall_paths(r6, 'Timeline::remove', f, T['remove'], gapr, 'leaving')
    ck.forall_paths(r5, 'Timeline::remove position', f, T['remove'], lambda p: True if (not was(p, 'in($0.m_key,%s)' % IDX)) == (not [t for t in p.trace if t[0] == '-' and t[1] == IDX and t[2] == ('$0.m_key',)]) else
                    'a removed token stays in the index, or one that is not sequenced is taken out', 'leaving')

    # free
    f = tl['free']

    def tfree(p):
        same = was(p, 'eq($0,$1)')
        con = was(p, 'eq(this.getPrecedenceConstraint($0,$1),null)') is False
        marks = [t[2] for t in p.trace if t[0] == '-' and t[1] == EX]
        if con and ('this.getPrecedenceConstraint($0,$1).m_key',) not in marks:
            return 'the precedence stays marked as explicit'
        if same and ('$0.m_key',) not in marks and ('$1.m_key',) not in marks:
            return 'the token stays marked as explicit'
        need = [was(p, 'this.hasExplicitConstraint($%d)' % k) for k in (0, 1)]
        if same:
            need[1] = need[0] if need[1] is None else need[1]
        if need[0] and need[1]:
            return True if not [t for t in p.trace if t[0] == 'c' or t[1] in (SEQ, IDX)] else 'a precedence between tokens that both stay is removed'
        fr = [i for i, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'free']
        if [p.trace[i][3] for i in fr] != [('$0', '$1', 'false')]:
            return 'freed: %s' % [p.trace[i][3] for i in fr]
        out = [t[2][0] for t in p.trace if t[0] == '-' and t[1] == IDX]
        want = ['$0.m_key'] if same else ['$%d.m_key' % k for k in (0, 1) if not need[k]]
        if sorted(out) != want:
            return 'tokens leaving the sequence: %s, expected %s' % (out, want)
        fi = sorted(t[3][0] + '.m_key' for t in p.trace if t[0] == 'c' and t[1] == 'freeImplicitConstraints')
        return True if fi == want else 'implied precedences freed for %s, expected %s' % (fi, want)
    ck.forall_paths(r5, 'Timeline::free', f, T['free'], tfree, 'freeing')

    def order_free(p):
        """implied precedences are freed before the token leaves the index"""
        for i, t in enumerate(p.trace):
            if t[0] == '-' and t[1] == IDX:
                tok = t[2][0][:-6]
                j = [k for k, u in enumerate(p.trace) if u[0] == 'c' and u[1] == 'freeImplicitConstraints' and u[3] == (tok,)]
                if not j or j[0] > i:
                    return 'token %s leaves with implied precedences' % tok
        return True
    ck.forall_paths(r5, 'Timeline::free implied', f, T['free'], order_free, 'freeing')

    def gapf(p):
        """implied precedence iff the two tokens that meet are adjacent and not yet linked"""
        pre = [(w[0] != '!', w.lstrip('!')) for w in p.st.why if 'isConstrainedToPrecede(' in w]
        c = [t[3] for t in p.trace if t[0] == 'c' and t[1] == 'constrain']
        if any(x[2] != 'false' for x in c):
            return 'posts an explicit precedence'
        want = [re.match(r'this\.isConstrainedToPrecede\((.*)\)$', w).group(1) for b, w in pre if not b]
        got = ['%s,%s' % x[:2] for x in c]
        if got != want:
            return 'links %s, unlinked neighbours %s' % (got, want)
        if was(p, 'eq($0,$1)') is False and find(p, 'c', 'free') and not pre:
            met = [(w.lstrip('!'), w[0] != '!') for w in p.st.why]
            nxt = [b for a, b in met if a.startswith('eq(') and re.search(r'\.m_key\}\+1', a) and 'it(%s,end)' % SEQ not in a and not a.endswith(',null)')]
            if any(nxt):
                return 'two tokens meet; whether they are linked is not looked at'
        if was(p, 'eq($0,$1)') is True:
            ends = [b for a, b in ((w.lstrip('!'), w[0] != '!') for w in p.st.why) if re.match(r'eq\(\$0,%s\[\d+\]\)' % re.escape(SEQ), a)]
            if not any(ends) and not pre and '*loop' not in p.st.why and len(find(p, '-', recv=IDX)):
                sz = [w for w in p.st.why if w.startswith('size(%s' % SEQ)]
                return 'a token leaves the middle of the sequence without its neighbours being linked'
        return True
    ck.forall_paths(r6, 'Timeline::free', f, T['free'], gapf, 'leaving')
    need = lambda p, k: was(p, 'this.hasExplicitConstraint(%s)' % k)
    for k in (True, False):
        for l in (True, False):
            if not (k and l):
                ck.ob(r6, 'Timeline::free, first still required %s, second %s' % (k, l),
                      any(find(p, 'c', 'constrain') for p in T['free'] if was(p, 'eq($0,$1)') is False and need(p, '$0') is k and need(p, '$1') is l),
                      'the tokens that meet are never linked', ck.where(f))
    ck.ob(r6, 'Timeline::free links', any(find(p, 'c', 'constrain') for p in T['free'] if was(p, 'eq($0,$1)')) and any(find(p, 'c', 'constrain') for p in T['free'] if was(p, 'eq($0,$1)') is False),
          'neighbours are never linked again', ck.where(f))

    # ---- ordering announcements
    ck.forall_paths(r7, 'Timeline::add', tl['add'], T['add'], lambda p: True if [(t[1], t[3]) for t in p.trace if t[0] == 'c'] == [('add', ('$0',)), ('notifyOrderingRequired', ('$0',))] else
                    'does %s' % [(t[1], t[3]) for t in p.trace if t[0] == 'c'], 'addition')

    def ordn(toks):
        def pred(p):
            if was(p, 'eq($0,$1)'):
                ts = ['$0']
            else:
                ts = toks
            for k in ts:
                d, i = was(p, '%s.m_deleted' % k), was(p, 'in(%s.m_key,%s)' % (k, IDX))
                n = [j for j, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'notifyOrderingNoLongerRequired' and t[3] == (k,)]
                want = 1 if d is False and i is False else 0
                if i is None and d is not True and not was(p, 'eq($0,$1)'):
                    return 'not determined whether %s was sequenced' % k
                if len(n) != want:
                    return '%s: announced %d times (sequenced %s, deleted %s)' % (k, len(n), i, d)
                m = [j for j, t in enumerate(p.trace) if t[0] == '+' and t[1] == IDX and t[2][0].startswith('(%s.m_key,' % k)]
                if n and m and m[0] < n[0]:
                    return 'announced after %s entered the sequence' % k
            return True
        return pred
    ck.forall_paths(r7, 'Timeline::constrain', tl['constrain'], T['constrain'], ordn(['$0', '$1']), 'ordering no longer required')
    ck.forall_paths(r7, 'Timeline::remove', tl['remove'], T['remove'], ordn(['$0']), 'ordering no longer required')

    def ordr(p):
        for t in p.trace:
            if t[0] == '-' and t[1] == IDX:
                if len([u for u in p.trace if u[0] == 'c' and u[1] == 'notifyOrderingRequired' and u[3] == (t[2][0][:-6],)]) != 1:
                    return 'token leaving the sequence not announced as needing ordering'
        return True
    ck.forall_paths(r7, 'Timeline::free', tl['free'], T['free'], ordr, 'ordering required')
    f = tl['notifyDeleted']
    ps, fl = ck.flow(f, rec(calls=r'::remove$'), opaque=lambda q: q.endswith('::remove'))
    ck.forall_paths(r7, 'Timeline::notifyDeleted', f, ps, lambda p: True if [(t[2], t[3]) for t in p.trace] == [('this', ('$0',))] else 'calls %s' % [t[1:4] for t in p.trace], 'deletion')
    for q, n in (('Object::notifyOrderingRequired', 'notifyOrderingRequired'), ('Object::notifyOrderingNoLongerRequired', 'notifyOrderingNoLongerRequired')):
        f = ck.fn(q)
        ps, fl = ck.flow(f, rec(calls='^PlanDatabase::notify'), opaque=lambda q: q.startswith('PlanDatabase::'))
        ck.forall_paths(r7, q, f, ps, lambda p: True if [(t[1], t[3]) for t in p.trace] == [(n, ('this.m_id', '$0'))] else 'tells %s' % [(t[1], t[3]) for t in p.trace], 'announcement')

    # ---- ObjectTokenRelation
    membership(ck, r8)

    # ---- deletion of an object
    f = ck.fn('Object::handleDiscard')
    ps, fl = ck.flow(f, rec(calls=r'^Object::(clean|cascadeDelete|remove)$|PlanDatabase::notifyRemoved$', conts='m_components'), sizes=(0, 1, 2),
                     opaque=Q | {'Object::clean', 'Object::cascadeDelete', 'Object::remove', 'PlanDatabase::notifyRemoved'})

    def disc(p):
        if purging(p):
            return True if not p.trace else 'acts while everything is purged'
        dl = [t[1] for t in p.trace if t[0] == 'd']
        vars_ = each(p, 'this.m_variables')
        if vars_ is None or sorted(dl) != sorted(['this.m_thisVar'] + vars_):
            return 'deletes %s of the variables %s' % (dl, vars_)
        comp = each(p, 'this.m_components')
        if comp is None or sorted(t[2] for t in p.trace if t[0] == 'c' and t[1] == 'cascadeDelete') != sorted(comp):
            return 'components %s not deleted' % comp
        par = was(p, 'eq(this.m_parent,null)')
        rm = [t for t in p.trace if t[0] == 'c' and t[1] == 'remove']
        if len(rm) != (1 if par is False else 0) or any(t[2] != 'this.m_parent' or t[3] != ('this.m_id',) for t in rm):
            return 'parent not told'
        n = find(p, 'c', 'notifyRemoved')
        return True if len(n) == 1 and p.trace[n[0]][3] == ('this.m_id',) else 'not announced'
    ck.forall_paths(r9, 'Object::handleDiscard', f, ps, disc, 'deletion of an object')
    f = ck.fn('Object::cascadeDelete')
    ps, fl = ck.flow(f, rec(writes='m_parent$'), opaque=lambda q: q.endswith('::~Object') or q == 'Object::handleDiscard')
    ck.forall_paths(r9, 'Object::cascadeDelete', f, ps, lambda p: True if fin(p, 'this.m_parent') == 'null' and find(p, 'd', recv='this') else 'component not deleted, or would modify its parent', 'cascade')
    f = ck.fn('Object::close')
    ps, fl = ck.flow(f, rec(writes='m_state$', calls='::notifyAdded$'), opaque={'PlanDatabase::notifyAdded'})
    ck.forall_paths(r9, 'Object::close', f, ps, lambda p: True if 'COMPLETE' in fin(p, 'this.m_state') and [t[3] for t in p.trace if t[0] == 'c'] == [('this.m_id',)] else 'events %s' % (p.trace,), 'completion')
    f = fn_of(ck, 'Object::add', ['Object'])
    ps, fl = ck.flow(f, rec(conts='m_components'))
    ck.forall_paths(r9, 'component added', f, ps, lambda p: True if [t[:3] for t in p.trace] == [('+', 'this.m_components', ('$0',))] else 'events %s' % (p.trace,), 'component')
    f = fn_of(ck, 'Object::remove', ['Object'])
    ps, fl = ck.flow(f, rec(conts='m_components'))
    ck.forall_paths(r9, 'component removed', f, ps, lambda p: True if [t[:3] for t in p.trace] == [('-', 'this.m_components', ('$0',))] else 'events %s' % (p.trace,), 'component')


def membership(ck, r8):
    NO = 'this.m_notifiedObjects'
    opq = {'Object::add', 'Object::remove', 'Token::isActive', 'ObjectTokenRelation::isValid'}
    f = ck.fn('ObjectTokenRelation::notifyAdditions')
    ps, fl = ck.flow(f, rec(conts='m_notifiedObjects', calls=r'^(Object|Timeline)::(add|remove)$'), opaque=opq, sizes=(0, 1, 2))

    def adds(p):
        c = [c for c in p.st.conts if c.startswith('out:getValues') and '[' not in c] or [c for c in p.st.conts if 'm_currentDomain' in c and '[' not in c]
        if not c:
            return 'the domain of the object variable is not visited'
        n = len(p.st.conts[c[0]][0])
        obs = ['Entity::getTypedEntity(%s)' % vs(x) for x in p.st.conts[c[0]][0]]
        new = [o for o in obs if was(p, 'in(%s,%s)' % (o, NO)) is False or (was(p, 'in(%s,%s)' % (o, NO)) is None and [t for t in p.trace if t[0] == '+' and t[2] == (o,)])]
        got = [(t[2], t[3]) for t in p.trace if t[0] == 'c']
        ins = [t[2] for t in p.trace if t[0] == '+']
        und = [o for o in obs if o not in new and was(p, 'in(%s,%s)' % (o, NO)) is None]
        if und:
            return 'object %s of the domain is skipped' % und[0]
        return True if sorted(got) == sorted((o, ('this.m_token',)) for o in new) and sorted(ins) == sorted((o,) for o in new) else 'adds to %s, expected %s' % (got, new)
    ck.forall_paths(r8, 'additions', f, ps, adds, 'objects entering the domain')
    f = ck.fn('ObjectTokenRelation::notifyRemovals')
    ps, fl = ck.flow(f, rec(conts='m_notifiedObjects', calls=r'^(Object|Timeline)::(add|remove)$'), opaque=opq, sizes=(0, 1, 2))

    def rems(p):
        if '*loop' in p.st.why:
            return True
        n = [int(w.split('=')[1]) for w in p.st.why if w.startswith('size(%s)=' % NO)]
        if not n:
            return 'the objects told so far are not visited'
        act = p.facts.get('this.m_token.isActive()')
        want = []
        for i in range(n[0]):
            o = '%s[%d]' % (NO, i)
            m = was(p, 'this.m_currentDomain.isMember(%s)' % o)
            if m is None and act is not False:
                m = was(p, 'this.m_currentDomain.isMember(%s.m_key)' % o)
                if m is None:
                    return 'object %d is not examined' % i
            if act is False or m is False:
                want.append(o)
        got = [(t[2], t[3]) for t in p.trace if t[0] == 'c']
        er = [t[2] for t in p.trace if t[0] == '-'] or [(w,) for w in want if any(t[0] == '0' for t in p.trace)]
        return True if sorted(got) == sorted((o, ('this.m_token',)) for o in want) and sorted(er) == sorted((o,) for o in want) else 'removes from %s, expected %s' % (got, want)
    ck.forall_paths(r8, 'removals', f, ps, rems, 'objects leaving the domain')
    opq |= {'ObjectTokenRelation::notifyAdditions', 'ObjectTokenRelation::notifyRemovals'}
    R = rec(calls='^ObjectTokenRelation::notify(Additions|Removals)$')
    CL = 'this.m_currentDomain.m_closed'
    for f in ck.P.byq['ObjectTokenRelation::handleExecute']:
        ps, fl = ck.flow(f, R, opaque=opq, sizes=(0, 1))

        def exe(p):
            got = [t[1] for t in p.trace]
            if was(p, CL) is False or was(p, 'this.m_token.isActive()') is False:
                return True if not got else 'acts on a token that is not active, or an open domain'
            first = 'size(%s)=0' % NO in p.st.why
            return True if got == ['notifyAdditions' if first else 'notifyRemovals'] else 'does %s (nothing told so far: %s)' % (got, first)
        ck.forall_paths(r8, 'execution/%d' % len(f['p']), f, ps, exe, 'restriction')
    f = ck.fn('ObjectTokenRelation::canIgnore')
    ps, fl = ck.flow(f, R, opaque=opq, sizes=(0, 1))

    def ign(p):
        if vs(p.val) != 'true':
            return 'answers %s' % vs(p.val)
        got = [t[1] for t in p.trace]
        if was(p, CL) is False:
            return True if not got else 'acts on an open domain'
        rel_ = any(b and re.search(r'RESET|RELAXED', w) for w, b in ((w.lstrip('!'), w[0] != '!') for w in p.st.why))
        no = [w for w in p.st.why if w[0] == '!' and re.search(r'RESET|RELAXED', w)]
        if not rel_ and len(no) < 2:
            return 'not determined whether the change is a relaxation'
        act = was(p, 'this.m_token.isActive()')
        if rel_:
            want = ['notifyAdditions'] if act else ['notifyRemovals']
        elif act:
            want = ['notifyAdditions'] if 'size(%s)=0' % NO in p.st.why else ['notifyRemovals']
        else:
            want = []
        return True if got == want else 'does %s, expected %s (relaxation: %s, active: %s)' % (got, want, rel_, act)
    ck.forall_paths(r8, 'events', f, ps, ign, 'change of the state or object variable')
    f = ck.fn('ObjectTokenRelation::handleDiscard')
    ps, fl = ck.flow(f, R, opaque=opq)
    ck.forall_paths(r8, 'end', f, ps, lambda p: True if len(p.trace) == (0 if purging(p) else 1) and all(t[1] == 'notifyRemovals' for t in p.trace) else 'does %s' % [t[1] for t in p.trace], 'end of the relation')
