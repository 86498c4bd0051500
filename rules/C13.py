"""Plan database: events reach every listener, indices follow the entities."""
from vf.lib import *
from .C07 import token_in, transitions


MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule']
PD = 'PlanDatabase::'


def sources(ck, r0):
    transitions(ck, None, r0)
    opq = {'Object::isConstrainedToPrecede', 'Object::getPrecedenceConstraint', 'Object::isValid', 'ConstraintEngine::propagate', 'ConstraintEngine::createConstraint',
           'Object::hasExplicitConstraint', 'Object::clean', 'Object::removePrecedenceConstraint'}
    for q, sub, np, note, args in (('Object::add', 'Token', None, 'notifyAdded', ('this.m_id', '$0')), ('Object::remove', 'Token', None, 'notifyRemoved', ('this.m_id', '$0')),
                                   ('Object::close', None, 0, 'notifyAdded', ('this.m_id',)), ('Object::constrain', None, 3, 'notifyConstrained', ('this.m_id', '$0', '$1')),
                                   ('Object::free', None, 3, 'notifyFreed', ('this.m_id', '$0', '$1')), ('Object::handleDiscard', None, 0, 'notifyRemoved', ('this.m_id',)),
                                   ('Token::close', None, 0, 'notifyAdded', ('this.m_id',)), ('Token::terminate', None, 0, 'notifyTerminated', ('this.m_id',))):
        f = fn_of(ck, q, [sub] if sub else None, np)
        ps, fl = ck.flow(f, rec(calls=r'^PlanDatabase::notify'), opaque=opq | {'Object::cascadeDelete'}, sizes=(0, 1), trip=2)
        ck.forall_paths(r0, '%s(%s)' % (q, sub or ''), f, ps, lambda p: True if [(t[1], t[3]) for t in p.trace if t[0] == 'c'] == ([] if q.endswith('Discard') and purging(p) else [(note, args)]) else
                        'the plan database is told %s' % [(t[1], t[3]) for t in p.trace if t[0] == 'c'], 'announcement')


def run(ck):
    r0 = ck.rule('sources', 'every operation on a token or object that the plan database has an event for announces exactly that event once', 14)
    sources(ck, r0)
    r1 = ck.rule('publish', 'every plan event is passed to every registered listener exactly once with the entities concerned, after the indices have been updated', 16)
    r2 = ck.rule('registration', 'a listener is registered when created and unregistered when destroyed', 2)
    r3 = ck.rule('tokens', 'the set of tokens, of active tokens per predicate and of tokens to order follow additions, removals, activations and deactivations', 8)
    r4 = ck.rule('objects', 'the sets of objects, by name and by type, follow additions and removals', 4)
    r5 = ck.rule('object variables', 'the variables over a type of objects follow the objects of that type until the type is closed', 6)
    r6 = ck.rule('globals', 'global variables and tokens are found by name exactly while registered; deleting another one of the same name leaves them registered', 8)
    r7 = ck.rule('archive', 'archiving terminates and deletes exactly the unmerged tokens that end before the tick and can be terminated', 1)
    r8 = ck.rule('purge', 'purging deletes every root token, every root object and every global variable', 2)

    # ---- publish
    lst = {f['q'] for f in ck.P.fns.values() if short(f.get('cls', '')) == 'PlanDatabaseListener'}
    EV = [('notifyAdded', 'Object', 1), ('notifyRemoved', 'Object', 1), ('notifyAdded', 'Token', 1), ('notifyRemoved', 'Token', 1), ('notifyAdded', 'Object', 2), ('notifyRemoved', 'Object', 2),
          ('notifyActivated', 'Token', 1), ('notifyDeactivated', 'Token', 1), ('notifyMerged', 'Token', 1), ('notifySplit', 'Token', 1), ('notifyRejected', 'Token', 1), ('notifyReinstated', 'Token', 1),
          ('notifyCommitted', 'Token', 1), ('notifyTerminated', 'Token', 1), ('notifyConstrained', 'Object', 3), ('notifyFreed', 'Object', 3)]
    reg = fn_of(ck, PD + 'notifyAdded', sub=['PlanDatabaseListener'])
    cont = container_of_registration(ck, r2, reg, 'plan database listener')
    unreg = fn_of(ck, PD + 'notifyRemoved', sub=['PlanDatabaseListener'])
    removal_of_registration(ck, r2, unreg, cont, 'plan database listener')
    EVF = {}
    for m, t, n in EV:
        fs = [f for f in ck.P.byq.get(PD + m, []) if len(f['p']) == n and re.search(r'\b%s\b' % t, f['p'][0]['t'])]
        if len(fs) != 1:
            raise Broken('%s(%s): %d candidates' % (m, t, len(fs)))
        f = EVF[m, t, n] = fs[0]
        base = rec_listener({'PlanDatabaseListener'})
        ch = rec(conts=r'^this\.m_(tokens|objects|objectsBy\w+|activeTokens\w*|tokensToOrder|globalTokens\w*)', calls=r'ConstrainedVariable::(insert|remove)$')
        ps, fl = ck.flow(f, lambda ev, st, fl: base(ev, st, fl) or ch(ev, st, fl), sizes=(0, 1, 2), cont_init={c: (0, 1) if m == 'notifyRemoved' and c != 'this.m_objectsByType' else (0,) for c in ('this.m_objectsByType', 'this.m_objectsByPredicate', 'this.m_objectVariablesByObjectType')},
                         assume={}, trip=2)
        inst = '%s(%s/%d)' % (m, t, n)

        def pub(p):
            r = check_notes(p, cont, [(m, ['$%d' % i for i in range(n)])])
            if r is not True:
                return r
            ns = [i for i, t in enumerate(p.trace) if t[0] == 'note']
            late = [t for t in p.trace[ns[0]:] if t[0] != 'note'] if ns else []
            return True if not late else 'index changed after listeners were told: %s' % (late[0],)
        ck.forall_paths(r1, inst, f, ps, pub, 'publication')

    # ---- tokens
    f = EVF['notifyAdded', 'Token', 1]
    T = rec(conts=r'^this\.m_(tokens|tokensToOrder|objects\w*)$', calls=r'^PlanDatabase::(un)?registerGlobalToken$|^PlanDatabase::(insert|remove)ActiveToken$')
    ps, fl = ck.flow(f, T, cont_init={'this.m_listeners': (0,)})
    ck.forall_paths(r3, 'added', f, ps, lambda p: True if [(t[0], t[1], t[2][-1]) for t in p.trace] == [('+', 'this.m_tokens', '$0')] else '%s' % (p.trace,), 'token set')
    f = EVF['notifyRemoved', 'Token', 1]
    ps, fl = ck.flow(f, T, cont_init={'this.m_listeners': (0,)}, opaque={PD + 'unregisterGlobalToken'})

    def unreg(p, needed=True):
        same = [a for a in p.st.why if re.match(r'!?eq\(\$0,.*m_global\w+ByName\{\$0\.m_name\}\)$', a)]
        mine = bool(same) and not same[0].startswith('!')
        n = len([t for t in p.trace if t[0] == 'c' and t[1].startswith('unregisterGlobal') and t[3] == ('$0',)])
        if n > (1 if mine else 0):
            return 'unregistered although another one may be registered under its name'
        if needed and n == 0 and (mine or not (same or [a for a in p.st.why if a.startswith('!in($0.m_name,')])):
            return 'stays registered by name'
        return True

    def rmt(p):
        if len(find(p, '-', recv='this.m_tokens', args=['$0'])) != 1:
            return 'stays in the token set'
        if not [t for t in p.trace if t[0] == '-' and t[1] == 'this.m_tokensToOrder' and '$0' in str(t[2])]:
            return 'stays among the tokens to order'
        return unreg(p)
    ck.forall_paths(r3, 'removed', f, ps, rmt, 'token set')
    for m, h, kind in (('notifyActivated', 'insertActiveToken', '+'), ('notifyDeactivated', 'removeActiveToken', '-')):
        f = EVF[m, 'Token', 1]
        ps, fl = ck.flow(f, rec(conts=r'm_activeTokensByPredicate'), cont_init={'this.m_listeners': (0,)}, trip=2)

        def act(p):
            isp = decided(p, 'isPredicate(')
            es = [t for t in p.trace if t[0] == kind and t[2] and t[2][-1] == '$0' and t[1] != 'this.m_activeTokensByPredicate']
            if [t for t in p.trace if t[0] != kind and t[1] != 'this.m_activeTokensByPredicate']:
                return 'index changes %s' % (p.trace,)
            pos = sum(1 for x in isp if x)
            return True if (len(es) >= 1) == (pos >= 1) and len(es) <= max(pos, 4) else 'predicates %s: %d entries' % (isp, len(es))
        ck.forall_paths(r3, h, f, ps, act, 'active tokens')
    # both walk the same chain of predicates: the sequence of predicate names must be computed identically
    sig = []
    for m in ('notifyActivated', 'notifyDeactivated'):
        f = EVF[m, 'Token', 1]

        def keys(ev, st, fl):
            if ev.kind == 'call' and ev.m == 'isPredicate':
                return ('key', vs(ev.args[0]))
            if ev.kind == 'call' and ev.m == 'getParent' and 'chema' in ev.name:
                return ('up', vs(ev.args[0]))
            return None
        ps, fl = ck.flow(f, keys, cont_init={'this.m_listeners': (0,)}, trip=2)
        s = set()
        for p in ps:
            if p.outcome == 'ret':
                s.add(tuple(re.sub(r'~\d+|@\d+|L\d+:\d+', '', str(t)) for t in p.trace))
        sig.append(s)
    ck.ob(r3, 'activation and deactivation visit the same predicates', sig[0] == sig[1] and bool(sig[0]), 'predicate chains differ: only one side visits %s' % sorted(sig[0] ^ sig[1])[:2], ck.where(f))
    f = ck.fn(PD + 'notifyOrderingRequired')
    ps, fl = ck.flow(f, rec(conts='m_tokensToOrder'), assume=token_in('ACTIVE', '$1'))
    ck.forall_paths(r3, 'ordering required', f, ps, lambda p: True if [t for t in p.trace if t[0] == '+' and '$0' in t[2] and t[1] != 'this.m_tokensToOrder'] or
                    [t for t in p.trace if t[0] == '+' and t[1] == 'this.m_tokensToOrder' and '$0' in str(t[2])] else 'object not recorded: %s' % (p.trace,), 'tokens to order')
    ck.forall_paths(r3, 'ordering required: token', f, ps, lambda p: True if not find(p, '+', recv='this.m_tokensToOrder') or '$1' in str(p.trace[find(p, '+', recv='this.m_tokensToOrder')[0]]) else 'wrong token', 'tokens to order')
    f = ck.fn(PD + 'notifyOrderingNoLongerRequired')
    ps, fl = ck.flow(f, rec(conts='m_tokensToOrder'))

    def nol(p):
        o = [t for t in p.trace if t[0] == '-' and '$0' in t[2]]
        if len(o) != 1:
            return 'object not withdrawn: %s' % (p.trace,)
        e = [t for t in p.trace if t[0] == '-' and t[1] == 'this.m_tokensToOrder']
        left = p.st.conts.get(o[0][1])
        n = None if left is None or not left[1] else len(left[0])
        if n is None:
            return 'the entry is kept or dropped without looking at the remaining objects'
        return True if bool(e) == (n == 0) else 'entry %s although %d objects remain' % ('dropped' if e else 'kept', n)
    ck.forall_paths(r3, 'ordering no longer required', f, ps, nol, 'tokens to order')

    # ---- objects
    f = EVF['notifyAdded', 'Object', 1]
    O = rec(conts=r'^this\.m_objects\w*$', calls=r'ConstrainedVariable::(insert|remove|close)$')
    ps, fl = ck.flow(f, O, cont_init={'this.m_listeners': (0,), 'this.m_objectVariablesByObjectType': (0,)}, trip=2)

    def oadd(p):
        if len(find(p, '+', recv='this.m_objects', args=['$0'])) != 1 or len([t for t in p.trace if t[0] == '+' and t[1] == 'this.m_objectsByName' and t[2][0].lstrip('(').startswith(('$0.m_name', '$0.getName()'))]) != 1:
            return 'not indexed by name'
        bt = [t for t in p.trace if t[0] == '+' and t[1] == 'this.m_objectsByType']
        par = [x for x in p.st.why if 'hasParent' in x and not x.startswith('!')]
        if not bt or 'm_type' not in bt[0][2][0] and 'getType' not in bt[0][2][0] or any('$0' not in t[2][-1] for t in bt):
            return 'not indexed by its own type: %s' % (bt,)
        return True if (len(bt) >= 2) == bool(par) else 'ancestors=%s but %d types indexed' % (par, len(bt))
    ck.forall_paths(r4, 'added', f, ps, oadd, 'object indices')
    f = EVF['notifyRemoved', 'Object', 1]
    IDX = ('this.m_objectsByPredicate', 'this.m_objectsByType')
    ps, fl = ck.flow(f, O, cont_init=dict({'this.m_listeners': (0,), 'this.m_objectVariablesByObjectType': (0,)}, **{c: (0, 1, 2) for c in IDX}))
    ck.forall_paths(r4, 'removed', f, ps, lambda p: True if len(find(p, '-', recv='this.m_objects', args=['$0'])) == 1 and
                    len([t for t in p.trace if t[0] == '-' and t[1] == 'this.m_objectsByName' and t[2][0].lstrip('(').startswith(('$0.m_name', '$0.getName()'))]) == 1 else '%s' % (p.trace,), 'object indices')
    for c in IDX:
        def left(p):
            els = contents(p, c)
            if els is None:
                return '%s is not visited' % c
            for e in els:
                x = '%s.second' % vs(e)
                d = [b for a, b in p.facts.items() if a in ('eq($0,%s)' % x, 'eq(%s,$0)' % x)]
                if d != [False]:
                    return 'an entry that may be the removed object stays in %s' % c
            return True
        ck.forall_paths(r4, 'removed from ' + c[5:], f, ps, left, 'object indices')

    # ---- object variables
    OV = 'this.m_objectVariablesByObjectType'
    for m, op in (('notifyAdded', 'insert'), ('notifyRemoved', 'remove')):
        f = EVF[m, 'Object', 1]
        ps, fl = ck.flow(f, O, cont_init={'this.m_listeners': (0,), IDX[0]: (0,), IDX[1]: (0,)}, trip=2)

        def ov(p):
            v = [t for t in p.trace if t[0] == 'c' and t[1] in ('insert', 'remove', 'close')]
            if any(t[1] != op or 'm_key' not in t[3][0] or '$0' not in t[3][0] for t in v):
                return 'variable receives %s' % [(t[1], t[3]) for t in v]
            want, cut, levels, up = [], set(), 0, set()
            for w in p.st.why:
                a, b = (w[1:], False) if w.startswith('!') else (w, True)
                if a == '*loop' and want:
                    cut.add(want[-1])      # the trip bound ends the loop before its body
                k = re.match(r'in\((.*),%s\)$' % re.escape(OV), a)
                if k and '$0' in k.group(1):
                    levels += 1
                    if b:
                        want.append('%s{%s}.first' % (OV, k.group(1)))
                k = re.match(r'eq\((.*)\)$', a)
                if k and b and '.first' in a and OV in a:
                    x = next((x for x in split_args(k.group(1)) if x.endswith('.first') and OV in x), None)
                    if x:
                        want.append(x[:-6] + '.second.first')
                k = re.search(r'hasParent\((.*)\)$', a)
                if k and b:
                    up.add(k.group(1))
            closed = lambda e: any('losed' in a2 and a2.startswith(e + '.') for a2 in p.st.why)
            for e in want:
                n = [t for t in v if t[2] == e]
                if len(n) != 1 and not (op == 'insert' and closed(e)) and not (e in cut and not n):
                    return 'a variable over the type of the object or an ancestor receives %s %d times' % (op, len(n))
            if [t for t in v if t[2] not in want]:
                return 'a variable over an unrelated type is updated'
            if '*loop' not in p.st.why and levels and levels < 1 + len(up):
                return 'the variables over an ancestor type are not looked up'
            return True
        ck.forall_paths(r5, m, f, ps, ov, 'object variables')
        if not any(t[0] == 'c' and t[1] == op for p in ps for t in p.trace):
            ck.ob(r5, m + ' reaches variables', False, 'no variable is ever updated', ck.where(f))
    f = ck.fn(PD + 'makeObjectVariableFromType')
    ps, fl = ck.flow(f, rec(calls=r'ConstrainedVariable::(insert|close)$|::getObjectsByType', conts=r'm_objectVariablesByObjectType', news='ObjectVariableListener'), sizes=(0, 1, 2))

    def mk(p):
        cl = decided(p, 'm_closedObjectTypes') + decided(p, 'CLOSED')
        reg_ = [t for t in p.trace if t[0] == '+' and '$1' in str(t[2]) and '$0' in str(t[2])]
        c = find(p, 'c', 'close', '$1')
        if not find(p, 'c', 'getObjectsByType'):
            return 'existing objects are not looked up'
        if reg_ and c:
            return 'variable both registered and closed'
        if c and was(p, '$2') is not False:
            return 'variable closed although it is to be left open'
        if not reg_ and not c and not was(p, '$2'):
            return 'variable neither registered for later objects nor closed'
        return True
    ck.forall_paths(r5, 'created', f, ps, mk, 'object variables')
    f = ck.fn(PD + 'makeObjectVariable')
    ps, fl = ck.flow(f, rec(calls=r'ConstrainedVariable::(insert|close)$'), sizes=(0, 1, 2))
    ck.forall_paths(r5, 'initial objects', f, ps, lambda p: True if each(p, '$1') is not None and [t[3][0].split('.')[0] for t in p.trace if t[0] == 'c' and t[1] == 'insert' and t[2] == '$2'] == each(p, '$1') else
                    'inserts %s' % [t[3] for t in p.trace], 'object variables')
    f = ck.fn(PD + 'handleObjectVariableDeletion')
    ps, fl = ck.flow(f, rec(conts='m_objectVariablesByObjectType'), sizes=(0, 1, 2))

    def vdel(p):
        els = contents(p, OV)
        if els is None:
            return 'not visited'
        for e in els:
            x = vs(e) + '.second.first'
            if [b for a, b in p.facts.items() if a in ('eq($0,%s)' % x, 'eq(%s,$0)' % x)] != [False]:
                return 'a deleted variable may stay registered'
        return True if len(find(p, 'd')) == len(find(p, '-')) else 'listener not freed'
    ck.forall_paths(r5, 'deleted', f, ps, vdel, 'object variables')
    for np_ in (0, 1):
        f = fn_of(ck, PD + 'close', np=np_)
        ps, fl = ck.flow(f, rec(calls=r'ConstrainedVariable::close$', conts=r'm_objectVariablesByObjectType|m_closedObjectTypes', writes='m_state'), cont_init={OV: (0, 1)}, trip=2)

        def clo(p):
            dels = [t for t in p.trace if t[0] == '-' and t[1] == OV]
            for t in dels:
                e = t[2][0]
                c = [t for t in p.trace if t[0] == 'c' and t[1] == 'close' and e in t[2] and t[2].endswith('.first')]
                if not c and not any('losed' in w and not w.startswith('!') for w in p.st.why if e in w and OV in w):
                    return 'an open variable is dropped without being closed'
            if len(find(p, 'd')) != len(dels):
                return 'listeners not freed'
            if np_ == 0:
                return True if fin(p, 'this.m_state') != 'this.m_state' and 'CLOSED' in fin(p, 'this.m_state') and contents(p, OV) == () else 'state %s, variables left %s' % (fin(p, 'this.m_state'), contents(p, OV))
            return True if len(find(p, '+', recv='this.m_closedObjectTypes', args=['$0'])) == 1 else 'type not marked closed'
        ck.forall_paths(r5, 'close/%d' % np_, f, ps, clo, 'closing')

    # ---- globals
    for what, cset, cmap in (('Variable', 'this.m_globalVariables', 'this.m_globalVarsByName'), ('Token', 'this.m_globalTokens', 'this.m_globalTokensByName')):
        for m, k in (('register', '+'), ('unregister', '-')):
            f = ck.fn('%s%sGlobal%s' % (PD, m, what))
            ps, fl = ck.flow(f, rec(conts=r'm_global'))
            nm = ('$0.m_name', '$0.getName()')
            ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if sorted((t[0], t[1]) for t in p.trace) == sorted([(k, cset), (k, cmap)]) and 
                            [t for t in p.trace if t[1] == cset][0][2][-1] == '$0' and [t for t in p.trace if t[1] == cmap][0][2][0].lstrip('(').rstrip(')') in [x + y for x in nm for y in ('', ',$0')] else '%s' % (p.trace,), 'index')
        f = ck.fn('%sgetGlobal%s' % (PD, what))
        ps, fl = ck.flow(f, rec())
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: True if cmap + '{$0}' in vs(p.val) or cmap in vs(p.val) else 'returns %s' % vs(p.val), 'lookup')

    for q, need in (('deleteVariable', True), ('deleteToken', False)):
        f = fn_of(ck, 'DbClient::' + q)
        ps, fl = ck.flow(f, rec(calls='unregisterGlobal'), cont_init={'this.m_listeners': (0,), 'this.m_keysOfTokensCreated': (0,)}, opaque={PD + 'unregisterGlobalToken', PD + 'unregisterGlobalVariable'})
        ck.forall_paths(r6, f['sq'], f, ps, lambda p: unreg(p, need), 'registration')

    # ---- archive
    f = ck.fn(PD + 'archive')
    ps, fl = ck.flow(f, rec(calls=r'^Token::(terminate|canBeTerminated)$|::constraintConsistent$'), cont_init={'this.m_tokens': (0, 1, 2)}, opaque=lambda q: q in ('Token::canBeTerminated', 'Token::isMerged', 'Token::terminate'), trip=3)

    def arch(p):
        els = each(p, 'this.m_tokens')
        if els is None:
            return 'tokens are not visited'
        for e in els:
            t, d = find(p, 'c', 'terminate', e), find(p, 'd', recv=e)
            mg, can = was(p, e + '.isMerged()'), was(p, e + '.canBeTerminated($0)')
            late = [not w.startswith('!') for w in p.st.why if re.match(r'!?lt\(\$0,%s\.end\(\)\..*getUpperBound' % re.escape(e), w)]
            out = mg is False and can is True and late == [False]
            if len(t) != len(d) or (t and t[0] > d[0]) or len(t) != (1 if out else 0):
                return 'merged=%s can be terminated=%s ends after the tick=%s, but terminated %d times and deleted %d times' % (mg, can, late, len(t), len(d))
        return True
    ck.forall_paths(r7, 'archive', f, ps, arch, 'archive')
    if not any(find(p, 'd') for p in ps):
        ck.ob(r7, 'archive removes something', False, 'no token is ever removed', ck.where(f))

    # ---- purge
    f = ck.fn(PD + 'purge')
    for purg in (False, True):
        ps, fl = ck.flow(f, lambda ev, st, fl: ('cl', vs(ev.args[0]), tuple(vs(x) for x in st.conts.get(vs(ev.args[0]), ((),))[0])) if ev.kind == 'call' and ev.m == 'cleanup' else None,
                         assume={'Entity::isPurging()': purg}, sizes=(0, 1, 2))

        def pg(p):
            cl = [t for t in p.trace if t[0] == 'cl']
            if not [t for t in cl if t[1] == 'this.m_globalVariables']:
                return 'global variables not deleted'
            if purg:
                return True if {'this.m_tokens', 'this.m_objects'} <= {t[1] for t in cl} else 'deletes %s' % [t[1] for t in cl]
            got = [e for t in cl for e in t[2]]
            for c, par in (('this.m_tokens', 'm_master'), ('this.m_objects', 'm_parent')):
                for i, e in enumerate(each(p, c) or []):
                    root = [b for a, b in p.facts.items() if a == 'eq(%s.%s,null)' % (e, par)]
                    if (e in got) != (root == [True]):
                        return '%s root=%s deleted=%s' % (e, root, e in got)
                if each(p, c) is None:
                    return c + ' not visited'
            return True
        ck.forall_paths(r8, 'purge%s' % (' at exit' if purg else ''), f, ps, pg, 'purge')
