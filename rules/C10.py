"""Every plan-changing client operation is announced to every client listener exactly once."""
from vf.lib import *
MODULES = ['PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['listeners do not unregister other listeners while a notification is being delivered']

V, T, O, C = 'ConstrainedVariable', 'Token', 'Object', 'Constraint'
# (parameter types, how the effect shows up, notification, arguments, order)
TABLE = [
    ('createVariable', ['basic_string', 'Domain', 'basic_string', 'bool', 'bool'], ('createVariable',), 'notifyVariableCreated', ['=ret'], 'after'),
    ('createVariable', ['basic_string', 'basic_string', 'bool'], ('createVariable',), 'notifyVariableCreated', ['=ret'], 'after'),
    ('deleteVariable', [V], ('delete', '$0'), 'notifyVariableDeleted', ['$0'], 'before'),
    ('createObject', ['basic_string', 'basic_string'], ('createObject',), 'notifyObjectCreated', ['=ret'], 'after'),
    ('createObject', ['basic_string', 'basic_string', 'vector'], ('createObject',), 'notifyObjectCreated', ['=ret', '$2'], 'after'),
    ('deleteObject', [O], ('delete', '$0'), 'notifyObjectDeleted', ['$0'], 'before'),
    ('close', [], ('close', 'this.m_planDb'), 'notifyClosed', [], 'after'),
    ('close', ['basic_string'], ('close', 'this.m_planDb', '$0'), 'notifyClosed', ['$0'], 'after'),
    ('close', [V], ('close', '$0'), 'notifyVariableClosed', ['$0'], 'after'),
    ('createToken', None, ('createToken|allocateToken|createInstance',), 'notifyTokenCreated', ['=ret'], 'after'),
    ('deleteToken', [T, 'basic_string'], ('delete', '$0'), 'notifyTokenDeleted', ['$0', '$1'], 'before'),
    ('constrain', [O, T, T], ('constrain', '$0', '$1', '$2'), 'notifyConstrained', ['$0', '$1', '$2'], 'after'),
    ('free', [O, T, T], ('free', '$0', '$1', '$2'), 'notifyFreed', ['$0', '$1', '$2'], 'after'),
    ('activate', [T], ('activate', '$0'), 'notifyActivated', ['$0'], 'after'),
    ('merge', [T, T], ('doMerge', '$0', '$1'), 'notifyMerged', ['$0', '$1'], 'after'),
    ('reject', [T], ('reject', '$0'), 'notifyRejected', ['$0'], 'after'),
    ('cancel', [T], ('cancel', '$0'), 'notifyCancelled', ['$0'], 'before'),
    ('createConstraint', None, ('createConstraint',), 'notifyConstraintCreated', ['=ret'], 'after'),
    ('deleteConstraint', [C], ('deleteConstraint', None, '$0'), 'notifyConstraintDeleted', ['$0'], 'before'),
    ('restrict', [V, 'Domain'], ('restrictBaseDomain', '$0', '$1'), 'notifyVariableRestricted', ['$0'], 'after'),
    ('specify', [V, None], ('specify', '$0', '$1'), 'notifyVariableSpecified', ['$0'], 'after'),
    ('reset', [V], ('reset', '$0'), 'notifyVariableReset', ['$0'], 'after'),
]


def find(ck, name, pt):
    fs = ck.P.byq.get('DbClient::' + name, [])
    if pt is not None:
        fs = [f for f in fs if len(f['p']) == len(pt) and all(t is None or t in p['t'] for t, p in zip(pt, f['p']))]
        fs = [f for f in fs if not (name == 'close' and pt == [] and f['p'])]
    if len(fs) != 1:
        raise Broken('DbClient::%s%s: %d candidates' % (name, pt, len(fs)))
    return fs[0]


def run(ck):
    r1 = ck.rule('announce', 'on every normal path of a mutating client operation every registered listener gets exactly the operation\'s notification, '
                 'with the operation\'s own entities, and nothing else', 22)
    r2 = ck.rule('effect', 'the operation is carried out exactly once, on the entity given, and on the documented side of the announcement', 22)
    r3 = ck.rule('registration', 'registering inserts into, and unregistering removes from, the set that announcements iterate', 4)
    r4 = ck.rule('complete', 'every non-const public client method that reaches a plan mutation is one of the announced operations', 1)
    cont = container_of_registration(ck, r3, ck.fn('DbClient::notifyAdded'), 'client listener')
    if cont is None:
        return
    removal_of_registration(ck, r3, ck.fn('DbClient::notifyRemoved'), cont, 'client listener')
    for f, m in (('DbClientListener::DbClientListener', 'notifyAdded'), ('DbClientListener::~DbClientListener', 'notifyRemoved')):
        fn = [x for x in ck.P.byq.get(f, []) if len(x['p']) <= 1]
        if len(fn) != 1:
            raise Broken(f)
        ps, fl = ck.flow(fn[0], lambda ev, st, fl: ('reg', ev.recv, ev.args) if ev.kind == 'call' and ev.name == 'DbClient::' + m else None)
        ck.forall_paths(r3, f, fn[0], ps, lambda p: True if p.count('reg') == 1 and p.trace[0][2] and vs(p.trace[0][2][0]) in ('this.m_id', 'this', 'new') else 'registers itself %d times' % p.count('reg'),
                        'a listener must %s itself exactly once' % ('register' if 'Added' in m else 'unregister'))

    for name, pt, eff, note, nargs, order_ in TABLE:
        f = find(ck, name, pt)
        en = eff[0].split('|')

        def extra(ev, st, fl):
            if ev.kind == 'delete' and en == ['delete']:
                return ('eff', ev.recv, ())
            if ev.kind == 'release' and en == ['delete']:
                return ('eff', ev.recv, ())
            if ev.kind == 'call' and ev.m in en and not ev.name.startswith(('DbClient::close', 'DbClientListener')):
                return ('eff', ev.recv, ev.args)
        ps, fl = ck.flow(f, rec_listener({'DbClientListener'}, extra), opaque=lambda q: not q.startswith('DbClient::'))
        inst = 'DbClient::%s(%s)' % (name, ','.join(p['n'] or '_' for p in f['p']))

        def exp(p):
            a = [vs(p.val) if x == '=ret' else x for x in nargs]
            return check_notes(p, cont, [(note, a)])
        ck.forall_paths(r1, inst, f, ps, exp, 'announcement')

        def effp(p):
            es = [t for t in p.trace if t[0] == 'eff']
            # several layers may name the same operation: look at the outermost
            if not es:
                return 'operation not carried out'
            e = es[-1]
            if len(es) > 1 and en != ['createToken', 'allocateToken', 'createInstance']:
                return 'operation carried out %d times' % len(es)
            if len(eff) > 1 and eff[1] is not None and e[1] != eff[1]:
                return 'operation applied to %s, expected %s' % (e[1], eff[1])
            for i, a in enumerate(eff[2:]):
                if i >= len(e[2]) or vs(e[2][i]) != a:
                    return 'operation argument %d is %s, expected %s' % (i + 1, vs(e[2][i]) if i < len(e[2]) else 'missing', a)
            iseff = lambda t: t[0] == 'eff'
            isn = lambda t: t[0] == 'note'
            ok = order(p, iseff, isn) if order_ == 'after' else order(p, isn, iseff)
            return True if ok else 'announcement must come %s the operation' % order_
        ck.forall_paths(r2, inst, f, ps, effp, 'effect')
    # completeness: public non-const methods of the client interface
    done = {find(ck, n, pt)['u'] for n, pt, *_ in TABLE}
    muts = ('restrictBaseDomain', 'doMerge', 'activate', 'reject', 'cancel', 'constrain', 'free', 'createObject', 'createConstraint', 'deleteConstraint', 'createVariable', 'specify', 'reset', 'close')
    miss = []
    n = 0
    for u, f in ck.P.fns.items():
        if f.get('cls') != 'EUROPA::DbClient' or f.get('acc') != 'public' or f.get('const') or f.get('ctor') or f.get('dtor'):
            continue
        n += 1
        if u in done:
            continue
        for x in ir_walk(f['body']):
            if x['k'] == 'delete' or (x['k'] == 'call' and x['f'].split('::')[-1] in muts and x['f'].startswith('EUROPA::') and not x['f'].startswith('EUROPA::DbClient')):
                miss.append((f, x.get('f', 'delete')))
                break
    ck.counters['public_mutating_methods_seen'] = n
    ck.ob(r4, 'unannounced mutators', not miss, '; '.join('%s reaches %s without an announcement' % (f['sq'], x) for f, x in miss), ck.where(miss[0][0]) if miss else '')


from vf.ir import walk as ir_walk
