"""The search: decision stack, limits, backtracking, reset."""
from vf.lib import *
MODULES = ['Solvers', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'what a particular decision does when it is executed or undone is outside this property']
STK = 'this.m_decisionStack'
ACT = 'this.m_activeDecision'
LST = 'this.m_listeners'
EV = r'^DecisionPoint::(execute|undo|initialize)$|^SearchListener::notify|^DbClient::propagate$|^ConstraintEngine::(propagate|setAutoPropagation)$|^FlawManager::next'
LIM = {'this.m_stepCount': K(5), 'this.m_stepCountFloor': K(2), 'this.m_maxSteps': K(100), 'this.m_maxDepth': K(100), 'this.m_depthFloor': K(0)}


def run(ck):
    r1 = ck.rule('step', 'a step does exactly one thing: report that no flaw is left, time out, push the decision it executed, or backtrack', 8)
    r2 = ck.rule('limits', 'the search times out exactly when the steps taken since it was started reach the step limit or the decisions stacked since then exceed the depth limit', 8)
    r3 = ck.rule('backtrack', 'backtracking undoes executed decisions, latest first, and drops each one that has no alternative left, until one has or none is left', 6)
    r4 = ck.rule('reset', 'resetting undoes and removes the given number of latest decisions, latest first, and clears the outcome flags', 6)
    r5 = ck.rule('solve', 'a search runs steps until it times out, is exhausted or has no flaw left, and answers whether no flaw is left; a step leaves automatic propagation as it was', 4)
    r6 = ck.rule('decision', 'a decision is executed only when initialized, not executed and not out of choices, undone only when executed, and cut exactly when its choice limit is used up', 8)
    r7 = ck.rule('selection', 'the decision taken on is one offered by a flaw manager; candidates passed over are released', 3)
    kw = dict(volatile=r'getViolation\(|\.hasNext\(\)|\.cut\(\)|isExecuted\(\)|m_isExecuted', sizes=(0, 1),
              value_of=lambda ev, st, fl: [(S(ev.recv + '.cut()'), st)] if ev.name == 'DecisionPoint::cut' else None)
    root = ck.fn('Solver::step')

    def run_step(assume, cont=None):
        a = dict(LIM)
        a.update(assume)
        return ck.flow(root, rec(calls=EV, writes=r'^this\.m_(noFlawsFound|timedOut|exhausted|stepCount)$', conts=r'^this\.m_decisionStack$', news='.'),
                       assume=a, cont_init=dict({STK: (1,), LST: (1,)}, **(cont or {})), **kw)[0]
    D0 = {ACT: S('D'), 'eq(D,null)': False, 'this.m_exhausted': K(False)}
    NO = {ACT: K(None), 'this.m_exhausted': K(False)}

    # ---- step
    ps = run_step(D0)
    ck.forall_paths(r1, 'open decision', root, ps, lambda p: outcome(p, 'D', 1), 'step')
    for need, what in (('push', 'succeeds'), ('back', 'backtracks'), ('inconsistent', 'finds the plan inconsistent')):
        if not any(kind(p) == need for p in ps if p.outcome == 'ret'):
            ck.ob(r1, 'a step that ' + what, False, 'no path through a step %s any more' % what, ck.where(root))
        else:
            ck.ob(r1, 'a step that ' + what, True)
    ps = run_step(NO, {STK: (0,), 'this.m_flawManagers': (1,)})
    ck.forall_paths(r1, 'new decision', root, ps, lambda p: outcome(p, None, 0), 'step')
    for n in ('done', 'push', 'back'):
        ck.ob(r1, 'reachable: ' + n, any(kind(p) == n for p in ps if p.outcome == 'ret'), 'no step starting without a decision ends like this', ck.where(root))
    ps = run_step(dict(D0, **{'this.m_exhausted': K(True)}))
    ck.ob(r1, 'exhausted', not [p for p in ps if p.outcome == 'ret' or find(p, 'c', 'execute')], 'an exhausted search takes another step', ck.where(root))

    # ---- limits
    for (s, fl_, m, d, df, md) in ((5, 2, 3, 1, 0, 9), (5, 2, 4, 1, 0, 9), (5, 5, 0, 1, 0, 9), (5, 5, 1, 1, 0, 9), (0, 0, 9, 2, 0, 1), (0, 0, 9, 2, 0, 2), (0, 0, 9, 1, 2, 0), (0, 0, 9, 2, 1, 1), (0, 0, 9, 2, 1, 0), (0, 0, 9, 0, 0, 0), (7, 0, 7, 0, 3, 0)):
        ps = run_step(dict(D0, **{'this.m_stepCount': K(s), 'this.m_stepCountFloor': K(fl_), 'this.m_maxSteps': K(m), 'this.m_maxDepth': K(md), 'this.m_depthFloor': K(df)}), {STK: (d,)})
        out = s - fl_ >= m or d - df > md

        def lim(p):
            k = kind(p)
            if k == 'inconsistent':
                return True
            if (k == 'timeout') != out:
                return 'the search %s' % ('goes on (%s)' % k if out else 'times out')
            if k == 'timeout' and (fin(p, 'this.m_timedOut') != 'true' or [t for t in p.trace if t[0] == 'c' and t[1] in ('execute', 'undo')] or [t for t in p.trace if t[0] in '+-d']):
                return 'timing out is not recorded, or changes the search'
            return True
        ck.forall_paths(r2, '%d steps after %d (limit %d), depth %d after %d (limit %d)' % (s, fl_, m, d, df, md), root, ps, lim, 'limits')
    for q in ('setMaxSteps', 'setMaxDepth'):
        f = ck.fn('Solver::' + q)
        ps, fl = ck.flow(f, rec())
        ck.forall_paths(r2, q, f, ps, lambda p: True if fin(p, 'this.m_m' + q[4:]) == '$0' else 'limit not stored', 'limits')

    # ---- backtracking (from a step and from a backjump)
    for n in (0, 1, 2):
        ps = run_step(D0, {STK: (n,)})
        ck.forall_paths(r3, 'step at depth %d' % n, root, [p for p in ps if p.outcome == 'ret' and kind(p) == 'back'], lambda p: backtracked(p, ['D'] + [STK + '[%d]' % i for i in reversed(range(n))], True), 'backtracking')
    bj = ck.fn('Solver::backjump')
    for n, d in ((1, 2), (2, 3), (3, 3)):
        ps, fl = ck.flow(bj, rec(calls=EV, writes=r'^this\.m_(noFlawsFound|timedOut|exhausted|stepCount)', conts=r'^this\.m_decisionStack$'), args=(K(n),), assume={ACT: K(None)}, cont_init={STK: (d,), LST: (1,)}, **kw)

        def bjp(p):
            top = [STK + '[%d]' % i for i in reversed(range(d))]
            r = undone(p, top[:n - 1])
            if r is not True:
                return r
            i = max([k for k, t in enumerate(p.trace) if t[0] == '-' and t[1] == STK and n > 1 and top[n - 2] in t[2]] + [-1])
            q = Sub(p, p.trace[i + 1:])
            r = backtracked(q, top[n - 1:], False)
            if r is not True:
                return r
            if vs(p.val) != fin(p, 'this.m_exhausted'):
                return 'answers %s but exhausted is %s' % (vs(p.val), fin(p, 'this.m_exhausted'))
            return True if fin(p, 'this.m_timedOut') == 'false' and fin(p, 'this.m_noFlawsFound') == 'false' and fin(p, 'this.m_stepCount') == fin(p, 'this.m_stepCountFloor') == '0' else 'outcome flags or step counts are kept'
        ck.forall_paths(r3, 'backjump %d of %d' % (n, d), bj, ps, bjp, 'backjump')
    ps, fl = ck.flow(bj, rec(calls=EV, conts=r'^this\.m_decisionStack$'), args=(K(2),), assume={ACT: S('D'), 'eq(D,null)': False}, cont_init={STK: (2,), LST: (1,)}, **kw)

    def bja(p):
        if len(find(p, 'd', recv='D')) != 1:
            return 'the open decision is not dropped'
        r = undone(p, ['D'], stacked=False)
        if r is not True:
            return r
        i = max(find(p, 'd', recv='D'))
        return backtracked(Sub(p, p.trace[i + 1:]), [STK + '[1]', STK + '[0]'], False)
    ck.forall_paths(r3, 'backjump with an open decision', bj, ps, bja, 'backjump')

    # ---- reset
    f = fn_of(ck, 'Solver::reset', np=1)
    for n, d in ((0, 2), (1, 1), (1, 3), (2, 3), (3, 3)):
        ps, fl = ck.flow(f, rec(calls=EV, conts=r'^this\.m_decisionStack$'), args=(K(n),), assume={ACT: K(None)}, cont_init={STK: (d,), LST: (1,)}, **kw)
        ck.forall_paths(r4, 'reset %d of %d' % (n, d), f, ps, lambda p: resetp(p, [STK + '[%d]' % i for i in reversed(range(d))][:n], d - n), 'reset')
    ps, fl = ck.flow(f, rec(calls=EV, conts=r'^this\.m_decisionStack$'), args=(K(1),), assume={ACT: S('D'), 'eq(D,null)': False}, cont_init={STK: (2,), LST: (1,)}, **kw)

    def act(p):
        if len(find(p, 'd', recv='D')) != 1 or fin(p, ACT) != 'null':
            return 'the open decision is not dropped'
        r = undone(p, ['D'], stacked=False)
        if r is not True:
            return r
        rest = [t for t in p.trace if 'D' not in t[1:3]]
        return resetp(Sub(p, rest), [STK + '[1]'], 1)
    ck.forall_paths(r4, 'reset with an open decision', f, ps, act, 'reset')
    f = fn_of(ck, 'Solver::reset', np=0)
    ps, fl = ck.flow(f, rec(calls=EV, conts=r'^this\.m_decisionStack$'), assume={ACT: K(None)}, cont_init={STK: (2,), LST: (1,)}, **kw)
    ck.forall_paths(r4, 'reset everything', f, ps, lambda p: resetp(p, [STK + '[1]', STK + '[0]'], 0), 'reset')
    f = ck.fn('Solver::clear')
    ps, fl = ck.flow(f, rec(calls=EV, conts=r'^this\.m_decisionStack$'), assume={ACT: S('D'), 'eq(D,null)': False}, cont_init={STK: (2,), LST: (1,)}, **kw)

    def clr(p):
        if sorted(t[1] for t in p.trace if t[0] == 'd') != sorted(['D', STK + '[0]', STK + '[1]']):
            return 'releases %s' % [t[1] for t in p.trace if t[0] == 'd']
        if [t for t in p.trace if t[0] == 'c' and t[1] in ('undo', 'execute')]:
            return 'changes the plan'
        return True if contents(p, STK) in ((), []) and fin(p, ACT) == 'null' and flags(p) else 'stack, open decision or outcome kept'
    ck.forall_paths(r4, 'clear', f, ps, clr, 'clear')

    # ---- solve
    f = ck.fn('Solver::solve')
    ps, fl = ck.flow(f, rec(calls=r'^Solver::step$', writes=r'^this\.m_(stepCountFloor|depthFloor|maxSteps|maxDepth|noFlawsFound|timedOut)$'), opaque={'Solver::step', 'Solver::doStep'}, trip=2, sizes=(0, 1))

    def slv(p):
        if '*loop' in p.st.why:
            return True       # a longer run: judged up to here on the shorter ones
        w = {}
        for t in p.trace:
            if t[0] == 'c':
                break
            w[t[1]] = t[2]
        if w.get('this.m_maxSteps') != '$0' or w.get('this.m_maxDepth') != '$1':
            return 'limits are %s' % w
        if w.get('this.m_stepCountFloor') != 'this.m_stepCount' or 'm_decisionStack' not in w.get('this.m_depthFloor', ''):
            return 'limits do not count from the present position: %s' % w
        if w.get('this.m_noFlawsFound') != 'false' or w.get('this.m_timedOut') != 'false':
            return 'old outcome kept'
        v = vs(p.val)
        nf = p.facts.get(fin(p, 'this.m_noFlawsFound'), None if fin(p, 'this.m_noFlawsFound') != 'false' else False)
        if v != fin(p, 'this.m_noFlawsFound') and (v not in ('true', 'false') or nf is not (v == 'true')):
            return 'answers %s' % v
        fl3 = [p.facts.get(fin(p, 'this.m_' + x)) for x in ('timedOut', 'exhausted', 'noFlawsFound')]
        if not find(p, 'c') and was(p, 'this.m_exhausted') is not True:
            return 'takes no step'
        return True if True in fl3 else 'stops although nothing has been decided'
    ck.forall_paths(r5, 'solve', f, ps, slv, 'search')
    for x in ('timedOut', 'exhausted', 'noFlawsFound'):
        # once a step sets one of the flags no further step is taken
        ps, fl = ck.flow(f, rec(calls=r'^Solver::step$'), opaque={'Solver::step', 'Solver::doStep'}, trip=2, sizes=(0, 1), assume={'this.m_exhausted': K(False)},
                         value_of=lambda ev, st, fl_: setflag(ev, st, x))
        ck.forall_paths(r5, 'stops when ' + x, f, ps, lambda p: True if len(find(p, 'c', 'step')) == 1 else 'takes %d steps' % len(find(p, 'c', 'step')), 'search')
    for b in (True, False):
        ps, fl = ck.flow(root, rec(calls=r'ConstraintEngine::setAutoPropagation$|^DecisionPoint::execute$', writes=r'm_autoPropagate$|m_autoPropagation$'), opaque={'Solver::doStep'}, sizes=(0, 1), value_of=lambda ev, st, fl_: [(K(b), st)] if ev.name == 'ConstraintEngine::getAutoPropagation' else None)

        def auto(p):
            s = [t[3] for t in p.trace if t[0] == 'c' and t[1] == 'setAutoPropagation']
            return True if (not s and not b) or (s and s[0] == ('false',) and s[-1] == (str(b).lower(),)) else 'automatic propagation is set to %s during the step, it was %s' % (s, b)
        ck.forall_paths(r5, 'automatic propagation %s' % b, root, ps, auto, 'step')

    # ---- decision points
    f = ck.fn('DecisionPoint::execute')
    ps, fl = ck.flow(f, rec(calls=r'^DecisionPoint::handle(Execute|Undo|Initialize)$'))

    def exe(p):
        if [t[1] for t in p.trace if t[0] == 'c'] != ['handleExecute']:
            return 'does %s' % [t[1] for t in p.trace]
        if was(p, 'this.m_initialized') is not True or was(p, 'this.m_isExecuted') is not False or was(p, 'this.hasNext()') is not True:
            return 'executed without being initialized, twice, or past its choices'
        return True if fin(p, 'this.m_isExecuted') == 'true' and fin(p, 'this.m_counter') == 'this.m_counter+1' else 'not marked executed, or not counted'
    ck.forall_paths(r6, 'execute', f, ps, exe, 'execute')
    f = ck.fn('DecisionPoint::undo')
    ps, fl = ck.flow(f, rec(calls=r'^DecisionPoint::handle(Execute|Undo|Initialize)$'))
    ck.forall_paths(r6, 'undo', f, ps, lambda p: True if [t[1] for t in p.trace if t[0] == 'c'] == ['handleUndo'] and was(p, 'this.m_isExecuted') is True and fin(p, 'this.m_isExecuted') == 'false' else 'undo without execution, or mark kept', 'undo')
    f = ck.fn('DecisionPoint::initialize')
    ps, fl = ck.flow(f, rec(calls=r'^DecisionPoint::handle(Execute|Undo|Initialize)$'))
    ck.forall_paths(r6, 'initialize', f, ps, lambda p: True if [t[1] for t in p.trace if t[0] == 'c'] == ([] if was(p, 'this.m_initialized') else ['handleInitialize']) and p.facts.get(fin(p, 'this.m_initialized'), fin(p, 'this.m_initialized') == 'true') else 'choices are made up twice or never', 'initialize')
    f = ck.fn('DecisionPoint::cut')
    for mx, c in ((0, 0), (0, 5), (2, 0), (2, 1), (2, 2), (2, 3), (1, 1), (1, 0)):
        ps, fl = ck.flow(f, rec(), assume={'this.m_maxChoices': K(mx), 'this.m_counter': K(c)})
        ck.ob(r6, 'cut %d of %d' % (c, mx), {vs(p.val) for p in ps if p.outcome == 'ret'} == {str(mx > 0 and c >= mx).lower()}, 'answers %s after %d choices with a limit of %d' % ([vs(p.val) for p in ps], c, mx), ck.where(f))
    f = ck.fn('DecisionPoint::canUndo')
    ps, fl = ck.flow(f, rec())
    for p in ps:
        if p.outcome == 'ret' and vs(p.val) == 'true':
            ck.ob(r6, 'canUndo', p.facts.get('this.m_isExecuted') is True and any(b is False for a, b in p.facts.items() if 'getEntity' in a), 'a decision can be undone although it was not executed or its flaw is gone', ck.where(f), p.why())

    # ---- selection
    ps = run_step(NO, {STK: (0,), 'this.m_flawManagers': (2,)})

    def sel(p):
        got = []
        for t in p.trace:
            if t[0] == 'c' and t[4].startswith('FlawManager::next') and t[2].startswith('this.m_flawManagers'):
                got.append(t)
        ini = find(p, 'c', 'initialize')
        ex = execd(p)
        if kind(p) in ('inconsistent',):
            return True
        cands = [x for x in offered(p)]
        if kind(p) == 'done':
            return True if not cands else 'flaws are offered (%s) but the search is complete' % cands
        if len(ini) != 1 or p.trace[ini[0]][2] not in cands:
            return 'initializes %s; offered: %s' % ([p.trace[i][2] for i in ini], cands)
        d = p.trace[ini[0]][2]
        if ex and (len(ex) != 1 or ex[0][1] != d or ex[0][0] < ini[0]):
            return 'executes %s' % ex
        if d != cands[-1]:
            return 'takes %s, a later manager offered the better %s' % (d, cands[-1])
        for c in cands:
            if c != d and len(find(p, 'd', recv=c)) != 1:
                return 'candidate %s passed over is released %d times' % (c, len(find(p, 'd', recv=c)))
        zero = [t for t in got if t[1] == 'nextZeroCommitmentDecision']
        if not zero or (len(zero) < 2 and 'nextZeroCommitmentDecision' not in d):
            return 'zero-commitment decisions are not asked for first'
        return True if ['notifyCreated'] == nm(p)[:1] else 'creation is not announced'
    ck.forall_paths(r7, 'two flaw managers', root, ps, sel, 'selection')
    ck.ob(r7, 'reachable: second manager replaces', any(len(offered(p)) == 2 for p in ps if p.outcome == 'ret'), 'a better decision of a later manager is never considered', ck.where(root))
    f = ck.fn('Solver::noMoreFlaws')
    ps, fl = ck.flow(f, rec(calls='noMoreFlaws'), cont_init={'this.m_flawManagers': (2,)})
    ck.forall_paths(r7, 'noMoreFlaws', f, ps, lambda p: True if (vs(p.val) == 'true') == (False not in [b for a, b in p.facts.items() if 'noMoreFlaws()' in a] and len([a for a in p.facts if 'noMoreFlaws()' in a]) == 2) else 'answers %s' % vs(p.val), 'noMoreFlaws')


class Sub:
    """a path seen from a later point of its trace"""
    def __init__(self, p, tr):
        self.p, self.trace = p, tuple(tr)

    def __getattr__(self, n):
        return getattr(self.p, n)


def setflag(ev, st, x):
    if ev.name not in ('Solver::step', 'Solver::doStep'):
        return None
    st = st.cp()
    for y in ('timedOut', 'exhausted', 'noFlawsFound'):
        st.store['this.m_' + y] = K(x == y)
    st.conts[STK] = ((), True) if False else st.conts.get(STK, ((), True))
    return [(S('void'), st)]


def flags(p):
    return all(fin(p, 'this.m_' + x) == 'false' for x in ('noFlawsFound', 'exhausted', 'timedOut')) and fin(p, 'this.m_stepCount') == fin(p, 'this.m_stepCountFloor') == '0'


def offered(p):
    out = []
    for a, b in p.facts.items():
        m = re.match(r'^eq\((this\.m_flawManagers\[\d\]\.next.*),null\)$', a)
        if m and b is False:
            out.append(m.group(1))
    out.sort(key=lambda x: ('nextZero' in x, x))
    return out


def last(p, atom):
    r = None
    for w in p.st.why:
        if w == atom:
            r = True
        elif w == '!' + atom:
            r = False
    return r


def notes(p, i=0):
    e = '%s[%d]' % (LST, i)
    return [(t[1], t[3]) for t in p.trace if t[0] == 'c' and t[2] == e]


def nm(p):
    return [n for n, a in notes(p)]


def execd(p):
    return [(i, t[2]) for i, t in enumerate(p.trace) if t[0] == 'c' and t[4] == 'DecisionPoint::execute']


def kind(p):
    n = nm(p)
    for a, k in (('notifyTimedOut', 'timeout'), ('notifyCompleted', 'done'), ('notifyStepSucceeded', 'push'), ('notifyRetractSucceeded', 'back'), ('notifyRetractNotDone', 'back')):
        if a in n:
            return k
    return 'inconsistent' if n == ['notifyExhausted'] else '?'


def outcome(p, d, depth):
    ex = execd(p)
    pu = [(i, t[2]) for i, t in enumerate(p.trace) if t[0] == '+' and t[1] == STK]
    po = [t for t in p.trace if t[0] == '-' and t[1] == STK]
    un = [t for t in p.trace if t[0] == 'c' and t[1] == 'undo']
    dl = [t for t in p.trace if t[0] == 'd' and t[1] not in offered(p)]
    k = kind(p)
    if k == '?':
        return 'the outcome of the step is not announced: %s' % nm(p)
    pr = [i for i, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'propagate']
    if not pr or (ex and pr[0] > ex[0][0]):
        return 'does not propagate first'
    end = {x: fin(p, 'this.m_' + x) for x in ('noFlawsFound', 'timedOut', 'exhausted')}
    if len(ex) > 1 or len(pu) > 1:
        return 'executes %d decisions, pushes %d' % (len(ex), len(pu))
    if k == 'push':
        if not ex or not pu or ex[0][1] not in pu[0][1] or ex[0][0] > pu[0][0]:
            return 'pushes %s after executing %s' % ([x[1] for x in pu], [e[1] for e in ex])
        s = [a for n, a in notes(p) if n == 'notifyStepSucceeded']
        if len(s) != 1 or s[0][:1] != (ex[0][1],) or nm(p)[-1] != 'notifyStepSucceeded':
            return 'success is announced as %s' % notes(p)
        if fin(p, ACT) != 'null':
            return 'the pushed decision stays open as well'
        if po or un or [t for t in dl if t[1] == ex[0][1]]:
            return 'the step succeeds, yet something is undone or released'
        if not [i for i in pr if ex[0][0] < i < pu[0][0]]:
            return 'the decision is kept without propagating it'
        c = contents(p, STK)
        if c is None or vs(c[-1]) != ex[0][1] or len(c) != depth + 1:
            return 'the stack ends up as %s' % c
        if end['noFlawsFound'] != 'false' or end['exhausted'] == 'true' or end['timedOut'] == 'true':
            return 'flags %s' % end
        v = conflict(p, 2)
        if v is not False:
            return 'the decision is kept although propagating it raises the conflict level' if v else 'the decision is kept without looking at the conflict level'
    elif pu:
        return 'pushes although the step did not succeed'
    elif k == 'back':
        if ex:
            if conflict(p, 2) is not True:
                return 'backs out of a decision that did not raise the conflict level'
            if 'notifyStepFailed' not in nm(p):
                return 'failure is not announced'
        elif (d or '').startswith('D') and alt_before(p, d):
            return 'backs out of a decision that still has a choice'
    elif k in ('done', 'timeout', 'inconsistent'):
        if ex or po or un:
            return 'search state changes although the step only reports %s' % k
        if k == 'done' and end['noFlawsFound'] != 'true' or k == 'timeout' and end['timedOut'] != 'true' or k == 'inconsistent' and end['exhausted'] != 'true':
            return '%s is not recorded: %s' % (k, end)
        if k == 'inconsistent' and conflict(p) is not True:
            return 'reports exhaustion although propagation did not raise the conflict level'
    return True


def conflict(p, looks=1):
    """was the conflict level found above its base at the last look?"""
    r, n = None, 0
    for w in p.st.why:
        a, v = (w[1:], False) if w.startswith('!') else (w, True)
        if 'getViolation()' in a and a.startswith('lt('):
            x, y = split_args(a[3:-1])
            if x.startswith('old(') and not y.startswith('old('):
                r, n = v, n + 1
    return r if n >= looks else None


def alt_before(p, d):
    c = [w for w in p.st.why if d + '.hasNext()' in w]
    return bool(c) and not c[0].startswith('!') and was(p, d + '.cut()') is False


def has_alt(p, x):
    c, n = last(p, x + '.cut()'), last(p, x + '.hasNext()')
    return c is False and n is True


def backtracked(p, cands, announce):
    """cands: the decisions in the order they have to be considered"""
    i = 0
    for n, x in enumerate(cands):
        un = [k for k, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'undo' and t[2] == x]
        e = last(p, x + '.m_isExecuted')
        if e is None:
            return '%s is not looked at' % x
        if len(un) != (1 if e else 0):
            return '%s (%sexecuted) is undone %d times' % (x, '' if e else 'not ', len(un))
        if un and un[0] < i:
            return '%s is undone out of order' % x
        if un:
            i = un[0]
        pop = [k for k, t in enumerate(p.trace) if t[0] == '-' and t[1] == STK and x in t[2]]
        if x.startswith(STK) and (len(pop) != 1):
            return '%s is not taken off the stack' % x
        mine = [t[1] for t in p.trace if t[0] == 'c' and t[1].startswith('notify') and t[3][:1] == (x,)]
        if ('notifyUndone' in mine) != bool(un):
            return '%s undone: %s, announced: %s' % (x, bool(un), mine)
        dl = find(p, 'd', recv=x)
        if has_alt(p, x):
            if dl or fin(p, ACT) != x or 'notifyRetractSucceeded' not in mine:
                return '%s has a choice left but is not the one resumed' % x
            for y in cands[n + 1:]:
                if [t for t in p.trace if y in t[1:3]]:
                    return '%s is touched although %s has a choice left' % (y, x)
            return True if fin(p, 'this.m_exhausted') == 'false' and 'notifyExhausted' not in nm(p) else 'reported exhausted'
        if len(dl) != 1 or 'notifyRetractNotDone' not in mine or 'notifyDeleted' not in mine:
            return '%s has no choice left, but is released %d times, announced %s' % (x, len(dl), mine)
    if fin(p, 'this.m_exhausted') != 'true' or fin(p, ACT) != 'null':
        return 'no decision is left, but the search is not exhausted'
    return True if not announce or nm(p)[-1:] == ['notifyExhausted'] else 'exhaustion is not announced'


def undone(p, xs, stacked=True):
    i = -1
    for x in xs:
        un = [k for k, t in enumerate(p.trace) if t[0] == 'c' and t[1] == 'undo' and t[2] == x]
        e = [last(p, a) for a in (x + '.canUndo()', x + '.m_isExecuted') if last(p, a) is not None]
        gone = [a for a, b in p.facts.items() if 'getEntity' in a and x in a and b]
        if not e and not gone:
            return '%s is dropped without asking whether it can be undone' % x
        want = bool(e and e[0])
        if len(un) != (1 if want else 0):
            return '%s (can%s be undone) is undone %d times' % (x, '' if want else 'not', len(un))
        if un and un[0] < i:
            return '%s is undone out of order' % x
        i = max([i] + un)
        if stacked and (len([t for t in p.trace if t[0] == '-' and t[1] == STK and x in t[2]]) != 1 or len(find(p, 'd', recv=x)) != 1):
            return '%s stays on the stack or is not released' % x
        if un and 'notifyUndone' not in [t[1] for t in p.trace if t[0] == 'c' and t[3][:1] == (x,)]:
            return 'undoing %s is not announced' % x
    return True


def resetp(p, xs, left):
    r = undone(p, xs)
    if r is not True:
        return r
    if len([t for t in p.trace if t[0] == '-']) != len(xs) or len([t for t in p.trace if t[0] == 'd']) != len(xs):
        return 'removes %s' % [t for t in p.trace if t[0] in '-d']
    for x in xs:
        if 'notifyDeleted' not in [t[1] for t in p.trace if t[0] == 'c' and t[3][:1] == (x,)]:
            return 'removing %s is not announced' % x
    if [t for t in p.trace if t[0] == 'c' and t[1] == 'execute']:
        return 'executes a decision'
    return True if flags(p) else 'outcome flags or step counts are kept'
