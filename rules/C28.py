"""Flaw management: which flaws are offered, which is taken, by which handler."""
from vf.lib import *
MODULES = ['Solvers', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['operations that end in an exception are outside the rule',
               'variables and tokens are identified by their keys',
               'priorities and weights are compared, not computed']
UVM, OCM, TM = 'UnboundVariableManager', 'OpenConditionManager', 'ThreatManager'
CH = ['SET_TO_SINGLETON', 'RESET', 'CLOSED', 'RELAXED', 'RESTRICT_TO_SINGLETON', 'UPPER_BOUND_DECREASED', 'LOWER_BOUND_INCREASED', 'BOUNDS_RESTRICTED', 'VALUE_REMOVED', 'EMPTIED', 'OPENED']
CAND = 'this.m_flawCandidates'


def en(x):
    return K('enum:DomainListener::%s' % x)


def member(p, v):
    """is v a candidate at the end: True / False / None (as before)"""
    r = None
    for t in p.trace:
        if t[0] in '+-' and t[1] == CAND and v in t[2]:
            r = t[0] == '+'
        elif t[0] == '0' and t[1] == CAND:
            r = False
    return r


def ask(name, val):
    """value_of clause: a call of `name` on receiver r answers val(r, args)"""
    def f(ev, st, fl):
        if ev.m == name:
            return val(ev, st, fl)
        return None
    return f


def run(ck):
    r1 = ck.rule('candidates', 'the candidates follow every announced change: a variable enters when it can be decided, a token when it is open, and leaves otherwise', 30)
    r2 = ck.rule('filters', 'an entity is left out exactly when a filter rule that applies to it says so: a static one for good, a dynamic one while its condition holds', 12)
    r3 = ck.rule('iteration', 'iteration yields every candidate that is not filtered dynamically exactly once, for one manager and for all managers of a solver', 8)
    r4 = ck.rule('handler', 'a flaw is handled by the matching handler of highest weight whose guards hold, and handlers come and go with their guards', 12)
    r5 = ck.rule('selection', 'the decision made is for the flaw of best priority, ties by the preference of the manager', 6)
    r6 = ck.rule('cleanup', 'what is kept about a variable or token is dropped when it is removed', 4)
    r7 = ck.rule('matching', 'a rule matches an entity exactly when every one of its filters does', 12)
    r8 = ck.rule('forwarding', 'the solver passes every change on to the common filters and to every flaw manager', 6)
    enum = {c.split('::')[-1] for c in CH}
    candidates(ck, r1)
    filters(ck, r2)
    overrides(ck, r2)
    conditions(ck, r2)
    iteration(ck, r3)
    handlers(ck, r4)
    selection(ck, r5)
    preference(ck, r5)
    cleanup(ck, r6)
    matching(ck, r7)
    forwarding(ck, r8)


def base_val(state=None, conv=None, static=None, extra=None):
    def val(ev, st, fl):
        x = ev.recv
        if ev.m == 'isStateVariable':
            return [(K(state) if state is not None else S('state(%s)' % vs(ev.args[0])), st)]
        if ev.name == 'FlawManager::staticMatch':
            return [(S('static(%s)' % vs(ev.args[0])), st)]
        if ev.m == 'convertable' and conv is not None:
            return [(K(conv(ev.name, vs(ev.args[0]))), st)]
        if ev.m in ('isSpecified', 'canBeSpecified', 'isActive', 'isInactive') and not ev.args:
            return [(S('%s(%s)' % (ev.m, x)), st)]
        if ev.m == 'getSpecifiedValue':
            return [(S('specified value(%s)' % x), st)]
        if ev.m == 'getVariables' and ev.name.startswith('Token'):
            return [(S('vars(%s)' % x), st)]
        return extra(ev, st, fl) if extra else None
    return val


def var_status(p, v, token):
    """should v be a candidate, as far as the path decided (True/False/None undetermined)"""
    act = [] if not token else ['isActive(%s)' % token]
    need = [(a, True) for a in act] + [('canBeSpecified(%s)' % v, True), ('isSpecified(%s)' % v, False), ('static(%s)' % v, False)]
    got = [was(p, a) for a, w in need]
    if any(g is not None and g != w for g, (a, w) in zip(got, need)):
        return False
    return True if all(g is not None for g in got) else None


def candidates(ck, rid):
    f = method(ck, UVM, 'notifyChanged', 2)
    for state in (False, True):
        for tok in ((True, False) if not state else (True,)):
            conv = lambda n, a: ('ConstrainedVariable' in n) if not a.endswith('m_parent') else (tok and 'Id<Token>' in n)
            for c in CH:
                ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$'), args=(S('V'), en(c)), self_cls=UVM, value_of=base_val(state, conv), sizes=(0, 1),
                                 cont_init={'vars(V.m_parent)': (2,)})
                owned = ['vars(V.m_parent)[0]', 'vars(V.m_parent)[1]']

                def pred(p):
                    if '*loop' in p.st.why:
                        return True
                    act = was(p, "eq(Token::ACTIVE,specified value(V))")
                    if act is None:
                        act = was(p, "eq(specified value(V),Token::ACTIVE)")
                    if c == 'SET_TO_SINGLETON' and state and act is None:
                        return 'the new state of the token is not examined'
                    if c == 'SET_TO_SINGLETON' and state and act:
                        todo = [(o, 'upd') for o in owned]
                    elif c == 'SET_TO_SINGLETON':
                        todo = [('V', False)]
                    elif c == 'RESET' and state:
                        todo = [(o, False) for o in owned]
                    elif c in ('RESET', 'CLOSED', 'RELAXED', 'RESTRICT_TO_SINGLETON'):
                        todo = [('V', 'upd')]
                    else:
                        todo = []
                    for v, want in todo:
                        got = member(p, v)
                        if want == 'upd':
                            want = var_status(p, v, v + '.m_parent' if tok else None)
                            if want is None:
                                return '%s is judged without looking at its status (ends up %s)' % (v, got)
                        if got is not want:
                            return '%s should%s be a candidate, but is%s' % (v, '' if want else ' not', {None: ' left as it was', True: '', False: ' not'}[got])
                    other = [t for t in p.trace if t[0] in '+-' and not any(v in t[2] for v, w in todo)]
                    return 'changes the status of %s' % (other[0][2],) if other else True
                ck.forall_paths(rid, 'variable %s%s%s' % (c, ', state' if state else '', ', of token' if tok else ''), f, ps, pred, 'candidate variables')
    # a token's variables all follow, the variables known at the start too
    f = method(ck, UVM, 'handleInitialize', 0)
    ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$'), self_cls=UVM, sizes=(0, 1),
                     value_of=base_val(None, lambda n, a: 'ConstrainedVariable' in n if not a.endswith('m_parent') else False,
                                       extra=lambda ev, st, fl: [(S('AllVars'), st)] if ev.m == 'getVariables' else None), cont_init={'AllVars': (2,)})

    def pred(p):
        for v in ('AllVars[0]', 'AllVars[1]'):
            want, got = var_status(p, v, None), member(p, v)
            if want is None or got is not want:
                return '%s should%s be a candidate, but is%s' % (v, '' if want else ' not', '' if got else ' not')
        return True
    ck.forall_paths(rid, 'variables known at the start', f, ps, pred, 'candidate variables')
    f = fn_of(ck, UVM + '::notifyRemoved', ['ConstrainedVariable'])
    ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$', calls='^FlawManager::notifyRemoved$'), args=(S('V'),), self_cls=UVM, opaque={'FlawManager::notifyRemoved'}, sizes=(0, 1))
    ck.forall_paths(rid, 'variable removed', f, ps, lambda p: True if member(p, 'V') is False and len(find(p, 'c', 'notifyRemoved', None, ['V'])) == 1 else
                    'it stays a candidate, or its other data is kept', 'candidate variables')
    # ---- tokens
    f = method(ck, OCM, 'notifyChanged', 2)
    T = 'V.m_parent'

    def tok_status(p, t):
        need = [('isInactive(%s)' % t, True), ('static(%s)' % t, False)]
        got = [was(p, a) for a, w in need]
        if any(g is not None and g != w for g, (a, w) in zip(got, need)):
            return False
        return True if all(g is not None for g in got) else None
    conv = lambda n, a: 'Id<Token>' in n
    for state in (True, False):
        for c in CH:
            ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$'), args=(S('V'), en(c)), self_cls=OCM, value_of=base_val(state, conv), sizes=(0, 1))

            def pred(p):
                got = member(p, T)
                if not state or c not in ('RESET', 'CLOSED', 'SET_TO_SINGLETON'):
                    return True if not [t for t in p.trace if t[0] in '+-'] else 'changes the candidates'
                if c == 'SET_TO_SINGLETON':
                    return True if got is False else 'the token stays a candidate'
                want = tok_status(p, T)
                return True if want is not None and got is (want or None) else 'token: candidate %s, expected %s' % (got, want)
            ck.forall_paths(rid, 'token %s%s' % (c, ', state' if state else ''), f, ps, pred, 'candidate tokens')
    f = method(ck, OCM, 'handleInitialize', 0)
    ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$'), self_cls=OCM, sizes=(0, 1),
                     value_of=base_val(None, conv, extra=lambda ev, st, fl: [(S('AllToks'), st)] if ev.m == 'getTokens' else None), cont_init={'AllToks': (2,)})

    def pred(p):
        for v in ('AllToks[0]', 'AllToks[1]'):
            want, got = tok_status(p, v), member(p, v)
            if want is None or got is not (want or None):
                return '%s should%s be a candidate, but is%s' % (v, '' if want else ' not', '' if got else ' not')
        return True
    ck.forall_paths(rid, 'tokens known at the start', f, ps, pred, 'candidate tokens')
    f = fn_of(ck, OCM + '::notifyRemoved', ['ConstrainedVariable'])
    for state in (True, False):
        ps, fl = ck.flow(f, rec(conts=re.escape(CAND) + '$', calls='^FlawManager::notifyRemoved$'), args=(S('V'),), self_cls=OCM, opaque={'FlawManager::notifyRemoved'}, value_of=base_val(state), sizes=(0, 1))
        ck.forall_paths(rid, 'variable of a token removed%s' % (', state' if state else ''), f, ps,
                        lambda p: True if member(p, T) is (False if state else None) and len(find(p, 'c', 'notifyRemoved', None, ['V'])) == 1 else
                        'the token stays a candidate (or another leaves), or its other data is kept', 'candidate tokens')
    for c in (UVM, OCM):
        f = method(ck, c, 'noMoreFlaws', 0)
        for n in (0, 1):
            ps, fl = ck.flow(f, rec(), self_cls=c, cont_init={CAND: (n,)})
            ck.forall_paths(rid, '%s reports %d flaw(s)' % (c, n), f, ps, lambda p: True if vs(p.val) == ('true' if n == 0 else 'false') else 'answers %s' % vs(p.val), 'flaws left')


def stage(st):
    return sum(1 for t in st.trace if t[0] == '#')


def filters(ck, rid):
    sm, dm = ck.fn('FlawManager::staticMatch'), ck.fn('FlawManager::dynamicMatch')
    rv, rt = fn_of(ck, 'FlawManager::notifyRemoved', ['ConstrainedVariable']), fn_of(ck, 'FlawManager::notifyRemoved', ['Id<EUROPA::Token>']) if False else None
    for tok in (True, False):
        for par in (True, False):
            for n in (0, 1, 2, 3):
                def val(ev, st, fl):
                    if ev.m == 'convertable':
                        return [(K(tok == ('Id<Token>' in ev.name)), st)]
                    if ev.m == 'getMatches':
                        s = st.cp()
                        s.conts[vs(ev.args[1])] = (tuple(S('F%d' % i) for i in range(n)), True)
                        return [(S('void'), s)]
                    if ev.m == 'isDynamic':
                        return [(S('dyn(%s)' % ev.recv), st)]
                    if ev.m == 'test' and ev.name.startswith('FlawFilter'):
                        return [(S('test%d(%s,%s)' % (stage(st), ev.recv, vs(ev.args[0]))), st)]
                    if ev.recv == 'PARENT':
                        return [(S({'staticMatch': 'pstatic', 'staticallyExcluded': 'pstatic'}.get(ev.m, 'p%s%d' % (ev.m, stage(st)))), st)]
                    return None
                q = Seq(ck, rec(calls='getMatches$|::test$'), self_cls='FlawManager', value_of=val, sizes=(0, 1),
                        assume={'in(E.m_key,this.m_staticFiltersByKey)': False, 'in(E.m_key,this.m_dynamicFiltersByKey)': False, 'this.m_parent': S('PARENT') if par else K(None), **({'eq(PARENT,null)': False} if par else {})})
                lab = '%s, %d filter(s)%s' % ('token' if tok else 'variable', n, ', solver filters' if par else '')
                bad = None
                seen = set()
                runs = [q.mark(p, 1) for p in q.runs]
                for stp in ('first', 'again'):
                    nxt = []
                    for p in runs:
                        for b, r in q.ask(sm, p, args=(S('E'),)):
                            dyn = [was(r, 'dyn(F%d)' % i) for i in range(n)]
                            ps_ = was(r, 'pstatic')
                            if par and ps_ is None:
                                bad = bad or ('the filters of the solver are not consulted', r)
                                continue
                            want = True if ps_ else (False in dyn)
                            if not ps_ and not want and None in dyn:
                                bad = bad or ('filter F%d is not consulted' % dyn.index(None), r)
                            if b != want:
                                bad = bad or ('%s: %s statically, but the filters say %s' % (stp, 'left out' if b else 'kept', 'out' if want else 'in'), r)
                            g = [t for t in r.trace if t[0] == 'c' and t[1] == 'getMatches']
                            if any(t[3][0] != 'E' or t[2] != 'this.m_flawFilters' for t in g):
                                bad = bad or ('the filters asked for are not those of the entity', r)
                            seen.add((stp, b))
                            if stp == 'first' or not b:
                                nxt.append(r)
                    runs = nxt
                for stp in (2, 3):
                    nxt = []
                    for p in [q.mark(p, stp) for p in runs]:
                        for b, r in q.ask(dm, p, args=(S('E'),)):
                            tests = [was(r, 'test%d(F%d,E)' % (stp, i)) for i in range(n)]
                            pd = was(r, 'pdynamicMatch%d' % stp)
                            if par and pd is None and True not in tests:
                                bad = bad or ('the condition of the filters of the solver is not consulted', r)
                            want = bool(pd) or True in tests
                            if not want and None in tests:
                                bad = bad or ('the condition of filter F%d is not evaluated (again)' % tests.index(None), r)
                            if b != want:
                                bad = bad or ('%s dynamically, but the filters say %s' % ('left out' if b else 'kept', 'out' if want else 'in'), r)
                            seen.add((stp, b))
                            nxt.append(r)
                    runs = nxt
                need = {('first', False), ('again', False), (2, False), (3, False)} | ({('first', True), ('again', True)} if n or par else set()) | ({(2, True), (3, True)} if n or par else set())
                if bad is None and need - seen:
                    bad = ('these answers are impossible now: %s' % sorted(map(str, need - seen)), q.runs[0] if q.runs else None)
                ck.ob(rid, lab, bad is None, bad[0] if bad else '', ck.where(sm), bad[1].why() if bad and bad[1] else '')


def truth_table(ck, rid, inst, cls, fn, val, want, need=2, **kw):
    """fn answers want(path) on every path (want None: undecided, a complaint), and both answers occur"""
    q = Seq(ck, rec(calls=kw.pop('calls', None)), self_cls=cls, value_of=val, sizes=(0, 1), **kw)
    bad, seen = None, set()
    for b, r in q.ask(fn, q.runs[0], args=(S('E'),)):
        w = want(r)
        seen.add(b)
        if w is None or b != w:
            bad = bad or ('answers %s, expected %s' % (b, 'to look at everything that matters' if w is None else w), r)
    if not bad and len(seen) < need:
        bad = ('answers always %s' % seen, None)
    ck.ob(rid, inst, bad is None, bad[0] if bad else '', ck.where(fn), bad[1].why() if bad and bad[1] else '')


def any_of(p, *atoms):
    """disjunction of (atom, value) pairs as decided on the path; None if undecided"""
    got = [was(p, a) for a, v in atoms]
    if any(g is not None and g == v for g, (a, v) in zip(got, atoms)):
        return True
    return False if all(g is not None for g in got) else None


def overrides(ck, rid):
    for cls, ty in ((UVM, 'Id<ConstrainedVariable>'), (OCM, 'Id<Token>'), (TM, 'Id<Token>')):
        def val(ev, st, fl):
            if ev.m == 'convertable':
                return [(S('conv %s' % ev.name.split('::')[0]), st)]
            if ev.name in ('FlawManager::staticMatch', 'FlawManager::dynamicMatch'):
                return [(S('base%s(%s)' % (ev.m, vs(ev.args[0]))), st)]
            if ev.m == 'isSpecified':
                return [(S('spec(%s)' % ev.recv), st)]
            if ev.m == 'areBoundsFinite':
                return [(S('finite(%s)' % ev.recv), st)]
            return None
        # the two other kinds of entity exclude each other
        truth_table(ck, rid, '%s static' % cls, cls, method(ck, cls, 'staticMatch', 1), val,
                    lambda p: any_of(p, ('conv ' + ty, False), ('basestaticMatch(E)', True)))
        fn = method(ck, cls, 'dynamicMatch', 1)
        if cls == UVM:
            truth_table(ck, rid, '%s dynamic' % cls, cls, fn, val,
                        lambda p: any_of(p, ('basedynamicMatch(E)', True), ('spec(E)', True), ([a.lstrip('!') for a in p.st.why if 'finite(E' in a] + ['finite'])[0:1] and (([a.lstrip('!') for a in p.st.why if 'finite(E' in a] + ['finite'])[0], False)))
        elif cls == TM:
            truth_table(ck, rid, '%s dynamic' % cls, cls, fn, val,
                        lambda p: any_of(p, ('conv ' + ty, False), ('basestaticMatch(E)', True), ('basedynamicMatch(E)', True)))


def ctor_of(ck, cls, np=None):
    fs = [f for f in ck.P.fns.values() if f.get('ctor') and short(f.get('cls', '')) == cls and f.get('body') and (np is None or len(f['p']) == np)]
    if len(fs) != 1:
        raise Broken('constructor of %s: %d candidates' % (cls, len(fs)))
    return fs[0]


def walk_iterator(ck, cls, ctor, args, val, limit=6, **kw):
    """[(elements returned, path)] of constructing an iterator and asking done / next until done; None marks an endless one"""
    q = Seq(ck, rec(calls=r'::next$'), self_cls=cls, scope=(cls, 'FlawIterator', 'Iterator'), value_of=val, sat=50, trip=6, **kw)
    q.call(ctor, args=args)
    runs = [((), p) for p in q.runs if p.outcome == 'ret']
    done, nxt = method(ck, cls, 'done', 0), method(ck, cls, 'next', 0)
    out = []
    for n in range(limit):
        new = []
        for got, p in runs:
            for b, r in q.ask(done, p):
                if b:
                    out.append((got, r))
                    continue
                for r2 in q.call(nxt, paths=[r]):
                    if r2.outcome == 'ret':
                        new.append((got + (vs(r2.val),), r2))
        runs = new
    return out + [(None, p) for g, p in runs]


def iterator_class(ck, mgr):
    """the iterator class a manager's createIterator allocates"""
    f = method(ck, mgr, 'createIterator', 0)
    ps, fl = ck.flow(f, rec(news='.'), self_cls=mgr, sizes=(0,))
    names = {t[1] for p in ps for t in p.trace if t[0] == 'n'}
    if len(names) != 1:
        raise Broken('%s::createIterator allocates %s' % (mgr, names))
    return f, names.pop()


def iteration(ck, rid):
    for mgr in (UVM, OCM, TM):
        f, cls = iterator_class(ck, mgr)
        src = 'M.m_flawCandidates'
        for n in (0, 1, 2, 3):
            def val(ev, st, fl):
                if ev.m == 'dynamicMatch':
                    return [(S('dyn(%s)' % vs(ev.args[0])), st)]
                if ev.m == 'inSynch':
                    return [(K(True), st)]
                if ev.m == 'getTokensToOrder':
                    return [(S('M.m_flawCandidates'), st)]
                return None
            res = walk_iterator(ck, cls, ctor_of(ck, cls), (S('M'),), val, cont_init={src: (n,)}, assume={'eq(%s[%d]%s,null)' % (src, i, x): False for i in range(n) for x in ('', '.second.first')})
            els = [src + '[%d]' % i for i in range(n)]
            bad, seen = None, set()
            for got, p in res:
                if got is None:
                    bad = bad or ('does not come to an end', p)
                    continue
                d = {}
                for w in p.st.why:
                    m = re.match(r'(!?)dyn\(M\.m_flawCandidates\[(\d)\](.*)\)$', w)
                    if m:
                        d[int(m.group(2))] = not m.group(1)
                if len(d) < n:
                    bad = bad or ('candidate %s is never examined' % [e for i, e in enumerate(els) if i not in d][0], p)
                    continue
                want = tuple(e for i, e in enumerate(els) if not d[i])
                g = tuple(re.sub(r'(\[\d\])\..*', r'\1', x) for x in got)
                if g != want or (mgr == TM and any(not x.endswith('.second.first') for x in got)):
                    bad = bad or ('yields %s, expected %s' % (got, want), p)
                seen.add(want)
            if not bad and len(seen) != 2 ** n:
                bad = ('only %d of %d combinations of filtered candidates are possible' % (len(seen), 2 ** n), None)
            ck.ob(rid, '%s over %d candidate(s)' % (mgr, n), bad is None, bad[0] if bad else '', ck.where(f), bad[1].why() if bad and bad[1] else '')
    # threats: none left exactly when the iteration yields nothing
    f = method(ck, TM, 'noMoreFlaws', 0)
    for n in (0, 1, 2):
        def val(ev, st, fl):
            if ev.m == 'dynamicMatch':
                return [(S('dyn(%s)' % vs(ev.args[0])), st)]
            if ev.m == 'getTokensToOrder':
                return [(S('Toks'), st)]
            return None
        cls = iterator_class(ck, TM)[1]
        q = Seq(ck, rec(), self_cls=TM, value_of=val, cont_init={'Toks': (n,)}, trip=6, newdisp=True, scope=(TM, cls, 'FlawIterator', 'Iterator'),
                assume={'eq(Toks[%d].second.first,null)' % i: False for i in range(n)}, inline=lambda f: True if short(f.get('cls', '')) in (cls, 'FlawIterator') else None)
        bad = None
        cnt = 0
        for b, p in q.ask(f, q.runs[0]):
            d = decided(p, 'dyn(')
            cnt += 1
            if b != (len(d) == n and all(d)):
                bad = bad or ('answers %s although %s' % (b, 'a token to order is left' if b else 'none is'), p)
        ck.ob(rid, 'threats left among %d' % n, bad is None and cnt, bad[0] if bad else 'no answer', ck.where(f), bad[1].why() if bad else '')
    # the iterator of the solver visits every manager's iterator in turn
    cls = 'Solver::FlawIterator'
    c = ctor_of(ck, cls)
    for counts in ((), (0,), (2,), (0, 1), (1, 0), (2, 1), (0, 0), (1, 0, 2), (0, 0, 1), (1, 1, 1)):
        def val(ev, st, fl):
            m = re.match(r'I(\d+)$', ev.recv)
            if ev.m == 'createIterator':
                return [(S('I%s' % re.search(r'\[(\d+)\]', ev.recv).group(1)), st)]
            if m and ev.m in ('done', 'next'):
                k = sum(1 for t in st.trace if t[0] == 'c' and t[1] == 'next' and t[2] == ev.recv)
                return [(K(k >= counts[int(m.group(1))]), st)] if ev.m == 'done' else [(S('%s#%d' % (ev.recv, k)), st)]
            return None
        res = walk_iterator(ck, cls, c, (S('MS'),), val, cont_init={'MS': (len(counts),)}, inline=lambda f: True if short(f.get('cls', '')) == cls else None)
        want = tuple('I%d#%d' % (i, k) for i, n in enumerate(counts) for k in range(1, n + 1))
        alt = tuple('I%d#%d' % (i, k) for i, n in enumerate(counts) for k in range(0, n))
        bad = [(g, p) for g, p in res if g not in (want, alt)]
        ck.ob(rid, 'solver over %s flaws' % (list(counts),), not bad and res, 'yields %s, expected %s' % (bad[0][0] if bad else 'nothing', alt), ck.where(c))


def handlers(ck, rid):
    gh, na, nd = ck.fn('FlawManager::getFlawHandler'), ck.fn('FlawManager::notifyActivated'), ck.fn('FlawManager::notifyDeactivated')
    for ws in ((5,), (5, 7), (7, 5), (5, 9, 7), (9, 5, 7), (5, 5)):
        W = {'H%d' % i: w for i, w in enumerate(ws)}
        W.update(X=8, Y=1)

        def val(ev, st, fl):
            if ev.m == 'getMatches':
                s = st.cp()
                s.conts[vs(ev.args[1])] = (tuple(S('H%d' % i) for i in range(len(ws))), True)
                return [(S('void'), s)]
            if ev.m == 'getWeight':
                return [(K(W[ev.recv]), st)] if ev.recv in W else None
            if ev.m in ('customStaticMatch', 'hasGuards', 'makeConstraintScope') or ev.m == 'test' and 'FlawHandler' in ev.name:
                return [(S('%s(%s)' % (ev.m, ev.recv)), st)]
            if ev.m == 'constraintConsistent':
                return [(K(True), st)]
            if ev.m == 'getFlawHandler':
                return [(S('again'), st)]     # asks itself once more
            return None
        q = Seq(ck, rec(calls=r'getMatches$|::propagate$|::synchronize$|make_shared', news='.', conts='m_flawHandlerGuards$'), self_cls='FlawManager', value_of=val, sizes=(0, 1), sat=20,
                opaque={'FlawManager::synchronize'}, assume=dict(distinct(*W), **{'in(E.m_key,this.m_activeFlawHandlersByKey)': False}))
        bad, seen = None, set()

        def note(why, p):
            nonlocal bad
            bad = bad or (why, p)

        def best(el):
            m = max(W[x] for x in el)
            return [x for x in el if W[x] == m]
        for p1 in q.call(gh, args=(S('E'),), paths=q.runs):
            elig, guarded = [], []
            for h in W:
                if h[0] != 'H':
                    continue
                cu, hg, sc, te = [was(p1, '%s(%s)' % (a, h)) for a in ('customStaticMatch', 'hasGuards', 'makeConstraintScope', 'test')]
                if cu is None:
                    elig = None
                    break
                if cu and hg and sc:
                    guarded.append(h)
                if cu and (hg is False or (hg and sc and te)):
                    elig.append(h)
                elif cu and (hg is None or hg and (sc is None or sc and te is None)):
                    elig = None
                    break
            if p1.outcome != 'ret':
                if was(p1, 'eq(E,null)') is not True and (elig is None or elig):
                    note('fails although a handler fits', p1)
                continue
            if elig is None:
                note('a handler is never examined', p1)
                continue
            if not elig:
                note('answers without a fitting handler', p1)
                continue
            made = sorted(re.search(r"\b(H\d)\b", str(t[3] if t[0] == 'c' else t[2])).group(1) for t in p1.trace
                          if (t[0] == 'c' and t[1] == 'make_shared' or t[0] == 'n' and 'Listener' in t[1]) and re.search(r"\bH\d\b", str(t[3] if t[0] == 'c' else t[2])))
            kept = sorted(m.group(1) for t in p1.trace if t[0] == '+' for m in [re.match(r'\(E\.m_key,.*\b(H\d)\b', t[2][-1])] if m)
            if made != sorted(guarded) or kept != sorted(guarded):
                note('guards of %s are watched, expected %s' % (kept, guarded), p1)
            if bool(guarded) != bool(find(p1, 'c', 'propagate')) or bool(guarded) != bool(find(p1, 'c', 'synchronize')):
                note('does not propagate and synchronize exactly when guards are watched', p1)
            for p2 in q.call(gh, args=(S('E'),), paths=[p1]):
                if p2.outcome != 'ret':
                    continue
                v1, v2 = vs(p1.val), vs(p2.val)
                if v2 not in best(elig) or v1 not in (v2, 'again'):
                    note('answers %s, then %s; expected %s of %s' % (v1, v2, best(elig), elig), p2)
                    continue
                if len([t for t in p2.trace if t[0] == 'c' and t[1] == 'getMatches']) != 1:
                    note('handlers are looked up again', p2)
                seen.add(tuple(elig))
                for x in 'XY':
                    for p3 in q.call(na, args=(S('E'), S(x)), paths=[p2]):
                        for p4 in q.call(gh, args=(S('E'),), paths=[p3]):
                            if p4.outcome == 'ret' and vs(p4.val) not in best(elig + [x]):
                                note('after the guards of %s (%d) came to hold: answers %s, expected %s' % (x, W[x], vs(p4.val), best(elig + [x])), p4)
                            for p5 in q.call(nd, args=(S('E'), S(x)), paths=[p4]):
                                for p6 in q.call(gh, args=(S('E'),), paths=[p5]):
                                    if p6.outcome == 'ret':
                                        seen.add('back')
                                        if vs(p6.val) not in best(elig):
                                            note('after the guards of %s stopped holding: answers %s, expected %s' % (x, vs(p6.val), best(elig)), p6)
                if len(elig) > 1:
                    for p3 in q.call(nd, args=(S('E'), S(elig[0])), paths=[p2]):
                        for p4 in q.call(gh, args=(S('E'),), paths=[p3]):
                            if p4.outcome == 'ret' and vs(p4.val) not in best(elig[1:]):
                                note('after the guards of %s stopped holding: answers %s, expected %s' % (elig[0], vs(p4.val), best(elig[1:])), p4)
        if not bad and (len(seen) != 2 ** len(ws) or 'back' not in seen):
            bad = ('only %d combinations of fitting handlers are possible' % len(seen), None)
        ck.ob(rid, 'weights %s' % (list(ws),), bad is None, bad[0] if bad else '', ck.where(gh), bad[1].why() if bad and bad[1] else '')
    # the guard listener
    cls = 'FlawHandler::VariableListener'
    c = ctor_of(ck, cls)
    nc = method(ck, cls, 'notifyChanged', 2)
    for v, inside in (('G0', True), ('G1', True), ('Z', False)):
        def val(ev, st, fl):
            if ev.m == 'test' and 'FlawHandler' in ev.name:
                return [(S('test%d' % stage(st)), st)]
            return None
        q = Seq(ck, rec(calls=r'^FlawManager::notify(Act|Deact)ivated$'), self_cls=cls, value_of=val, sizes=(0, 1), sat=20,
                st=None, assume={'eq(H,null)': False, 'eq(E,null)': False, 'eq(FM,null)': False, 'in(Z,this.m_scope)': False, 'in(Z,SC)': False, 'eq(Z,G0)': False, 'eq(Z,G1)': False, 'eq(G0,Z)': False, 'eq(G1,Z)': False, 'eq(G0,G1)': False, 'eq(G1,G0)': False})
        q.runs[0].st.conts['SC'] = ((S('G0'), S('G1')), True)
        q.call(c, args=(S('CE'), S('E'), S('FM'), S('H'), S('SC')))
        for k in (1, 2, 3):
            q.runs = [q.mark(p, k) for p in q.runs if p.outcome == 'ret']
            q.call(nc, args=(S(v), S('T')))

        def pred(p):
            cur = was(p, 'test0')
            n, got = 0, {}
            for t in p.trace:
                if t[0] == '#':
                    n = t[1]
                else:
                    got.setdefault(n, []).append(t)
            if cur is None and inside:
                return 'whether the guards hold is not examined when they are first watched'
            for k in (1, 2, 3):
                ev = [(t[1], t[2], t[3]) for t in got.get(k, [])]
                if not inside:
                    want = []
                else:
                    new = was(p, 'test%d' % k)
                    if new is None:
                        return 'a change of a guard variable is ignored'
                    want = [] if new == cur else [('notifyActivated' if new else 'notifyDeactivated', 'FM', ('E', 'H'))]
                    cur = new
                if ev != want:
                    return 'change %d: %s, expected %s' % (k, ev, want)
            return True
        ck.forall_paths(rid, 'guard %s' % ('variable changes' if inside else 'unaffected by other variables') + ' ' + v, nc, q.runs, pred, 'guards')
    # the guards themselves
    t = ck.fn('FlawHandler::test')
    for g, m in ((1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (1, 2)):
        def val(ev, st, fl):
            if ev.m == 'isSingleton':
                return [(S('single(%s)' % ev.recv), st)]
            if ev.m == 'getSingletonValue':
                return [(S('value(%s)' % ev.recv), st)]
            if ev.m == 'convertValueIfNecessary':
                return [(S('conv(%s,%s)' % (vs(ev.args[1]), vs(ev.args[2]))), st)]
            return None
        gl = ['this.m_guards[%d]' % i for i in range(g)] + ['this.m_masterGuards[%d]' % i for i in range(m)]
        q = Seq(ck, rec(), self_cls='FlawHandler', value_of=val, sizes=(0, 1), sat=20, trip=6, cont_init={'SC': (g + m,), 'this.m_guards': (g,), 'this.m_masterGuards': (m,)}, opaque={'FlawHandler::getPlanDatabase'})
        bad, seen = None, set()
        for b, p in q.ask(t, q.runs[0], args=(S('SC'),)):
            seen.add(b)
            d = {}
            for w in p.st.why:
                a, x = (w[1:], False) if w[0] == '!' else (w, True)
                mm = re.match(r'single\(SC\[(\d)\]', a)
                if mm:
                    d[mm.group(1), 's'] = x
                mm = re.search(r'value\(SC\[(\d)\][^)]*\)', a)
                m2 = re.search(r'conv\(SC\[(\d)\],(this\.m_\w+\[\d\])\.second\)', a)
                if mm and m2:
                    if mm.group(1) != m2.group(1) or gl[int(mm.group(1))] != m2.group(2):
                        bad = bad or ('compares guard variable %s with the value of %s' % (mm.group(1), m2.group(2)), p)
                    d[mm.group(1), 'v'] = x
            want = all(d.get((str(i), k)) for i in range(g + m) for k in 'sv')
            if b != want:
                bad = bad or ('answers %s, the guards say %s' % (b, d), p)
            if not b and False not in d.values():
                bad = bad or ('does not hold although no guard fails', p)
        if not bad and len(seen) < 2:
            bad = ('always answers %s' % seen, None)
        ck.ob(rid, '%d guard(s), %d guard(s) on the master' % (g, m), bad is None, bad[0] if bad else '', ck.where(t), bad[1].why() if bad and bad[1] else '')
    # the variables a guard is about
    t = ck.fn('FlawHandler::makeConstraintScope')
    for g, m in ((1, 0), (0, 1), (1, 1), (2, 1)):
        def val(ev, st, fl):
            if ev.m == 'getTokenFromEntity':
                return [(S('TOK'), st)]
            if ev.m == 'getVariable':
                return [(S('%s.%s' % (ev.recv, vs(ev.args[0]))), st)]
            if ev.m == 'master':
                return [(S('MASTER'), st)]
            return None
        q = Seq(ck, rec(), self_cls='FlawHandler', value_of=val, sizes=(0, 1), sat=20, trip=6, cont_init={'this.m_guards': (g,), 'this.m_masterGuards': (m,)})
        q.runs[0].st.conts['OUT'] = ((), True)
        names = ['TOK.this.m_guards[%d].first' % i for i in range(g)] + ['MASTER.this.m_masterGuards[%d].first' % i for i in range(m)]
        need = ['TOK'] + (['MASTER'] if m else []) + names
        bad, seen = None, set()
        for b, p in q.ask(t, q.runs[0], args=(S('E'), S('OUT'))):
            null = [was(p, 'eq(%s,null)' % x) for x in need]
            seen.add(b)
            if b != all(x is False for x in null):
                bad = bad or ('answers %s although %s' % (b, 'something is missing' if True in null else 'all is there'), p)
            if b and [vs(x) for x in contents(p, 'OUT')] != names:
                bad = bad or ('collects %s, expected %s' % ([vs(x) for x in contents(p, 'OUT')], names), p)
        if not bad and len(seen) < 2:
            bad = ('always answers %s' % seen, None)
        ck.ob(rid, 'scope of %d guard(s), %d on the master' % (g, m), bad is None, bad[0] if bad else '', ck.where(t), bad[1].why() if bad and bad[1] else '')


def model(best, pr, better):
    """the flaw to choose: (index or None, its priority, comparisons made)"""
    if best == 0:
        return None, best, []
    b, ch, asked = best - 2 * EPS, None, []
    for i, x in enumerate(pr):
        d = b - x
        if d >= EPS:
            ch, b = i, x
        elif abs(d) < EPS:
            asked.append((i, ch))
            if better(i, ch):
                ch, b = i, x
            else:
                continue
        else:
            continue
        if b == 0:
            break
    return ch, b, asked


EPS = 0.001


def selection(ck, rid):
    nx = ck.fn('FlawManager::next')
    for best, pr in ((100, ()), (100, (10,)), (5, (10,)), (10, (10,)), (0, (0,)), (0, (-1, -2)), (100, (10, 7)), (100, (7, 10)), (100, (7, 7)), (100, (10, 7, 7)), (100, (7, 7, 10)),
                     (100, (5, 0, 0)), (100, (0, 5)), (100, (7, 10, 5)), (100, (7, 7, 5)), (100, (7, 7, 7)), (6, (7, 5, 9)), (7, (7, 6, 6))):
        n = len(pr)

        def val(ev, st, fl):
            if ev.m == 'createIterator':
                return [(S('I'), st)]
            if ev.recv == 'I' and ev.m in ('done', 'next'):
                k = sum(1 for t in st.trace if t[0] == 'c' and t[1] == 'next' and t[2] == ev.recv)
                return [(K(k >= n), st)] if ev.m == 'done' else [(S('F%d' % (k - 1 if st.trace and any(t[1] == 'next' for t in st.trace if t[0] == 'c') else 0)), st)]
            if ev.m == 'getPriority' and ev.args:
                m = re.match(r'F(\d)', vs(ev.args[0]))
                return [(K(pr[int(m.group(1))]), st)] if m else None
            if ev.m == 'betterThan':
                return [(S('better(%s,%s)' % (vs(ev.args[0]), vs(ev.args[1]))), st)]
            if ev.m == 'dynamicMatch':
                return [(K(False), st)]
            if ev.m == 'getBestCasePriority':
                return [(K(0), st)]
            if ev.m == 'epsilon':
                return [(K(EPS), st)]
            if ev.m == 'cast_double':
                return [(ev.args[0], st)]
            return None
        a = distinct(*['F%d' % i for i in range(n)])
        q = Seq(ck, rec(calls=r'::next$|allocateDecisionPoint$', news='.'), self_cls='FlawManager', opaque={'FlawManager::allocateDecisionPoint'}, value_of=val, sizes=(0, 1), sat=20, trip=n + 3, assume=dict(a, BP=K(best)))
        bad, seen = None, set()
        for p in q.call(nx, args=(('ref', 'BP'),), paths=q.runs):
            asked = {}
            for w in p.st.why:
                m = re.match(r'(!?)better\(F(\d),(?:F(\d)|null)\)', w)
                if m:
                    asked[int(m.group(2)), int(m.group(3)) if m.group(3) else None] = not m.group(1)
            try:
                ch, b, need = model(best, pr, lambda i, j: asked[i, j])
            except KeyError as e:
                bad = bad or ('does not ask which of %s is preferred' % (e,), p)
                continue
            if set(need) != set(asked):
                bad = bad or ('asks for the preference among %s, expected %s' % (sorted(asked), need), p)
            got = [t[3][0] for t in p.trace if t[0] == 'c' and t[1] == 'allocateDecisionPoint']
            if got != ([] if ch is None else ['F%d' % ch]):
                bad = bad or ('decides %s, expected %s' % (got, ch), p)
            if ch is not None and (p.val is None or 'allocateDecisionPoint' not in vs(p.val)):
                bad = bad or ('does not return the decision', p)
            if ch is None and vs(p.val) != 'null':
                bad = bad or ('answers %s without a flaw' % vs(p.val), p)
            z = p.st.store.get('BP')
            if z != K(b if ch is not None else best):
                bad = bad or ('passes %s on as the best priority, expected %s' % (z and vs(z), b if ch is not None else best), p)
            seen.add(ch)
        ck.ob(rid, 'best so far %s, priorities %s' % (best, list(pr)), bad is None and bool(seen), bad[0] if bad else 'no path', ck.where(nx), bad[1].why() if bad else '')


def preference(ck, rid):
    # the decision is made by the handler of the flaw
    al = ck.fn('FlawManager::allocateDecisionPoint')

    def val(ev, st, fl):
        if ev.m == 'getFlawHandler':
            return [(S('handler(%s)' % vs(ev.args[0])), st)]
        if ev.m == 'create' and 'FlawHandler' in ev.name:
            return [(S('made'), st)]
        if ev.m == 'getMaxChoices':
            return [(S('max(%s)' % ev.recv), st)]
        if ev.m == 'getClient':
            return [(S('client'), st)]
        return None
    q = Seq(ck, rec(calls=r'FlawHandler::create$|::setCutoff$'), self_cls='FlawManager', value_of=val, sizes=(0, 1), sat=10)
    ps = q.call(al, args=(S('E'), S('X')), paths=q.runs)

    def pred(p):
        ev = [(t[1], t[2], t[3]) for t in p.trace if t[0] == 'c']
        want = [('create', 'handler(E)', ('client', 'E', 'X')), ('setCutoff', 'made', ('max(handler(E))',))]
        if ev != want:
            return '%s, expected %s' % (ev, want)
        return vs(p.val) == 'made' or 'answers %s' % vs(p.val)
    ck.forall_paths(rid, 'decision made by the handler', al, [p for p in ps if p.outcome == 'ret'], pred, 'allocate')
    for mgr in ('FlawManager', UVM, OCM, TM):
        f = method(ck, mgr, 'betterThan', 3)

        def val(ev, st, fl):
            if ev.m == 'getSize':
                return [(S('size(%s)' % ev.recv), st)]
            if ev.m == 'lastDomain':
                return [(S('%s' % ev.recv), st)]
            if ev.m == 'getKey':
                return [(S('key(%s)' % ev.recv), st)]
            return None
        for nb in (False, True):
            q = Seq(ck, rec(), self_cls=mgr, value_of=val, sizes=(0, 1), sat=10, assume={'eq(A,null)': False, 'eq(B,null)': nb, 'A': S('A'), 'lt(key(A),key(B))': None} if 0 else {'eq(A,null)': False, 'eq(B,null)': nb, 'eq(A,B)': False})
            bad, seen = None, set()
            for b, p in q.ask(f, q.runs[0], args=(S('A'), S('B'), S('X'))):
                lt, gt = was(p, 'lt(size(A),size(B))'), was(p, 'lt(size(B),size(A))')
                if mgr == UVM:
                    want = False if nb else lt
                else:
                    want = True if nb else was(p, 'lt(key(B),key(A))')
                if want is None and mgr == UVM and gt is True:
                    want = False
                if b != want:
                    bad = bad or ('answers %s, expected %s' % (b, want), p)
                seen.add(b)
            if not bad and len(seen) != (1 if nb else 2):
                bad = ('answers %s only' % seen, None)
            ck.ob(rid, '%s preference%s' % (mgr, ', nothing chosen so far' if nb else ''), bad is None, bad[0] if bad else '', ck.where(f), bad[1].why() if bad and bad[1] else '')


MAPS = ('this.m_flawHandlerGuards', 'this.m_activeFlawHandlersByKey', 'this.m_staticFiltersByKey', 'this.m_dynamicFiltersByKey')


def cleanup(ck, rid):
    def key(x):
        return S(x + '.m_key')
    for kind in ('ConstrainedVariable', 'Token'):
        f = [g for g in ck.P.byq['FlawManager::notifyRemoved'] if kind in str(g['p'])]
        if len(f) != 1:
            raise Broken('FlawManager::notifyRemoved(%s)' % kind)
        f = f[0]
        for state in ((False, True) if kind != 'Token' else (False,)):
            for mine, other in (((), ()), (('V',), ()), ((), ('W',)), (('V', 'V'), ('W',)), (('V',), ('W', 'W')), (('T', 'T'), ('W',)), (('V', 'T'), ('W',)), (('W', 'V', 'V'), ('T',))):
                def val(ev, st, fl):
                    if ev.m == 'isStateVariable':
                        return [(K(state), st)]
                    if ev.m == 'parent':
                        return [(S('T'), st)]
                    if ev.m == 'scope':
                        return [(S('sc(%s)' % ev.recv), st)]
                    return None
                q = Seq(ck, rec(), self_cls='FlawManager', value_of=val, sizes=(0, 1), sat=20, trip=6, assume=dict(distinct('V.m_key', 'W.m_key', 'T.m_key'), **distinct('V', 'W', 'T')))
                s = q.runs[0].st
                ks = list(mine + other)
                gone = {'V'} | ({'T'} if state else set())
                for m in MAPS:
                    kk = ks if m == MAPS[0] else sorted(set(ks))
                    s.conts[m] = (tuple(('pair', key(x), S('L%d' % i)) for i, x in enumerate(kk)), True)
                for i in range(len(ks)):
                    s.conts['sc(L%d)' % i] = ((), True)
                    s.facts['L%d' % i] = True

                def pred(p):
                    for m in MAPS:
                        c = p.st.conts.get(m)
                        kk = ks if m == MAPS[0] else sorted(set(ks))
                        want = sorted('L%d' % i for i, x in enumerate(kk) if x not in gone)
                        if c is None or not c[1]:
                            return '%s has unknown content' % m
                        got = sorted(vs(x[2]) if x[0] == 'pair' else vs(x) for x in c[0])
                        if got != want:
                            return '%s: %s is left, expected %s' % (m.split('.')[-1], got, want)
                    return True
                ps = [p for p in q.call(f, args=(S('V'),), paths=q.runs) if p.outcome == 'ret']
                ck.forall_paths(rid, '%s%s removed, entries of %s' % (kind, ' (state)' if state else '', ks), f, ps, pred, 'clean')
    # a guard variable disappears before the flaw it guards
    f = [g for g in ck.P.byq['FlawManager::notifyRemoved'] if 'ConstrainedVariable' in str(g['p'])][0]
    for hs, guard in ((('h0', 'H'), 'H'), (('H', 'h0'), 'H'), (('h0',), 'H')):
        def val(ev, st, fl):
            r = {'isStateVariable': K(False), 'getTarget': S('W'), 'getHandler': S(guard), 'getWeight': K(5)}.get(ev.m)
            if r is not None:
                return [(r, st)]
            if ev.m == 'scope':
                return [(S('sc(%s)' % ev.recv), st)]
            return None
        q = Seq(ck, rec(), self_cls='FlawManager', value_of=val, sizes=(0, 1), sat=20, trip=6, assume=dict(distinct('V.m_key', 'W.m_key', 'h0', 'H'), **distinct('V', 'W', 'h0', 'H', 'Q')))
        s = q.runs[0].st
        s.conts[MAPS[0]] = ((('pair', key('W'), S('L0')), ('pair', key('W'), S('L1'))), True)
        s.conts[MAPS[1]] = ((('pair', key('W'), S('EW')),), True)
        for m in MAPS[2:]:
            s.conts[m] = ((), True)
        s.conts['EW'] = (tuple(('pair', K(5), S(h)) for h in hs), True)
        s.conts['sc(L0)'] = ((S('Q'), S('V')), True)
        s.conts['sc(L1)'] = ((S('Q'),), True)

        def pred(p):
            g, e = p.st.conts[MAPS[0]], p.st.conts['EW']
            if [vs(x[2]) for x in g[0]] != ['L1']:
                return 'guards left: %s, expected the other one' % (g,)
            if [vs(x[2]) for x in e[0]] != [h for h in hs if h != 'H']:
                return 'handlers left: %s' % (e,)
            return True
        ps = [p for p in q.call(f, args=(S('V'),), paths=q.runs) if p.outcome == 'ret']
        ck.forall_paths(rid, 'guard variable removed, handlers %s' % (list(hs),), f, ps, pred, 'guard gone')


ATTR = {'class': ('class-match', 'class'), 'pred': ('predicate-match', 'predicate'), 'var': ('var-match', 'variable'), 'mclass': ('masterClass',), 'mpred': ('masterPredicate',), 'rel': ('masterRelation',), 'name': ('tokenName',)}
# what rules look like and what they are asked about: (entity, what it is)
ENT = {'T': dict(kind='Token', types=['B', 'A', 'Object'], pred='p', name='drive.nav', master='M', rel='meets'),
       'M': dict(kind='Token', types=['D', 'C', 'Object'], pred='q', name='plan', rel='none'),
       'T2': dict(kind='Token', types=['A', 'Object'], pred='p', name='nav', master='M', rel='met_by'),
       'VT': dict(kind='Var', parent='T', name='x'), 'VM': dict(kind='Var', parent='M', name='y'),
       'VR': dict(kind='Var', parent='RI', name='x'), 'VO': dict(kind='Var', parent='OB', name='x'), 'VG': dict(kind='Var', parent=None, name='x'),
       'RI': dict(kind='Rule', token='T'), 'OB': dict(kind='Object', types=['B', 'A', 'Object'])}


def fits(rule, ent):
    """does every filter of the rule hold for the entity"""
    e = ENT[ent]
    tok, types = None, []
    if e['kind'] == 'Token':
        tok = ent
    elif e['kind'] == 'Var' and e['parent']:
        par = ENT[e['parent']]
        tok = e['parent'] if par['kind'] == 'Token' else par.get('token')
        types = par.get('types', [])
    t = ENT[tok] if tok else {}
    types = t.get('types', types)
    m = ENT[t['master']] if t.get('master') else None
    for k, v in rule.items():
        if k == 'class':
            ok = v in types
        elif k == 'pred':
            ok = v == t.get('pred')
        elif k == 'name':
            ok = tok is not None and v in t['name']
        elif k == 'var':
            ok = e['kind'] == 'Var' and v == e['name']
        elif k == 'mclass':
            ok = m is not None and v in m['types']
        elif k == 'mpred':
            ok = m is not None and v == m['pred']
        elif k == 'rel':
            r = (t.get('rel') if m else 'none') if tok else None
            ok = r is not None and (v == r or (v, r) in (('before', 'meets'), ('after', 'met_by')))
        if not ok:
            return False
    return True


RULES = [{}, {'class': 'A'}, {'class': 'B'}, {'class': 'C'}, {'pred': 'p'}, {'pred': 'q'}, {'var': 'x'}, {'var': 'y'}, {'mclass': 'C'}, {'mclass': 'A'}, {'mpred': 'q'}, {'mpred': 'p'},
         {'rel': 'before'}, {'rel': 'after'}, {'rel': 'meets'}, {'rel': 'met_by'}, {'rel': 'none'}, {'rel': 'contains'}, {'name': 'nav'}, {'name': 'drive.nav'}, {'name': 'navig'}, {'name': 'plan'},
         {'class': 'A', 'pred': 'p'}, {'class': 'A', 'pred': 'q'}, {'class': 'D', 'pred': 'p'}, {'class': 'A', 'var': 'x'}, {'class': 'A', 'mclass': 'C'}, {'pred': 'p', 'mpred': 'q'}, {'pred': 'p', 'rel': 'before'},
         {'mclass': 'C', 'mpred': 'q', 'rel': 'meets'}, {'mclass': 'A', 'mpred': 'q', 'rel': 'meets'}, {'mclass': 'C', 'mpred': 'p', 'rel': 'before'}, {'class': 'B', 'pred': 'p', 'name': 'nav'}, {'class': 'B', 'pred': 'p', 'var': 'x', 'name': 'drive'},
         {'class': 'Object', 'pred': 'p', 'var': 'x', 'mclass': 'Object', 'mpred': 'q', 'rel': 'before', 'name': 'nav'}, {'class': 'Object', 'pred': 'p', 'var': 'x', 'mclass': 'B', 'mpred': 'q', 'rel': 'before', 'name': 'nav'},
         {'class': 'Object', 'pred': 'p', 'mclass': 'Object', 'mpred': 'q', 'rel': 'meets', 'name': 'nav'}]
INDEX = 'm_rulesByObjectType m_rulesByPredicate m_rulesByVariable m_rulesByMasterObjectType m_rulesByMasterPredicate m_rulesByMasterRelation m_rulesByTokenName m_rules m_rulesByExpression m_unfilteredRules'.split()


def matching(ck, rid):
    ini, ctor = ck.fn('MatchingRule::initialize'), ctor_of(ck, 'MatchingRule')
    gm = {k: g for g in ck.P.byq['MatchingEngine::getMatches'] for k in ('Entity>', 'ConstrainedVariable>', 'Token>') if k in str(g['p'][0])}
    if len(gm) != 3:
        raise Broken('MatchingEngine::getMatches: %s' % sorted(gm))

    def mk(rules, spell):
        def val(ev, st, fl):
            e = ENT.get(ev.recv)
            if ev.m == 'WILD_CARD':
                return [(K('*'), st)]
            if ev.m == 'Attribute' and ev.recv.startswith('cfg'):
                a = vs(ev.args[0]).strip("'")
                for k, names in ATTR.items():
                    if a in names:
                        v = rules[int(ev.recv[3:])].get(k)
                        return [(K(v) if v is not None and a == names[spell % len(names)] else NULL, st)]
                return [(NULL, st)]
            if ev.m == 'convertable':
                x = ENT.get(vs(ev.args[0]))
                k = re.match(r'Id<(\w+)', ev.name)
                if x and k:
                    return [(K({'Token': 'Token', 'ConstrainedVariable': 'Var', 'RuleInstance': 'Rule', 'Object': 'Object'}.get(k.group(1)) == x['kind']), st)]
                return None
            if ev.m == 'getId' and re.match(r'R\d$', ev.recv):
                return [(S(ev.recv), st)]
            if ev.m == 'toString' and re.match(r'R\d$', ev.recv):
                return [(K('expression'), st)]
            if e:
                if ev.m == 'parent':
                    return [(S(e['parent']) if e.get('parent') else NULL, st)]
                if ev.m == 'master':
                    return [(S(e['master']) if e.get('master') else NULL, st)]
                if ev.m in ('getUnqualifiedPredicateName', 'getPredicateName'):
                    return [(K(('' if ev.m[3] == 'U' else e['types'][0] + '.') + e['pred']), st)]
                if ev.m == 'getName':
                    return [(K(e['name']), st)]
                if ev.m == 'getRelation':
                    return [(K(e['rel']), st)]
                if ev.m == 'getToken':
                    return [(S(e['token']), st)]
                if ev.m in ('getBaseObjectType', 'getType'):
                    return [(S('type(%s)' % ev.recv), st)]
                if ev.m == 'getPlanDatabase':
                    return [(S('DB'), st)]
            if ev.m == 'getSchema':
                return [(S('SCHEMA'), st)]
            if ev.m == 'getAllObjectTypes':
                return [(S('types(%s)' % vs(ev.args[0])), st)]
            return None
        q = Seq(ck, rec(), value_of=val, sizes=(0, 1), sat=20, trip=8, maxdepth=10, scope=('MatchingEngine', 'MatchingRule'), inline=lambda f: True if short(f.get('cls', '')) in ('MatchingRule', 'MatchingEngine') else None,
                assume=dict(distinct(*[x for x in ENT] + ['R0', 'R1']), **{'this.m_cycleCount': K(1), 'R0.m_matchingEngine': S('this'), 'R1.m_matchingEngine': S('this')}))
        s = q.runs[0].st
        for c in INDEX:
            s.conts['this.' + c] = ((), True)
        for x, e in ENT.items():
            if 'types' in e:
                s.conts['types(type(%s))' % x] = (tuple(K(y) for y in e['types']), True)
        s.conts['OUT'] = ((), True)
        for i in range(len(rules)):
            q.fl.self_cls = 'MatchingRule'
            q.call(ctor, 'R%d' % i, args=(S('cfg%d' % i),))
            q.runs = [p for p in q.runs if p.outcome == 'ret']
            q.call(ini, 'R%d' % i, args=(S('this'),))
            q.fl.self_cls = 'MatchingEngine'
            q.runs = [p for p in q.runs if p.outcome == 'ret']
        return q

    def check(inst, q, rules, asked):
        bad, n = None, 0
        runs = [(p, None) for p in q.runs]
        for x in asked:
            nxt = []
            for p, _ in runs:
                f = gm['Token>' if ENT[x]['kind'] == 'Token' else 'ConstrainedVariable>']
                for p2 in q.call(f, args=(S(x), S('OUT')), paths=[p]):
                    if p2.outcome != 'ret':
                        bad = bad or ('fails for %s' % x, p2)
                        continue
                    n += 1
                    got = sorted(vs(v) for v in contents(p2, 'OUT'))
                    want = sorted('R%d' % i for i, r in enumerate(rules) if fits(r, x))
                    if got != want or not p2.st.conts['OUT'][1]:
                        bad = bad or ('for %s = %s: %s, expected %s' % (x, ENT[x], got, want), p2)
                    nxt.append((p2, None))
            runs = nxt
        ck.ob(rid, inst, bad is None and n > 0, bad[0] if bad else 'no match is computed', ck.where(gm['Token>']), bad[1].why() if bad else '')
    every = ['T', 'M', 'T2', 'VT', 'VM', 'VR', 'VO', 'VG']
    for i, r in enumerate(RULES):
        for sp in (0, 1) if set(r) & {'class', 'pred', 'var'} else (0,):
            check('rule %s%s' % (r, ' (plain spelling)' if sp else ''), mk([r], sp), [r], every)
    # the outcome of one question has no influence on the next one
    r = {'class': 'A', 'pred': 'p', 'rel': 'meets'}
    check('asked again and again %s' % r, mk([r], 0), [r], ['T', 'T', 'T2', 'T', 'M', 'T2', 'T2', 'T'])
    for a, b in (({}, {'class': 'A'}), ({'class': 'A'}, {'class': 'A', 'pred': 'p'}), ({'class': 'A', 'pred': 'q'}, {'class': 'A'}), ({'rel': 'before'}, {'rel': 'meets'}), ({'name': 'nav'}, {'name': 'drive'}), ({}, {})):
        check('rules %s and %s' % (a, b), mk([a, b], 0), [a, b], ['T', 'M', 'T2', 'VT'])
    # an entity is matched as what it is
    mg = ck.P.byq.get('VariableMatchFinder::getMatches', []) + ck.P.byq.get('TokenMatchFinder::getMatches', [])
    for g in mg:
        x, r = ('VT', {'var': 'x', 'pred': 'p'}) if 'Variable' in g['q'] else ('T', {'pred': 'p', 'class': 'A'})
        q = mk([r], 0)
        ps = [p for p in q.call(g, 'MF', args=(S('this'), S(x), S('OUT'))) if p.outcome == 'ret']
        ck.forall_paths(rid, 'match finder for a %s' % ENT[x]['kind'], g, ps, lambda p: [vs(v) for v in contents(p, 'OUT')] == ['R0'] or 'finds %s' % (contents(p, 'OUT'),), 'delegate')
    ck.ob(rid, 'match finders', len(mg) == 2, 'match finders: %s' % [g['q'] for g in mg], '')


def forwarding(ck, rid):
    PH = r'^(FlawManager|%s|%s|%s|Solver)::notify(Added|Removed|Changed)$' % (UVM, OCM, TM)
    quiet = {'UPPER_BOUND_DECREASED', 'LOWER_BOUND_INCREASED', 'VALUE_REMOVED', 'EMPTIED'}

    def of(cls, name, kind):
        f = [g for g in ck.P.byq.get('%s::%s' % (cls, name), []) if kind in str(g['p'][0])]
        if len(f) != 1:
            raise Broken('%s::%s(%s): %d' % (cls, name, kind, len(f)))
        return f[0]
    for name, kind in (('notifyRemoved', 'ConstrainedVariable>'), ('notifyRemoved', 'Token>'), ('notifyAdded', 'Token>'), ('notifyChanged', 'ConstrainedVariable>')):
        f = of('Solver', name, kind)
        for ch in (CH if name == 'notifyChanged' else (None,)):
            def val(ev, st, fl):
                if ev.m in ('isDecided', 'hasDecidedParameter'):
                    return [(K(False), st)]
                return None
            args = (S('X'),) + ((en(ch.split('::')[-1]),) if ch else ())
            for n in (0, 1, 2):
                q = Seq(ck, rec(calls=PH), self_cls='Solver', value_of=val, sizes=(0, 1), sat=10, opaque={'FlawManager::notifyRemoved', 'FlawManager::notifyAdded', 'FlawManager::notifyChanged'}, cont_init={'this.m_flawManagers': (n,)})
                ps = [p for p in q.call(f, args=args, paths=q.runs) if p.outcome == 'ret']

                def pred(p):
                    got = [t[2] for t in p.trace if t[0] == 'c' and t[1] == name and t[3][0] == 'X' and (ch is None or t[3][1] == vs(args[1]))]
                    allc = [t for t in p.trace if t[0] == 'c']
                    must = ['this.m_flawManagers[%d]' % i for i in range(n)]
                    want = sorted(must + ['this.m_masterFlawFilter']) if ch is None or ch.split('::')[-1] not in quiet else []
                    if len(allc) != len(got):
                        return 'passes on %s' % (allc,)
                    return sorted(got) == want or '%s reaches %s, expected %s' % (name, sorted(got), want)
                ck.forall_paths(rid, '%s(%s%s) to %d manager(s)' % (name, kind[:-1], ', ' + ch if ch else '', n), f, ps, pred, 'forward')
    # the listeners of the solver
    for cls, name, kind in (('Solver::CeListener', 'notifyRemoved', 'ConstrainedVariable>'), ('Solver::CeListener', 'notifyChanged', 'ConstrainedVariable>'), ('Solver::DbListener', 'notifyRemoved', 'Token>'), ('Solver::DbListener', 'notifyAdded', 'Token>')):
        f = of(cls, name, kind)
        ps, fl = ck.flow(f, rec(calls=PH), opaque={'Solver::' + name}, self_cls=cls)
        n = len(f['p'])
        ck.forall_paths(rid, '%s::%s' % (cls, name), f, [p for p in ps if p.outcome == 'ret'],
                        lambda p: [(t[1], t[2], t[3]) for t in p.trace if t[0] == 'c'] == [(name, 'this.m_solver', tuple('$%d' % i for i in range(n)))] or 'passes on %s' % (p.trace,), 'listener')


FENT = {'VG': dict(kind='Var', parent=None), 'VO': dict(kind='Var', parent='OB'), 'VT': dict(kind='Var', parent='T'), 'VR': dict(kind='Var', parent='RI'), 'T': dict(kind='Token', master=None), 'TM': dict(kind='Token', master='M'),
        'OB': dict(kind='Object'), 'RI': dict(kind='Rule', token='T'), 'M': dict(kind='Token', master=None)}
HZ = (10, 20)


def conditions(ck, rid):
    def env(d):
        """answers for entity E = d['e'] of the properties in d"""
        def dom(x):
            if re.search(r'\.(start\(\)|m_start)', x):
                return d['start']
            if re.search(r'\.(end\(\)|m_end)', x):
                return d['end']
            return HZ

        def inter(a, b):
            return max(a[0], b[0]) <= min(a[1], b[1])

        def val(ev, st, fl):
            x = FENT.get(ev.recv)
            if ev.m == 'convertable':
                y = FENT.get(vs(ev.args[0]))
                k = re.match(r'Id<(\w+)', ev.name)
                if vs(ev.args[0]) == 'null':
                    return [(K(False), st)]
                return [(K({'Token': 'Token', 'ConstrainedVariable': 'Var', 'RuleInstance': 'Rule', 'Object': 'Object'}.get(k.group(1)) == y['kind']), st)] if y and k else None
            if x and ev.m in ('parent', 'master', 'getToken', 'token'):
                y = x.get({'getToken': 'token'}.get(ev.m, ev.m))
                return [(S(y) if y else NULL, st)]
            if x and ev.m == 'isAssigned':
                return [(K(d['assigned'] == ev.recv), st)]
            if ev.m in ('isOpen', 'isInfinite', 'isSingleton'):
                return [(K(d.get(ev.m, False)), st)]
            if ev.m in ('start', 'end') and not ev.args and x:
                return [(S('%s.%s()' % (ev.recv, ev.m)), st)]
            if ev.m in ('lastDomain', 'baseDomain', 'derivedDomain', 'getLastDomain'):
                return [(S(ev.recv), st)]
            if ev.m in ('getLowerBound', 'getUpperBound') and 'Domain' in ev.name:
                return [(K(dom(ev.recv)[ev.m == 'getUpperBound']), st)]
            if ev.m == 'intersects':
                return [(K(inter(dom(ev.recv), dom(vs(ev.args[0])))), st)]
            if ev.m == 'isMember' and ev.args[0][0] == 'k':
                a = dom(ev.recv)
                return [(K(a[0] <= ev.args[0][1] <= a[1]), st)]
            if ev.m == 'isFinite':
                return [(K(True), st)]
            if ev.m == 'get' and 'Context' in ev.name:
                a = vs(ev.args[0]).strip("'")
                return [(K(HZ[a == 'horizonEnd']), st)] if a in ('horizonStart', 'horizonEnd') else None
            if ev.m == 'getContext':
                return [(S('CTX'), st)]
            if ev.m == 'constraints' and ev.args:
                s = st.cp()
                s.conts[vs(ev.args[0])] = (tuple(S('c%d' % i) for i in range(len(d['cons']))), True)
                return [(S('void'), s)]
            if ev.m == 'constraints':
                return [(S('CONS'), st)]
            if ev.m == 'getName' and re.match(r'c\d$', ev.recv):
                return [(K(d['cons'][int(ev.recv[1:])]), st)]
            if ev.m == 'CONSTRAINT_NAME':
                return [(K('guard'), st)]
            return None
        return val

    def table(cls, cases):
        f = method(ck, cls, 'test', 1)
        bad, n = None, 0
        for d, want in cases:
            a = dict(distinct(*FENT, 'CTX'), **{'this.m_policy': K(d['policy'])} if 'policy' in d else {})
            if 'policy' in d:
                a['this.m_horizonFilter.m_policy'] = K(d['policy'])
            q = Seq(ck, rec(), self_cls=cls, value_of=env(d), sizes=(0, 1), sat=20, trip=6, assume=a, scope=(cls, 'FlawFilter', 'GuardFilter', 'HorizonFilter', 'HorizonVariableFilter'),
                    inline=lambda g: True if short(g.get('cls', '')) in ('HorizonFilter', 'GuardFilter', 'FlawFilter') and short(g['q']).split('::')[-1] == 'test' else None)
            q.runs[0].st.conts['CONS'] = (tuple(S('c%d' % i) for i in range(len(d.get('cons', ())))), True)
            for p in q.call(f, args=(S(d['e']),), paths=q.runs):
                if p.outcome != 'ret' or p.val is None:
                    if want is not None:
                        bad = bad or ('fails for %s' % d, p)
                    continue
                for b, s in q.fl.truth(p.val, p.st):
                    n += 1
                    if b != want:
                        bad = bad or ('%s for %s' % ('applies' if b else 'does not apply', d), p)
        ck.ob(rid, 'condition of %s' % cls, bad is None and n > 0, bad[0] if bad else '', ck.where(f), bad[1].why() if bad and bad[1] else '')
    V, A = ('VG', 'VO', 'VT', 'VR'), ('VG', 'VO', 'VT', 'VR', 'T')
    table('ParameterFilter', [(dict(e=e), e == 'VT') for e in A])
    table('LocalVariableFilter', [(dict(e=e), e == 'VR') for e in A])
    cons = [(), ('eq',), ('guard',), ('eq', 'guard'), ('guard', 'eq'), ('eq', 'lt')]
    table('GuardFilter', [(dict(e=e, cons=c), e != 'T' and 'guard' in c) for e in A for c in cons])
    table('NotGuardFilter', [(dict(e=e, cons=c), e != 'T' and 'guard' not in c) for e in A for c in cons])
    table('InfiniteDynamicFilter', [(dict(e=e, isOpen=o, isInfinite=i), e != 'T' and (o or i)) for e in ('VT', 'VG', 'T') for o in (False, True) for i in (False, True)])
    table('SingletonFilter', [(dict(e=e, isSingleton=o), e != 'T' and not o) for e in ('VT', 'VG', 'T') for o in (False, True)])
    table('TokenMustBeAssignedFilter', [(dict(e=e, assigned=a), e in ('VT', 'VR') and a != 'T') for e in V for a in ('T', None)])
    table('MasterMustBeAssignedFilter', [(dict(e=e, assigned=a), e == 'TM' and a != 'M') for e in ('T', 'TM') for a in ('T', 'TM', 'M', None)])

    def horizon(pol, s, e):
        meet = lambda a: max(a[0], HZ[0]) <= min(a[1], HZ[1])
        inside = {'PossiblyContained': meet(s) and meet(e), 'PartiallyContained': e[0] > HZ[0] and s[1] < HZ[1], 'TotallyContained': HZ[0] <= s[0] <= HZ[1] and HZ[0] <= e[1] <= HZ[1]}[pol]
        return not inside
    iv = [(0, 5), (0, 10), (0, 15), (0, 30), (10, 10), (10, 20), (11, 19), (20, 20), (15, 25), (20, 30), (21, 30)]
    pairs = [(s, e) for s in iv for e in iv if s[0] <= e[0] and s[1] <= e[1]]
    for pol in ('PossiblyContained', 'PartiallyContained', 'TotallyContained'):
        pol_cases = [(dict(e='T', policy=pol, start=s, end=e), horizon(pol, s, e)) for s, e in pairs]
        some = pairs[::5]
        var = [(dict(e=v, policy=pol, start=s, end=e), v in ('VT', 'VR') and horizon(pol, s, e)) for v in V for s, e in some]
        table('HorizonFilter', pol_cases + var)
        table('HorizonVariableFilter', var)
