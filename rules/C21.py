"""Temporal relations and operators: the constraints a relation or an operator of the language posts."""
import itertools, os
from vf.lib import *
from vf import ir
MODULES = ['NDDL', 'PlanDatabase', 'ConstraintEngine', 'Utils']
ASSUMPTIONS = ['the constraints precedes, concurrent, temporalDistance, leq, lt, eq, ... mean what their names say',
               'whether a relation is strict is left open; relations on durations that follow from those on start and end are ignored',
               'operations that end in an exception are outside the rule']
SC = ('NDDL/component/Interpreter.cc', 'NDDL/component/Interpreter.hh', 'PlanDatabase/component/DbClientTransactionPlayer.cc')
# origin o, target t; a <= b is (a, b), a == b is both
oS, oE, tS, tE = 'o.start', 'o.end', 't.start', 't.end'


def le(*ps):
    return frozenset(ps)


def same(a, b):
    return ((a, b), (b, a))


REL = {
    'meets': le(*same(oE, tS)), 'met_by': le(*same(tE, oS)),
    'contains': le((oS, tS), (tE, oE)), 'contained_by': le((tS, oS), (oE, tE)),
    'before': le((oE, tS)), 'after': le((tE, oS)),
    'starts': le(*same(oS, tS)), 'ends': le(*same(oE, tE)),
    'parallels': le((oS, tS), (oE, tE)), 'paralleled_by': le((tS, oS), (tE, oE)),
    'ends_after': le((tE, oE)), 'ends_before': le((oE, tE)),
    'ends_after_start': le((tS, oE)), 'starts_before_end': le((oS, tE)),
    'starts_during': le((tS, oS), (oS, tE)), 'ends_during': le((tS, oE), (oE, tE)),
    'contains_start': le((oS, tS), (tS, oE)), 'contains_end': le((oS, tE), (tE, oE)),
    'starts_after': le((tS, oS)), 'starts_before': le((oS, tS)),
    'equals': le(*(same(oS, tS) + same(oE, tE))), 'equal': le(*(same(oS, tS) + same(oE, tE))),
    'any': le(),
}


def grammar(ck, g):
    """the alternatives of rule temporalRelation in a grammar"""
    p = os.path.join(ck.P.repo if hasattr(ck.P, 'repo') else os.environ.get('VF_REPO', '/repo'), 'src/PLASMA/NDDL/base/antlr', g)
    t = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(p).read(), flags=re.S)
    m = re.search(r'^temporalRelation\s*:(.*?)^\s*;', t, re.S | re.M)
    if not m:
        raise Broken('%s has no rule temporalRelation' % g)
    return set(re.findall(r"'(\w+)'", m.group(1)))


def meaning(posted):
    """(<= pairs, other constraints) of the constraints (name, args)"""
    out, other = set(), []
    for name, a in posted:
        if name in ('precedes', 'leq', 'before') and len(a) == 2:
            out.add(a)
        elif name in ('lt', 'strictlyPrecedes') and len(a) == 2:
            out.add(a)
        elif name in ('concurrent', 'eq') and len(a) == 2:
            out |= {a, a[::-1]}
        elif name == 'temporalDistance' and len(a) == 3 and a[1] in ('var[1,+inf]', 'var[0,+inf]'):
            out.add((a[0], a[2]))
        else:
            other.append('%s(%s)' % (name, ', '.join(a)))
    return out, other


def closure(s):
    """consequences, with start < end of each token"""
    s = set(s) | {(oS, oE), (tS, tE)}
    s |= {(a, a) for p in s for a in p}
    while True:
        n = {(a, d) for a, b in s for c, d in s if b == c} - s
        if not n:
            return frozenset(s)
        s |= n


def amount(t):
    m = re.match(r'^new Variable<Interval(?:Int)?Domain>@.*?Domain\((\d+),[^()]*(<\w+>)?::infinity\(\)', t)
    return 'var[%s,+inf]' % m.group(1) if m else t


def strings(ev, st, fl):
    if ev.m in ('c_str', 'data') and re.match(r"^'[^']*'$", ev.recv or ''):
        return [(K(ev.recv[1:-1]), st)]
    if ev.m == 'strcmp' and len(ev.args) == 2:
        a = [fl.deref(x, st) for x in ev.args]
        if all(x[0] == 'k' and isinstance(x[1], str) for x in a):
            return [(K((a[0][1] > a[1][1]) - (a[0][1] < a[1][1])), st)]
    return None


def interp(ck, relation, targets, where):
    """[(posted, registered, outcome)] of evaluating a relation in a rule ('rule'), a token ('token') or neither"""
    f = fn_of(ck, 'ExprRelation::eval', np=1)
    st = St()
    st.store['this.m_relation'] = K(relation)
    st.store['this.m_origin'] = S('O')
    st.conts['this.m_targets'] = (tuple(S(t) for t in targets), True)

    def val(ev, st, fl):
        if ev.m == 'getToken':
            return [(S(ev.recv.lower()), st)]
        if ev.m in ('start', 'end', 'duration') and re.match(r'^(o|t\d*)$', ev.recv):
            return [(S('%s.%s' % (ev.recv, ev.m)), st)]
        if ev.m == 'getElement':
            k = vs(ev.args[0])
            if 'PlanDatabase' in k:
                return [(S('DB'), st)]
            return [(S(where) if where != 'none' and where in k else NULL, st)]
        if ev.m == 'createConstraint':
            return [(S('c%d' % len([1 for t in st.trace if t[0] == 'post'])), st)]
        return strings(ev, st, fl)

    def record(ev, st, fl):
        if ev.kind == 'call' and ev.m == 'createConstraint':
            a = [fl.deref(x, st) for x in ev.args]
            el, complete = st.conts.get(vs(a[1]), ((), False))
            if a[0][0] != 'k' or not complete:
                raise Broken('the constraint posted for %s is not known: %s' % (relation, ev.args))
            return ('post', a[0][1], tuple(amount(vs(x)) for x in el))
        if ev.kind == 'call' and ev.m in ('addConstraint', 'addStandardConstraint'):
            return ('kept', ev.recv, vs(ev.args[0]))
    fl = Flow(ck.P, record, scope=SC, value_of=val, assume=distinct('o', 'Rule', 'Token', 'DB', *[t.lower() for t in targets]), newdisp=True)
    out = fl.run(f, st=st)
    ck.fnset |= fl.visited
    ck.paths += len(out)
    return out



def run(ck):
    r1 = ck.rule('relation', 'a relation of the language constrains the start and end of its tokens as defined, for each of its targets, and the constraints belong to the rule or token that states it', 40)
    r2 = ck.rule('replay', 'a replayed relation posts the constraints of its definition, and removing it removes the same ones', 40)
    r3 = ck.rule('operator', 'a comparison, arithmetic or logical operator posts the constraint of its meaning over its operands in order', 20)
    r4 = ck.rule('guard', 'an if posts a rule for its body under the stated condition and one for its else body under the opposite', 4)
    g = {x: grammar(ck, x) for x in ('NDDL3.g', 'NDDL3Tree.g')}
    names = sorted(set().union(*g.values()))
    if not set(names) <= set(REL):
        raise Broken('relations without a definition: %s' % sorted(set(names) - set(REL)))
    relations(ck, r1, names)
    replay(ck, r2, names)
    operators(ck, r3)
    guards(ck, r4)


def relations(ck, rid, names):
    f = fn_of(ck, 'ExprRelation::eval', np=1)
    for r in names:
        for where in ('Rule', 'Token', 'none'):
            for targets in (['T'], ['T1', 'T2']) if where == 'Rule' else (['T'],):
                bad = None
                ok = 0
                for p in interp(ck, r, targets, where):
                    if p.outcome != 'ret':
                        bad = bad or 'is refused [%s]' % p.why()[-80:]
                        continue
                    ok += 1
                    posts = [t for t in p.trace if t[0] == 'post']
                    for t in targets:
                        t = t.lower()
                        mine = [(n, tuple(re.sub(r'^%s\.' % t, 't.', x) for x in a)) for _, n, a in posts if len(targets) == 1 or any(x.startswith(t + '.') for x in a)]
                        bad = bad or wrong(r, mine)
                    kept = [t for t in p.trace if t[0] == 'kept']
                    n = len(posts) if where != 'none' else 0
                    if sorted(kept) != sorted(('kept', where, 'c%d' % (i + 1)) for i in range(n)):
                        bad = bad or 'the constraints are not all recorded with the %s: %s' % (where, kept)
                ck.ob(rid, '%s, %s, %d target' % (r, where, len(targets)), bad is None and ok, bad or 'no result', ck.where(f))


def wrong(r, posted):
    le, other = meaning(posted)
    other = [o for o in other if '.duration' not in o]
    le = {p for p in le if '.duration' not in p[0] + p[1]}
    if other:
        return '%s posts %s' % (r, ', '.join(other))
    if closure(le) != closure(REL[r]):
        return '%s posts %s, by definition it is %s' % (r, show(le), show(REL[r]))
    return None


def show(s):
    return ' and '.join('%s <= %s' % p for p in sorted(s)) or 'nothing'


PL = 'DbClientTransactionPlayer'


def player(ck, r, before):
    """state of the player's relations after [before], then r is created and then deleted: [(held before, held with r, held after, posted, dropped, outcome)]"""
    def val(ev, st, fl):
        if ev.m == 'Attribute':
            return [(K({'relation': cur[0], 'origin': 'oo', 'target': 'tt'}.get(strs(ev.args[0]), None)), st)]
        if ev.m == 'parseToken':
            return [(S({'oo': 'o', 'tt': 't'}[strs(fl.deref(ev.args[0], st))]), st)]
        if ev.m in ('start', 'end', 'duration') and ev.recv in ('o', 't'):
            return [(S('%s.%s' % (ev.recv, ev.m)), st)]
        if ev.m in ('isValid', 'isId'):
            return [(K(True), st)]
        if ev.m == 'createConstraint':
            return [(S('c:%s:%d' % (strs(fl.deref(ev.args[0], st)), len([1 for t in st.trace if t[0] == 'post']))), st)]
        if ev.m == 'getName' and ev.recv.startswith('c:'):
            return [(K(ev.recv.split(':')[1]), st)]
        return strings(ev, st, fl)

    def record(ev, st, fl):
        if ev.kind != 'call':
            return
        a = [fl.deref(x, st) for x in ev.args]
        if ev.m == 'createConstraint':
            el, complete = st.conts.get(vs(a[1]), ((), False))
            if a[0][0] != 'k' or not complete:
                raise Broken('the constraint posted for %s is not known: %s' % (r, ev.args))
            return ('post', a[0][1], tuple(vs(x) for x in el))
        if ev.m == 'deleteConstraint':
            return ('drop', vs(a[0]))
    q = Seq(ck, record, scope=SC, value_of=val, self_cls=PL, assume=distinct('o', 't', 'this.m_client', oS, oE, tS, tE, *['c:%s:%d' % (n, i) for n in ('precedes', 'concurrent') for i in range(1, 7)]))
    q.runs[0].st.conts['this.m_relations'] = ((), True)
    made, gone = fn_of(ck, PL + '::playTemporalRelationCreated', np=1), fn_of(ck, PL + '::playTemporalRelationDeleted', np=1)
    cur = [None]
    done, held = [], []

    def go(fn, x):
        cur[0] = x
        ps = q.call(fn)
        done.extend(p for p in ps if p.outcome != 'ret')
        q.runs = [p for p in ps if p.outcome == 'ret']
        if q.runs:
            held.append(holds(q.runs[0]))
    for b in before:
        go(made, b)
    held = held[-1:] or [[]]
    go(made, r)
    go(gone, r)
    return done, held, q.runs, made, gone


def holds(p):
    c = contents(p, 'this.m_relations')
    return sorted(vs(x) for x in c)


def strs(v):
    return v[1] if v[0] == 'k' else vs(v).strip("'")


def replay(ck, rid, names):
    for r in names:
        refused, held, ps, made, gone = player(ck, r, ())
        bad = ['is refused [%s]' % p.why()[-80:] for p in refused][:1]
        posts, drops = [], []
        if ps:
            posts = [t for t in ps[0].trace if t[0] == 'post']
            drops = [t for t in ps[0].trace if t[0] == 'drop']
            w = wrong(r, [t[1:] for t in posts])
            if w:
                bad.append(w)
        ck.ob(rid, '%s created' % r, not bad and ps, bad[0] if bad else 'no result', ck.where(made))
        bad = None if ps else 'no result'
        if ps:
            have = sorted('c:%s:%d' % (t[1], i + 1) for i, t in enumerate(posts))
            if len(ps) > 1:
                bad = 'does not find what was posted: %s' % ps[1].why()[-100:]
            elif sorted(t[1] for t in drops) != have:
                bad = 'posts %s, taking it back removes %s' % (have, [t[1] for t in drops])
            elif holds(ps[0]):
                bad = 'still holds %s' % holds(ps[0])
        ck.ob(rid, '%s deleted' % r, bad is None, bad or '', ck.where(gone))
        for b in names:
            if b == r or not REL[b] or not REL[r]:
                continue
            refused, held, ps, made, gone = player(ck, b, (r,))
            name = lambda xs: sorted(re.sub(r':\d+', '', x) for x in xs)
            ok = len(ps) == 1 and not refused and name(held[0]) == name(holds(ps[0]))
            ck.ob(rid, '%s deleted beside %s' % (b, r), ok, 'with %s held, %s leaves %s' % (held[0] if held else '', b, [holds(p) for p in ps]), ck.where(gone))


def operators(ck, rid):
    f = fn_of(ck, 'CExprBinary::eval', np=1)

    def alts(op, enforce, ret, times=(0, 0, 0)):
        L, R, o = 'L', 'R', ret
        two = lambda ns: {(n, a) for n in ns for a in ((L, R), (R, L))}
        if enforce and op in ('==', '!=', '<', '<=', '>', '>='):
            return {'==': two(('eq', 'concurrent')), '!=': two(('neq',)), '<': {('lt', (L, R)), ('strictlyPrecedes', (L, R))}, '>': {('lt', (R, L)), ('strictlyPrecedes', (R, L))},
                    '<=': {('leq', (L, R)), ('precedes', (L, R))}, '>=': {('leq', (R, L)), ('precedes', (R, L))}}[op]
        if op in ('+', '-', '*'):
            whole, parts = (L, (o, R)) if op == '-' else (o, (L, R))
            ns = ('mulEq',) if op == '*' else ('addEq', 'temporalDistance') if any(times) else ('addEq',)
            # temporalDistance(from, distance, to): the distance is the argument that is no time point
            point = dict(zip((L, R, o), times))
            return {(n, a + (whole,)) for n in ns for a in (parts, parts[::-1]) if n != 'temporalDistance' or not point[a[1]] or all(point[x] for x in a)}
        sym = lambda n: {(n, (o, L, R)), (n, (o, R, L))}
        return {'==': sym('testEq'), '!=': sym('testNeq'), '||': sym('testOr'), '&&': sym('testAnd'), '<': {('testLessThan', (o, L, R))}, '>': {('testLessThan', (o, R, L))},
                '<=': {('testLeq', (o, L, R)), ('testLEQ', (o, L, R))}, '>=': {('testLeq', (o, R, L)), ('testLEQ', (o, R, L))}}[op]
    for op in ('==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '||', '&&'):
        for enforce in (False, True):
            for times in itertools.product((0, 1), repeat=3):
                for given in ((False,) if op not in '+-*' else (False, True)):
                    if any(times) and op in ('||', '&&', '*') or times[2] and not given or op in '+-' and all(times):
                        continue
                    st = St()
                    st.store.update({'this.m_operator': K(op), 'this.m_enforceContext': K(enforce), 'this.m_lhs': S('XL'), 'this.m_rhs': S('XR'), 'this.m_returnArgument': S('XO') if given else NULL})

                    def val(ev, st, fl):
                        if ev.m == 'eval':
                            return [(S({'XL': 'dL', 'XR': 'dR', 'XO': 'dO'}.get(ev.recv, 'dV')), st)]
                        if ev.m == 'getValue' and ev.recv in ('dL', 'dR', 'dO', 'dV'):
                            return [(S(ev.recv[1]), st)]
                        if ev.m in ('isSingleton', 'isSingletonOptimizable') and ev.recv in ('XL', 'XR'):
                            return [(K(False), st)]
                        if ev.m == 'isTimepoint':
                            v = vs(ev.args[0])
                            return [(K({'dL': times[0], 'dR': times[1], 'dO': times[2]}.get(v, 0) == 1), st)]
                        if ev.m == 'getDataType':
                            return [(S('DT'), st)]
                        if ev.m == 'getName':
                            return [(K('int'), st)]
                        return strings(ev, st, fl)

                    def record(ev, st, fl):
                        if ev.kind == 'call' and ev.m == 'makeConstraint':
                            a = [fl.deref(x, st) for x in ev.args]
                            el, complete = st.conts.get(vs(a[2]), ((), False))
                            if a[1][0] != 'k' or not complete:
                                raise Broken('the constraint posted for %s is not known: %s' % (op, ev.args))
                            return ('post', a[1][1], tuple(vs(x) for x in el))
                    fl = Flow(ck.P, record, scope=('NDDL/component/Interpreter.cc',), value_of=val, assume=distinct('dL', 'dR', 'dO', 'dV', 'XL', 'XR', 'XO', 'DT'), opaque=lambda q: q.split('::')[-1] in ('makeConstraint', 'isTimepoint'))
                    out = fl.run(f, st=st)
                    ck.fnset |= fl.visited
                    ck.paths += len(out)
                    bad, ok = None, 0
                    for p in out:
                        if p.outcome != 'ret':
                            bad = bad or 'is refused [%s]' % p.why()[-80:]
                            continue
                        ok += 1
                        posts = [t[1:] for t in p.trace if t[0] == 'post']
                        want = alts(op, enforce, 'O' if given else 'V', times)
                        if len(posts) != 1 or posts[0] not in want:
                            bad = bad or 'posts %s' % (posts,)
                        if not (enforce and op in ('==', '!=', '<', '<=', '>', '>=')) and vs(p.val) != ('dO' if given else 'dV'):
                            bad = bad or 'the result is %s' % vs(p.val)
                    ck.ob(rid, '%s%s, time points %d%d%d%s' % (op, ' stated' if enforce else '', times[0], times[1], times[2], ', into a given variable' if given else ''), bad is None and ok, bad or 'no result', ck.where(f))


def guards(ck, rid):
    f = fn_of(ck, 'ExprIf::doEval', np=1)
    for op in ('==', 'equals', '!='):
        for els in (False, True):
            st = St()
            st.store.update({'this.m_guard': S('G')})
            st.conts['this.m_ifBody'] = ((S('b'),), True)
            st.conts['this.m_elseBody'] = ((S('e'),) if els else (), True)

            def val(ev, st, fl):
                if ev.recv == 'G' and ev.m in ('getLhs', 'getRhs'):
                    return [(S('X' + ev.m[3]), st)]
                if ev.recv == 'G' and ev.m == 'getOperator':
                    return [(K(op), st)]
                if ev.m == 'eval' and ev.recv in ('XL', 'XR'):
                    return [(S('d' + ev.recv[1]), st)]
                if ev.m == 'getVariableReferences':
                    return [(K(None), st)]
                if ev.m == 'getValue' and ev.recv in ('dL', 'dR'):
                    return [(S(ev.recv[1]), st)]
                if ev.m in ('lastDomain', 'derivedDomain', 'baseDomain') and ev.recv in ('L', 'R'):
                    return [(S(ev.recv + '.dom'), st)]
                if ev.m == 'getRuleInstance':
                    return [(S('RI'), st)]
                return strings(ev, st, fl)
            kinds = {}

            def record(ev, st, fl):
                if ev.kind == 'new' and 'InterpretedRuleInstance' in ev.name:
                    a = [fl.deref(x, st) for x in ev.args]
                    return ('rule', tuple(x[1] if x[0] == 'k' else vs(x) for x in a), tuple(vs(x) for x in st.conts.get(vs(a[-1]), ((), 0))[0]))
                if ev.kind == 'call' and ev.m == 'addChildRule':
                    return ('child', ev.recv)
            fl = Flow(ck.P, record, scope=('NDDL/component/Interpreter.cc',), value_of=val, assume=distinct('G', 'XL', 'XR', 'dL', 'dR', 'RI'), opaque=lambda q: q.endswith('::getVariableReferences'))
            out = fl.run(f, st=st)
            ck.fnset |= fl.visited
            ck.paths += len(out)
            bad, ok = None, 0
            for p in out:
                if p.outcome != 'ret':
                    bad = bad or 'is refused'
                    continue
                ok += 1
                rules = [t for t in p.trace if t[0] == 'rule']
                kids = [t for t in p.trace if t[0] == 'child' and t[1] == 'RI']
                pos = op != '!='
                want = [('L', 'R.dom', pos, 'b')] + ([('L', 'R.dom', not pos, 'e')] if els else [])
                got = [(r[1][1], r[1][2], r[1][3], r[2][0] if r[2] else '?') for r in rules if len(r[1]) >= 6]
                if sorted(got) != sorted(want) or len(kids) != len(want):
                    bad = bad or 'makes the rules %s (%d added)' % (got or rules, len(kids))
            ck.ob(rid, 'if %s%s' % (op, ' with else' if els else ''), bad is None and ok, bad or 'no result', ck.where(f))
