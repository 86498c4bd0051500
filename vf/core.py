"""Check harness: obligations, violations, evidence, known findings."""
import json, os, sys, time, importlib, traceback
from . import ir
from .ir import Broken, Program, VERIF, rel, short
from .flow import Flow, vs, K, S, NULL, TRUE, FALSE, St, Path, Ev

TRUSTED = ['clang 18 front end (type checking, overload resolution)',
           'tool/cxxir.cc (AST export)', 'vf/flow.py (dataflow engine)']


class Check:
    def __init__(self, pid, modules, level='other'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.P = Program(modules)
        self.modules = modules
        self.obs = []          # (rule, instance, ok, where)
        self.viol = []         # dict
        self.fnset = set()
        self.paths = 0
        self.forks = 0
        self.rules = {}
        self.counters = {}
        self.minimum = {}
        self.assumptions = []
        self.partial = None

    # --- program access
    def fn(self, q, np=None, ptypes=None, file=None):
        return self.P.fn(q, np, ptypes, file)

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minimum[rid] = minimum
        return rid

    def ob(self, rid, inst, ok, msg='', where=None, path=None):
        """one obligation of rule rid; ok False -> violation"""
        self.obs.append((rid, inst, bool(ok)))
        if not ok:
            self.viol.append(dict(rule=rid, instance=inst, message=msg, where=where or '', path=path or ''))
        return ok

    def where(self, f, line=None):
        return '%s:%s (%s)' % (rel(f['file']), line or f['line'], f['sq'])

    def flow(self, f, record, **kw):
        """Run the dataflow on function f; returns (paths, Flow)"""
        run_kw = {k: kw.pop(k) for k in ('this', 'args', 'st') if k in kw}
        fl = Flow(self.P, record, **kw)
        ps = fl.run(f, **run_kw)
        self.fnset |= fl.visited
        self.paths += len(ps)
        self.forks += fl.nforks
        return ps, fl

    def forall_paths(self, rid, inst, f, ps, pred, msg, outcome=('ret',), need=1):
        """pred(path) -> True / error text. One obligation over all paths with the outcome."""
        sel = [p for p in ps if p.outcome in outcome]
        if len(sel) < need:
            self.ob(rid, inst, False, 'the operation can no longer complete: none of its %d paths reaches the exit the rule speaks about (%s)' % (len(ps), ', '.join(outcome)), self.where(f))
            return False
        bad = None
        for p in sel:
            try:
                r = pred(p)
            except (IndexError, KeyError) as e:
                r = 'an event the rule requires is missing on this path (%r)' % e
            if r is not True:
                bad = (p, r)
                break
        if bad:
            p, r = bad
            self.ob(rid, inst, False, '%s%s' % (msg, (': ' + str(r)) if r else ''), self.where(f),
                    'exit %s under [%s]; events: %s' % (p.outcome, p.why(), fmt_trace(p.trace)))
        else:
            self.ob(rid, inst, True)
        return bad is None

    # --- finish
    def finish(self):
        pid = self.pid
        for r, m in ({} if self.partial or self.viol else self.minimum).items():
            n = sum(1 for o in self.obs if o[0] == r)
            if n < m:
                raise Broken('rule %s matched %d instances, fewer than the %d confirmed' % (r, n, m))
        known = load_known(pid)
        new, old = [], []
        for v in self.viol:
            k = '%s|%s' % (v['rule'], v['instance'])
            hit = next((x for x in known if x == k), None)
            (old if hit else new).append(v)
        for v in old:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, v['rule'] + '|' + v['instance'], v['message']))
        ed = VERIF + '/evidence'
        os.makedirs(ed, exist_ok=True)
        per = {}
        for r, i, ok in self.obs:
            d = per.setdefault(r, dict(instances=0, held=0))
            d['instances'] += 1
            d['held'] += ok
        nob = len(self.obs)
        ndis = sum(1 for o in self.obs if o[2])
        cov = dict(
            explanation='Static analysis of the type-checked source in /repo: %d translation units parsed, %d functions traversed path-sensitively, '
                        '%d abstract paths, %d branch splits. Every rule instance is one obligation.' % (self.P.tus, len(self.fnset), self.paths, self.forks),
            obligations=nob, discharged=ndis,
            functions_analysed=len(self.fnset), abstract_paths=self.paths, branch_splits=self.forks,
            rules={r: dict(text=t, **per.get(r, {})) for r, t in self.rules.items()},
            samples=['%s: %s' % (r, i) for r, i, ok in self.obs[:: max(1, nob // 25)]][:40],
            functions=sorted(short(self.P.fns[u]['q']) for u in self.fnset if u in self.P.fns)[:400],
            trusted_base=TRUSTED, checker_cmd='python3 check.py ' + pid)
        cov.update(self.counters)
        ev = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open('%s/%s.json' % (ed, pid), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = '%s/replay-%s.json' % (ed, pid)
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1)
            for v in new[:12]:
                print('%s: rule %s [%s] %s' % (v['where'], v['rule'], v['instance'], v['message']))
                if v['path']:
                    print('    ' + v['path'][:900])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        print('OK property=%s rules=%d obligations=%d discharged=%d functions=%d paths=%d wall=%.1fs' % (
            pid, len(self.rules), nob, ndis, len(self.fnset), self.paths, time.time() - self.t0))
        return 0


def fmt_trace(tr):
    out = []
    for t in tr:
        xs = []
        for x in t[1:]:
            if isinstance(x, tuple) and len(x) >= 2 and isinstance(x[0], str) and x[0] in ('k', 's', 'ref', 'it', 'pair'):
                xs.append(vs(x))
            elif isinstance(x, tuple):
                xs.append(','.join(vs(y) if isinstance(y, tuple) and y else str(y) for y in x))
            else:
                xs.append(str(x))
        out.append('%s(%s)' % (t[0], ' '.join(xs)))
    return ' -> '.join(out)[:1500] or '(none)'


def load_known(pid):
    p = VERIF + '/known-findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].split(' :: ')[0].strip())
    return out


def main(argv):
    pid = argv[1]
    try:
        mod = importlib.import_module('rules.' + pid)
        ck = Check(pid, getattr(mod, 'MODULES', None), getattr(mod, 'LEVEL', 'other'))
        ck.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        try:
            mod.run(ck)
        except Exception as e:
            if not ck.viol:
                raise
            ck.partial = repr(e)      # a rule already failed: report that, not the breakage
        return ck.finish()
    except Broken as b:
        print('ANALYSIS-BROKEN %s: %s' % (pid, b))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN %s: internal error' % pid)
        return 3
