"""Build the exporter, run it over /repo's current sources, load the program."""
import os, re, sys, json, hashlib, subprocess, shutil, tempfile, pickle, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src/PLASMA'
MODULES = ['TinyXml', 'Utils', 'ConstraintEngine', 'PlanDatabase', 'RulesEngine',
           'TemporalNetwork', 'NDDL', 'Solvers', 'Resource', 'ANML', 'System']


class Broken(Exception):
    """The analysis itself cannot give an answer (not a violation)."""


def _builddir():
    d = os.environ.get('VF_BUILD') or VERIF + '/build'
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        d = '/tmp/vf-build-%d' % os.getuid()
        os.makedirs(d, exist_ok=True)
        return d


BUILD = _builddir()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    src = VERIF + '/tool/cxxir.cc'
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    exe = '%s/cxxir-%s' % (BUILD, h)
    if os.path.exists(exe):
        return exe
    flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    tmp = exe + '.%d.tmp' % os.getpid()
    r = sh(['clang++-18'] + flags + ['-O1', '-fno-rtti', '-w', src, '-o', tmp, '-L/usr/lib/llvm-18/lib',
            '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'])
    if r.returncode:
        raise Broken('cannot build cxxir: ' + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


def module_sources(m):
    """The .cc files of a module that its CMakeLists.txt compiles (tests excluded)."""
    cm = SRC + '/' + m + '/CMakeLists.txt'
    txt = re.sub(r'#.*', '', open(cm).read())
    out = []
    for kind, sub in (('root', ''), ('base', 'base/'), ('component', 'component/')):
        for mm in re.finditer(r'set\(%s_sources\s+([^)]*)\)' % kind, txt):
            for f in mm.group(1).replace('"', ' ').split():
                if f.endswith(('.cc', '.cpp')):
                    p = '%s/%s/%s%s' % (SRC, m, sub, f)
                    if os.path.exists(p):
                        out.append(p)
    return out


def _h(p):
    with open(p, 'rb') as fp:
        return hashlib.sha1(fp.read()).hexdigest()


def headers_hash(extra=''):
    """hash over every header (and grammar) any unit may include"""
    h = hashlib.sha1(extra.encode())
    for root, ds, fs in os.walk(SRC):
        ds[:] = sorted(d for d in ds if d not in ('test', 'build'))
        for f in sorted(fs):
            if f.endswith(('.hh', '.h', '.g', '.hpp', '.inl')):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(_h(p).encode())
    return h.hexdigest()[:16]


def antlr(gen):
    os.makedirs(gen, exist_ok=True)
    jar = REPO + '/ext/lib/antlr-3.jar'
    for g in ('NDDL3.g', 'NDDL3Tree.g'):
        r = sh(['java', '-cp', jar, 'org.antlr.Tool', '-fo', gen, SRC + '/NDDL/base/antlr/' + g], cwd=gen)
    if not os.path.exists(gen + '/NDDL3Tree.c'):
        raise Broken('antlr failed: ' + r.stdout[-1500:])


CHUNK = 2


def extract(modules=None):
    """Returns {module: [record list pickles]}, extracting what is not cached.
    A cache entry is keyed by the exporter, all headers and grammars, and the unit texts."""
    modules = modules or MODULES
    exe = build_tool()
    hh = headers_hash(os.path.basename(exe) + SRC)
    top = '%s/ir' % BUILD
    os.makedirs(top, exist_ok=True)
    gen = '%s/gen-%s' % (BUILD, hh)
    if any(m in ('NDDL', 'Resource', 'Solvers', 'System', 'ANML') for m in modules) and not os.path.exists(gen + '/.ok'):
        antlr(gen)
        open(gen + '/.ok', 'w').close()
    inc = []
    for m in MODULES:
        for s in ('', '/base', '/component'):
            if os.path.isdir(SRC + '/' + m + s):
                inc.append('-I' + SRC + '/' + m + s)
    inc += ['-I' + SRC + '/Resource/component/Solvers', '-I' + SRC + '/Resource/component/NDDL', '-I' + gen]
    flags = ['-std=gnu++17', '-w', '-DTIXML_USE_STL=1', '-DEUROPA_64_BIT_PLATFORM', '-m64',
             '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wno-error', '-ferror-limit=0'] + inc
    jobs = []
    outs = {}
    for m in modules:
        files = module_sources(m)
        if m == 'NDDL':
            files.append(gen + '/NDDL3Tree.c')
        outs[m] = []
        for i in range(0, len(files), CHUNK):
            fs = files[i:i + CHUNK]
            k = hashlib.sha1((hh + ''.join(f + _h(f) for f in fs)).encode()).hexdigest()[:16]
            o = '%s/%s-%s.pkl' % (top, m, k)
            outs[m].append(o)
            if not os.path.exists(o):
                jobs.append((o, fs))

    def run(j):
        o, fs = j
        tmp = o + '.%d.tmp' % os.getpid()
        r = sh([exe, tmp, SRC + ':' + gen] + fs + ['--'] + ['-x', 'c++'] + flags, cwd=BUILD)
        if r.returncode:
            return (o, r.stdout[-3000:])
        with open(tmp) as f:
            recs = [json.loads(l) for l in f]
        with open(tmp + '2', 'wb') as f:
            pickle.dump(recs, f, protocol=4)
        os.rename(tmp + '2', o)
        os.unlink(tmp)
        return None
    if jobs:
        with ThreadPoolExecutor(8) as ex:
            bad = [b for b in ex.map(run, jobs) if b]
        if bad:
            raise Broken('parse failed: %s: %s' % bad[0])
    for o in (x for v in outs.values() for x in v):
        try:
            os.utime(o)
        except OSError:
            pass
    try:
        # forget entries not used for a while
        for f in os.listdir(top):
            p = os.path.join(top, f)
            if time.time() - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
    except OSError:
        pass
    return outs


def literal(e):
    """value of an integral constant expression made of literals, or None"""
    k = e.get('k')
    if k in ('i', 'b', 'bool', 'enum') and isinstance(e.get('v'), (int, bool)):
        return e['v']
    if k in ('cast', 'paren') and 'e' in e:
        return literal(e['e'])
    if k == 'un' and e['op'] == '-':
        v = literal(e['e'])
        return None if v is None else -v
    return None


def short(q):
    return q.replace('EUROPA::SOLVERS::', '').replace('EUROPA::', '')


class Fns(dict):
    """functions by USR; a declaration may differ from its definition in top-level const of parameters"""
    PC = re.compile(r'#1(?=[*&$A-Za-z])')

    def alias(self, u):
        a = getattr(self, '_al', None)
        if a is None or self._n != len(self):
            self._n = len(self)
            a = self._al = {}
            for k in self:
                a.setdefault(self.PC.sub('#', k), k)
        return a.get(self.PC.sub('#', u)) if u else None

    def get(self, u, d=None):
        if dict.__contains__(self, u):
            return dict.__getitem__(self, u)
        k = self.alias(u)
        return d if k is None else dict.__getitem__(self, k)

    def __contains__(self, u):
        return dict.__contains__(self, u) or self.alias(u) is not None

    def __missing__(self, u):
        k = self.alias(u)
        if k is None:
            raise KeyError(u)
        return dict.__getitem__(self, k)


class Program:
    def __init__(self, modules=None):
        outs = extract(modules)
        self.fns = Fns()      # usr -> fn
        self.byq = {}      # short qualified name -> [fn]
        self.cls = {}      # short name -> class rec
        self.gv = {}
        self.consts = {}                    # integral static constants -> value
        self.enums, self.enumc = {}, {}      # enumerations; constant -> value
        self.tus = 0
        for m, os_ in outs.items():
            for o in os_:
                with open(o, 'rb') as f:
                    recs = pickle.load(f)
                for r in recs:
                    k = r['R']
                    if k == 'fn':
                        if dict.__contains__(self.fns, r['u']) and not r.get('fstatic'):
                            continue
                        u = r['u']
                        if dict.__contains__(self.fns, u):
                            u = u + '@' + r['file']
                            if dict.__contains__(self.fns, u):
                                continue
                        r['m'] = m
                        r['sq'] = short(r['q'])
                        self.fns[u] = r
                        self.byq.setdefault(r['sq'], []).append(r)
                    elif k == 'cls':
                        self.cls.setdefault(short(r['q']), r)
                    elif k == 'enum':
                        self.enums[short(r['q'])] = r
                        for n, v in r['c']:
                            self.enumc[short(n)] = v
                    elif k == 'gv':
                        self.gv[short(r['q'])] = r
                        if r['t'].startswith('const ') and '*' not in r['t'] and '&' not in r['t']:
                            v = literal(r['e'])
                            if v is not None:
                                self.consts[short(r['q'])] = v
                    elif k == 'end':
                        if r['err']:
                            raise Broken('compile errors in ' + o)
                        self.tus += r['tu']
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get('ov', []):
                self.overriders.setdefault(o, []).append(f)
        self.sub = {}
        for q, c in self.cls.items():
            for b in c['bases']:
                self.sub.setdefault(short(b), set()).add(q)

    def fn(self, q, np=None, ptypes=None, file=None):
        """The unique definition with this (short) qualified name."""
        c = self.byq.get(q, [])
        if np is not None:
            c = [f for f in c if len(f['p']) == np]
        if ptypes is not None:
            c = [f for f in c if len(f['p']) == len(ptypes) and all(t in p['t'] for t, p in zip(ptypes, f['p']))]
        if file is not None:
            c = [f for f in c if f['file'].endswith(file)]
        if len(c) != 1:
            raise Broken('anchor %s(%s): %d definitions' % (q, ptypes if ptypes is not None else np, len(c)))
        return c[0]

    def subclasses(self, q, strict=False):
        out, st = set(), [q]
        while st:
            x = st.pop()
            for y in self.sub.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        if not strict:
            out.add(q)
        return out

    def bases(self, q):
        out, st = [q], [q]
        while st:
            x = st.pop()
            c = self.cls.get(x)
            for b in (c['bases'] if c else []):
                b = short(b)
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def resolve_method(self, cls, usr_or_name, np=None, args=None):
        """Definition of the method named like usr's that an object of class cls would run."""
        base = self.fns.get(usr_or_name)
        name = base['sq'].split('::')[-1] if base else usr_or_name
        for b in self.bases(cls):
            fs = [f for f in self.byq.get(b + '::' + name, []) if (len(f['p']) == len(base['p']) if base is not None else np is None or len(f['p']) == np)]
            if base is not None and len(fs) > 1:
                fs = [f for f in fs if [p['t'] for p in f['p']] == [p['t'] for p in base['p']]] or fs
            if base is None and args and len(fs) > 1:
                bare = lambda t: re.sub(r'\bconst\b|[&\s]|\w+::', '', t or '')
                at = [bare(a.get('t')) for a in args]
                fs = [f for f in fs if len(f['p']) == len(at) and all(not t or t == bare(p['t']) for t, p in zip(at, f['p']))] or fs
            if fs:
                return fs[0]
        return base


def walk(n):
    """All dict nodes below n (pre-order)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)


def rel(p):
    return p.replace(REPO + '/', '')
