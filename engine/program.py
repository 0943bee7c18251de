"""Front end: parse every translation unit of /repo's current tree with the
extractor and load the resulting type-checked program."""
import os, sys, json, glob, hashlib, subprocess, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')

# need CGAL, which is not installed and not worth stubbing
SKIP = {'src/operators/Projection.cpp', 'src/operators/SimplifyPointcloud.cpp',
        'src/operators/SurfaceReconstruction.cpp'}


class AnalysisError(Exception):
    """the check cannot give an answer (exit status 2)"""


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def ensure_extractor():
    src = [os.path.join(VERIF, 'extractor', f) for f in ('extract.cpp', 'build.sh')]
    out = os.path.join(CACHE, 'extract-' + _hash(src))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        r = subprocess.run(['bash', src[1], out], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    return out


def repo_files(repo):
    fs = []
    for d in ('src', 'icp'):
        for root, _, names in os.walk(os.path.join(repo, d)):
            for n in names:
                if n.endswith(('.cpp', '.hpp', '.h', '.c', '.hh')):
                    fs.append(os.path.join(root, n))
    return fs


def units(repo):
    us = []
    for f in sorted(repo_files(repo)):
        if f.endswith('.cpp') and os.path.relpath(f, repo) not in SKIP:
            us.append(f)
    return us


class Program:
    def __init__(self):
        self.funcs = {}      # (q, sig) -> fn dict
        self.byname = {}     # q -> [fn]
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.units = []
        self.unit_errors = {}
        self.derived = {}    # class -> direct subclasses
        self.overriders = {}  # q of base method -> set of q overriding it

    def add_unit(self, path, data):
        self.units.append(path)
        if data['errors']:
            self.unit_errors[path] = data['errors']
        for f in data['functions']:
            if f.get('intern'):
                # internal-linkage functions of the same name may differ per TU
                key = (f['q'], f['sig'])
                if key in self.funcs and self.funcs[key]['file'] != f['file']:
                    key = (f['q'] + '@' + os.path.basename(f['file']), f['sig'])
                    f['q'] = key[0]
            key = (f['q'], f['sig'])
            if key in self.funcs:
                continue
            f['unit'] = path
            self.funcs[key] = f
            self.byname.setdefault(f['q'], []).append(f)
        for r in data['records']:
            if r['q'] not in self.records or len(r['methods']) > len(self.records[r['q']]['methods']):
                self.records[r['q']] = r
        for g in data['globals']:
            if g['q'] not in self.globals or 'init' in g:
                self.globals[g['q']] = g
        for e in data['enums']:
            self.enums[e['q']] = {v['n']: v['v'] for v in e['vals']}

    def link(self):
        for q, r in self.records.items():
            for b in r['bases']:
                self.derived.setdefault(b, []).append(q)
        for f in self.funcs.values():
            for o in f.get('overrides', ()):
                self.overriders.setdefault(o, set()).add(f['q'])
        for q, r in self.records.items():
            for m in r['methods']:
                for o in m.get('overrides', ()):
                    self.overriders.setdefault(o, set()).add(q + '::' + m['n'])

    def subclasses(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            for d in self.derived.get(c, ()):
                if d not in out:
                    out.append(d); todo.append(d)
        return out

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            r = self.records.get(c)
            for b in (r['bases'] if r else ()):
                if b not in out:
                    out.append(b); todo.append(b)
        return out

    def find(self, q, sig=None):
        fs = self.byname.get(q, [])
        if sig is not None:
            fs = [f for f in fs if f['sig'] == sig]
        return fs

    def one(self, q, sig=None, pred=None):
        fs = self.find(q, sig)
        if pred:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise AnalysisError('anchor vanished: no definition of %s%s' % (q, sig or ''))
        return fs[0]

    def rel(self, path):
        return os.path.relpath(path, REPO) if path.startswith(REPO + '/') else path


def load(only=None, drivers=True, repo=None):
    """only: predicate on the path relative to the repository, or None for all units"""
    repo = repo or REPO
    ext = ensure_extractor()
    inc = os.path.join(CACHE, 'inc-' + hashlib.sha256(repo.encode()).hexdigest()[:8])
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, 'envire')
    if not (os.path.islink(link) and os.readlink(link) == os.path.join(repo, 'src')):
        if os.path.islink(link):
            os.unlink(link)
        try:
            os.symlink(os.path.join(repo, 'src'), link)
        except FileExistsError:
            pass
    stubs = os.path.join(VERIF, 'stubs')
    stubfiles = [os.path.join(r, n) for r, _, ns in os.walk(stubs) for n in ns]
    drv = sorted(glob.glob(os.path.join(VERIF, 'drivers', '*.cpp')))
    allfiles = repo_files(repo)
    if not allfiles:
        raise AnalysisError('no sources under ' + repo)
    headers = [f for f in allfiles if not f.endswith('.cpp')]
    hh = _hash(headers + stubfiles + [os.path.join(VERIF, 'extractor', 'extract.cpp')])
    us = [u for u in units(repo) if only is None or only(os.path.relpath(u, repo))]
    if drivers:
        us += [d for d in drv if only is None or only('drivers/' + os.path.basename(d))]
    outdir = os.path.join(CACHE, 'ast')
    os.makedirs(outdir, exist_ok=True)
    flags = ['-x', 'c++', '-std=gnu++14', '-w', '-DBOX2D_2_4', '-resource-dir',
             '/usr/lib/llvm-18/lib/clang/18', '-I' + inc, '-I' + os.path.join(repo, 'src'), '-I' + repo,
             '-I' + stubs, '-I/usr/include/eigen3', '-ferror-limit=0', '-UNDEBUG']
    roots = os.path.join(repo, 'src') + ',' + os.path.join(repo, 'icp')

    def one(u):
        # units may include each other's .cpp only through headers, so the key is header set + unit
        out = os.path.join(outdir, hashlib.sha256((hh + u).encode()).hexdigest()[:12] + '-' + _hash([u]) + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = subprocess.run([ext, tmp, u, roots, '--'] + flags, capture_output=True, text=True)
            if not os.path.exists(tmp):
                return u, None, r.stderr[-1500:]
            if r.stderr.strip() and os.environ.get('VERIF_VERBOSE'):
                sys.stderr.write(r.stderr)
            os.replace(tmp, out)
        with open(out) as f:
            return u, json.load(f), ''

    P = Program()
    P.repo = repo
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, us))
    for u, d, err in res:
        if d is None:
            raise AnalysisError('cannot parse %s: %s' % (u, err))
        P.add_unit(u, d)
    P.link()
    # keep the cache small
    def age(f):
        try:
            return os.path.getmtime(f)
        except OSError:
            return 0
    fs = sorted(glob.glob(os.path.join(outdir, '*.json')), key=age)
    for f in fs[:-600]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return P


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print(len(P.units), 'units', len(P.funcs), 'functions', len(P.records), 'records', P.unit_errors, '%.1fs' % (time.time() - t))
