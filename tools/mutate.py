"""Systematic small changes (mutants) of the source, to find gaps of the checks.

python3 tools/mutate.py gen OUT.json [files...]     list mutants
python3 tools/mutate.py run OUT.json WORKERS        tests, then the checks that encode the function; appends results
"""
import ast, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
SRC = '/repo/products/ellipy/'
PY = '/opt/pypyenv/bin/python'
TESTS = [('elltool/', ['ellipy/elltool']), ('gras/la', ['ellipy/gras/la', 'ellipy/elltool']), ('gras/gen', ['ellipy/gras/gen']),
         ('gras/geom/tri', ['ellipy/gras/geom/tri', 'ellipy/elltool']), ('gras/geom/sup', ['ellipy/gras/geom/sup']),
         ('gras/geom/', ['ellipy/gras/geom', 'ellipy/elltool']), ('gras/sym', ['ellipy/gras/sym']),
         ('gen/', ['ellipy/gen', 'ellipy/elltool'])]
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'maximum': 'minimum', 'minimum': 'maximum', 'argmax': 'argmin',
         'vstack': 'hstack', 'hstack': 'vstack', 'ones': 'zeros', 'zeros': 'ones', 'cos': 'sin', 'sin': 'cos', 'floor': 'ceil',
         'logical_and': 'logical_or', 'logical_or': 'logical_and', 'eigvalsh': 'eigvals'}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.off = [0]
        for x in src.split('\n'):
            self.off.append(self.off[-1] + len(x) + 1)

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def put(self, a, b, new, kind):
        if self.fn:
            self.out.append(dict(a=a, b=b, new=new, old=self.src[a:b], kind=kind, fn=list(self.fn), line=self.src.count('\n', 0, a) + 1))

    def rep(self, n, new, kind):
        a, b = self.pos(n)
        self.put(a, b, new, kind)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for x in n.body:
            self.visit(x)
        self.fn.pop()

    def visit_Lambda(self, n):
        self.visit(n.body)

    def visit_Raise(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.put(self.pos(n.left)[1], self.pos(n.comparators[0])[0], ' %s ' % o, 'cmp') if self.src[self.pos(n.left)[1]] == ' ' else None
        self.generic_visit(n)

    def visit_BinOp(self, n):
        a, b = self.pos(n.left)[1], self.pos(n.right)[0]
        seg = self.src[a:b]
        if type(n.op) in BIN:
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
            if seg.count(sym) == 1:
                self.put(a, b, seg.replace(sym, BIN[type(n.op)]), 'bin')
        elif isinstance(n.op, ast.MatMult):
            self.rep(n, '(%s) @ (%s)' % (self.text(n.right), self.text(n.left)), 'swap')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        w = ' and ' if isinstance(n.op, ast.And) else ' or '
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, '(' + o.join('(%s)' % self.text(v) for v in n.values) + ')', 'bool')
        for i in range(len(n.values)):
            self.rep(n, '(' + w.join('(%s)' % self.text(v) for j, v in enumerate(n.values) if j != i) + ')', 'dropcond')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.rep(n, '(%s)' % self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.rep(n, str(not n.value), 'const')
        elif isinstance(n.value, (int, float)):
            for v in ([n.value + 1] + ([n.value - 1] if n.value else [])) if isinstance(n.value, int) else [n.value * 2, n.value + 0.5]:
                self.rep(n, '(%r)' % v if v < 0 else repr(v), 'const')

    def visit_Attribute(self, n):
        if n.attr == 'T':
            self.rep(n, self.text(n.value), 'noT')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in NAMES:
                a, b = self.pos(f)
                self.put(b - len(f.attr), b, NAMES[f.attr], 'name')
            if f.attr in ('copy', 'abs', 'sqrt', 'get_copy', 'flatten', '_get_single_copy', 'squeeze', 'sort', 'unique', 'real'):
                if len(n.args) >= 1:
                    self.rep(n, self.text(n.args[0]), 'drop')
                elif not n.args:
                    self.rep(n, self.text(f.value), 'drop')
        elif isinstance(f, ast.Name) and f.id in ('abs', 'list', 'tuple', 'throw_error'):
            if f.id == 'throw_error':
                return
            if n.args:
                self.rep(n, self.text(n.args[0]), 'drop')
        if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
            self.put(self.pos(n.args[0])[0], self.pos(n.args[1])[1], self.text(n.args[1]) + ', ' + self.text(n.args[0]), 'swapargs')
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, 'True', 'if')
        self.rep(n.test, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, '(%s)' % self.text(n.body), 'if')
        self.rep(n, '(%s)' % self.text(n.orelse), 'if')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.rep(n, 'pass', 'stmt')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, 'pass', 'stmt')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            t = self.text(n.value)
            if not t.startswith('logger'):
                self.rep(n, 'pass', 'stmt')
        self.generic_visit(n)


def gen(out, files):
    res = []
    for f in files or subprocess.run(['git', 'ls-files', '*.py'], cwd=SRC, capture_output=True, text=True).stdout.split():
        if 'test' in f:
            continue
        src = open(SRC + f).read()
        v = V(src)
        for n in ast.parse(src).body:
            v.visit(n) if not isinstance(n, ast.ClassDef) else [v.visit(x) for x in n.body]
        seen = set()
        for m in v.out:
            t = src[:m['a']] + m['new'] + src[m['b']:]
            h = hashlib.md5(t.encode()).hexdigest()
            if h in seen or t == src:
                continue
            seen.add(h)
            try:
                ast.parse(t)
            except SyntaxError:
                continue
            m['file'] = f
            m['id'] = h[:8]
            res.append(m)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(res), 'mutants')
    c = {}
    for m in res:
        c[m['file']] = c.get(m['file'], 0) + 1
    print(c)


def checks_of(m):
    """checks whose evidence lists the innermost function that has its own line in the coverage, cheapest first"""
    out = []
    for e in sorted(glob.glob(ROOT + '/evidence/*.json')):
        d = json.load(open(e))
        fs = set(d['coverage'].get('functions_encoded', []))
        if any('ellipy/%s:%s' % (m['file'], x) in fs for x in m['fn']):
            out.append((len(fs), d['property']))
    return [p for _, p in sorted(out)]


def sh(cmd, cwd, t, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ''


def run(out, workers, phase):
    ms = json.load(open(out))
    logf = out + '.res'
    done = {}
    if os.path.exists(logf):
        for x in open(logf):
            x = json.loads(x)
            done[x['id']] = x
    log = open(logf, 'a')
    q = Queue()
    base = tempfile.mkdtemp(prefix='mutw_')
    for k in range(workers):
        w = '%s/%d' % (base, k)
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        q.put(w)

    def one(m):
        w = q.get()
        try:
            p = w + '/products/ellipy/' + m['file']
            src = open(SRC + m['file']).read()
            if src[m['a']:m['b']] != m['old']:
                return
            open(p, 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
            try:
                r = dict(done.get(m['id'], dict(id=m['id'])))
                if phase == 'tests':
                    ts = next(t for f, t in TESTS if m['file'].startswith(f))
                    rc, o = sh([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + ts, w + '/products', 400)
                    r['tests'] = 'pass' if rc == 0 else 'fail'
                else:
                    r['checks'] = {}
                    for c in checks_of(m):
                        rc, o = sh([os.path.abspath(ROOT) + '/run.sh', c, '--tier', 'quick', '--no-evidence'], w, 900, dict(ELLSYM_REPO=w))
                        r['checks'][c] = rc
                        if rc == 1:
                            break
                done[m['id']] = r
                log.write(json.dumps(r) + '\n')
                log.flush()
            finally:
                open(p, 'w').write(src)
        finally:
            q.put(w)

    if phase == 'tests':
        todo = [m for m in ms if m['id'] not in done]
    else:
        todo = [m for m in ms if done.get(m['id'], {}).get('tests') == 'pass' and 'checks' not in done[m['id']]]
    random.Random(int(os.environ.get('MSEED', '1'))).shuffle(todo)
    if os.environ.get('MMAX'):
        todo = todo[:int(os.environ['MMAX'])]
    print(len(todo), 'to do', flush=True)
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(base)


def show(out):
    ms = {m['id']: m for m in json.load(open(out))}
    n = {}
    for x in open(out + '.res'):
        x = json.loads(x)
        ms[x['id']]['r'] = x
    for m in ms.values():
        r = m.get('r', {})
        c = r.get('checks')
        k = 'untested' if not r else 'killed by tests' if r.get('tests') != 'pass' else 'no check run' if c is None else \
            'caught' if 1 in c.values() else 'missed'
        n[k] = n.get(k, 0) + 1
        if k == 'missed':
            print(m['id'], m['file'].split('/')[-1], m['line'], m['fn'][-1], m['kind'], repr(m['old'][:70]), '->', repr(m['new'][:70]), c)
    print(n)


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen':
        gen(a[2], a[3:])
    elif a[1] == 'show':
        show(a[2])
    else:
        run(a[2], int(a[3]), a[1])
