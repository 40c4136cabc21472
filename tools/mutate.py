#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [--files a,b] [--max N] [--jobs J] [--seed S] [--checks ids]
Mutation campaign: small syntactic changes of /repo (copied to scratch), kept when the stable tests still pass, then run through
the checks.  Survivors are read by hand: equivalent, outside every property, or a gap."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
arg = lambda k, d=None: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
SWAP = {'floor': 'ceil', 'ceil': 'floor', 'max': 'min', 'min': 'max', 'argmax': 'argmin', 'argmin': 'argmax', 'sin': 'cos', 'cos': 'sin', 'zeros': 'ones', 'ones': 'zeros',
        'mean': 'sum', 'sum': 'mean', 'any': 'all', 'all': 'any', 'cumsum': 'cumprod', 'logical_xor': 'logical_or', 'round': 'floor', 'vstack': 'hstack', 'zeros_like': 'ones_like'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.Pow: ['*']}


NEAR = {'tx/bin2symbol': 'C08,C26,C28', 'rx/symbol2bin': 'C08,C26,C28', 'tx/mapping': 'C09,C08,C26,C28', 'rx/demapping': 'C09,C26,C28', 'tx/coding': 'C10,C11,C13,C14,C26,C28', 'rx/decoding': 'C10,C13,C14,C11,C26,C28',
        'prbs_': 'C07,C12,C26,C28', 'checker': 'C12,C26,C28', 'ml_decoding': 'C13,C14,C26,C28', 'help_classes': 'C16,C17,C13,C14,C26,C28', 'help_functions': 'C10,C11,C13,C14,C26,C28', 'slicer': 'C15,C17,C26,C28',
        'quant': 'C15,C26,C28', 'ffe_dfe': 'C17,C26,C28', 'ctle': 'C16,C26,C28', 'additive': 'C16,C24,C26,C28', 'pulse_shaping': 'C18,C24,C26,C28', 'digital_delay': 'C19,C26,C28,C25',
        'auxiliary': 'C20,C07,C09,C26,C28,C08,C10,C11,C15,C12,C13,C18,C23', 'clock': 'C21,C26,C28', 'least_mean': 'C21,C26,C28', 'least_squares': 'C22,C23,C26,C28', 'equalization_est': 'C22,C23,C26,C28',
        'channel_est': 'C23,C26,C28', 'lock': 'C23,C26,C28', 'eye': 'C25,C26,C28', 'psa': 'C25,C26,C28', 'example_simulation': 'C27,C29,C28,C26'}


SLOW = arg('--slow', 'C02,C06').split(',') if arg('--slow', 'C02,C06') else []


def near(f, checks):
    for k, v in NEAR.items():
        if k in f:
            return [c for c in v.split(',') if c in checks]
    return [c for c in 'C26 C28 C20 C07 C09'.split() if c in checks]


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, kind, n.lineno))

    def between(l, r, old, new, kind):
        s, e = pos(l)[1], pos(r)[0]
        mid = b[s:e].decode()
        if old in mid and '#' not in mid:
            out.append((s, e, mid.replace(old, new, 1), kind, l.end_lineno))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(n.value)
    seg = lambda n: b[slice(*pos(n))].decode()
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}[type(n.ops[0]).__name__]
            between(n.left, n.comparators[0], op, CMP[type(n.ops[0])], 'cmp')
        elif isinstance(n, ast.BinOp):
            op = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**'}.get(type(n.op).__name__)
            if op and not isinstance(n.left, ast.Constant) or op and not isinstance(getattr(n.left, 'value', None), str):
                for r in BIN.get(type(n.op), ()):
                    between(n.left, n.right, op, r, 'bin')
                if isinstance(n.op, ast.Mod):
                    put(n, seg(n.left), 'dropmod')
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'bool')
            elif isinstance(n.value, (int, float)):
                put(n, '(%r + 1)' % n.value, 'const+1')
                put(n, '(%r - 1)' % n.value, 'const-1')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, '(' + seg(n.operand) + ')', 'dropunary')
        elif isinstance(n, ast.BoolOp):
            between(n.values[0], n.values[1], 'and' if isinstance(n.op, ast.And) else 'or', 'or' if isinstance(n.op, ast.And) else 'and', 'boolop')
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None and not isinstance(x, ast.Constant):
                    put(x, seg(x) + ' + 1', 'slice+1')
                    put(x, seg(x) + ' - 1', 'slice-1')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    t = b[:s].decode().rstrip()
                    if t.endswith(','):
                        s2 = len(t[:-1].encode())
                        out.append((s2, e, '', 'dropkw ' + k.arg, n.lineno))
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in SWAP:
                    s, e = pos(n.func)
                    out.append((e - len(n.func.attr), e, SWAP[n.func.attr], 'swapfn', n.lineno))
                if n.func.attr in ('copy', 'astype', 'flatten', 'conj'):
                    put(n, seg(n.func.value), 'dropmethod')
                if n.func.attr in ('abs', 'flip', 'array', 'sqrt', 'conj', 'mod', 'round', 'squeeze', 'ceil') and n.args:
                    put(n, '(' + seg(n.args[0]) + ')', 'dropcall')
        elif isinstance(n, ast.If):
            t = seg(n.test)
            put(n.test, '(not (%s))' % t, 'negate')
            put(n.test, '(%s and False)' % t if len(t) < 200 else 'False', 'never')
        elif isinstance(n, ast.IfExp):
            put(n.test, '(not (%s))' % seg(n.test), 'negate')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if n.col_offset:
                if isinstance(n, ast.AugAssign):
                    put(n, 'pass', 'dropstmt')
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                    put(n, 'pass', 'dropstmt')
                elif isinstance(n, ast.Expr):
                    put(n, 'pass', 'dropcallstmt')
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                    put(n, 'pass', 'dropupdate')
    return out


def main():
    import seed
    os.makedirs(seed.SCRATCH, exist_ok=True)
    outp = sys.argv[1]
    files = (arg('--files') or '').split(',') if arg('--files') else None
    if not files:
        files = subprocess.check_output('git -C /repo ls-files "*.py"', shell=True, text=True).split()
        files = [f for f in files if (f.startswith('CommDspy/') or f.startswith('example_simulation/simulation_parts')) and not f.endswith(('__init__.py', 'constants.py'))]
    allm = []
    for f in files:
        src = open('/repo/' + f, newline='').read().replace('\r\n', '\n')
        for m in mutants(src):
            allm.append((f, m))
    rng = random.Random(int(arg('--seed', '1')))
    rng.shuffle(allm)
    allm = allm[:int(arg('--max', '600'))]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            j = json.loads(l)
            done.add((j['file'], j['s'], j['e'], j['new']))
    checks = arg('--checks', ','.join('C%02d' % k for k in range(7, 30))).split(',')
    stable = seed.STABLE
    base = tempfile.mkdtemp(dir='/tmp/mut')

    def one(k, f, m):
        s, e, new, kind, ln = m
        if (f, s, e, new) in done:
            return
        repo = '%s/%d' % (base, k)
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.check_call('mkdir -p %s && cp -a /repo/CommDspy /repo/test /repo/example_simulation /repo/setup.cfg /repo/pyproject.toml %s/' % (repo, repo), shell=True)
        try:
            p = os.path.join(repo, f)
            b = open(p, newline='').read().replace('\r\n', '\n').encode()
            nb = b[:s] + new.encode() + b[e:]
            r = {'file': f, 's': s, 'e': e, 'new': new, 'kind': kind, 'line': ln, 'old': b[s:e].decode(), 'src': b.decode().split('\n')[ln - 1].strip()}
            try:
                ast.parse(nb.decode())
            except SyntaxError:
                r['status'] = 'syntax'
                return r
            open(p, 'wb').write(nb)
            def tested():
                env = dict(os.environ, PYTHONPATH=repo + ':/opt/vp/plugins', MPLBACKEND='Agg', MPLCONFIGDIR=base + '/mpl', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
                q = subprocess.run('timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p fixed_seed --timeout=180 -x -rA --tb=no --deselect test/test_main.py::test_equalization .', shell=True, cwd=repo + '/test', env=env, capture_output=True, text=True)
                passed = len(re.findall(r'^PASSED ', q.stdout, re.M))
                r['passed'] = passed
                return passed >= len(stable)

            caught, und = [], []
            for c in near(f, checks) + SLOW:
                z = subprocess.run(['timeout', '900', 'python3-vt', 'check.py', c], cwd=HERE, env=dict(os.environ, VERIF_SERIAL='1', VERIF_REPO=repo, VERIF_EVID=repo + '/ev'), capture_output=True, text=True)
                if z.returncode == 1:
                    caught.append(c)
                    break
                if c == 'C28' and not tested():
                    r['status'] = 'killed'
                    return r
                if z.returncode or ' 0 undecided' not in z.stdout:
                    und.append('%s:%d' % (c, z.returncode))
            r['status'] = 'caught' if caught else 'missed'
            r['by'] = caught
            r['und'] = und
            return r
        finally:
            shutil.rmtree(repo, ignore_errors=True)
    with ThreadPoolExecutor(int(arg('--jobs', '6'))) as ex, open(outp, 'a') as o:
        from concurrent.futures import as_completed
        for fu in as_completed([ex.submit(one, k, f, m) for k, (f, m) in enumerate(allm)]):
            r = fu.result()
            if r:
                o.write(json.dumps(r) + '\n')
                o.flush()
    shutil.rmtree(base, ignore_errors=True)


main()
