#!/usr/bin/env python3
"""tools/refactor.py SET [--checks C01,C07] [--only f1,f2] [--notests]
Applies the behaviour-preserving rewrites of tools/refactors/SET.py to a scratch copy of /repo and runs the checks on it: they
must stay quiet, and should decide as much as on the original."""
import ast, os, re, shutil, subprocess, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))


def sections(path):
    cur, out = None, []
    for line in open(path):
        m = re.match(r'#: (\S+)', line)
        if m:
            cur = [m.group(1), []]
            out.append(cur)
        elif cur is not None:
            cur[1].append(line)
    return [(f, ''.join(b)) for f, b in out]


def span(n):
    s = min([n.lineno] + [d.lineno for d in n.decorator_list])
    return s - 1, n.end_lineno


def apply(repo, sets, only=None):
    done = []
    for f, body in sets:
        p = os.path.join(repo, f)
        src = open(p, newline='').read().replace('\r\n', '\n')
        for n in ast.parse(body).body:
            seg = '\n'.join(body.split('\n')[slice(*span(n))]) if hasattr(n, 'decorator_list') else ast.get_source_segment(body, n)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                src = seg + '\n' + src
                continue
            if isinstance(n, ast.ClassDef) and not n.name.startswith('New'):
                cls = [m for m in ast.parse(src).body if isinstance(m, ast.ClassDef) and m.name == n.name]
                if cls:
                    for q in n.body:
                        old = [m for m in [c for c in ast.parse(src).body if isinstance(c, ast.ClassDef) and c.name == n.name][0].body if isinstance(m, ast.FunctionDef) and m.name == q.name]
                        qs = '\n'.join(body.split('\n')[slice(*span(q))])
                        L = src.split('\n')
                        if old:
                            a, b = span(old[0])
                            L[a:b] = qs.split('\n')
                        else:
                            e = [c for c in ast.parse(src).body if isinstance(c, ast.ClassDef) and c.name == n.name][0].end_lineno
                            L[e:e] = [''] + qs.split('\n')
                        src = '\n'.join(L)
                        done.append('%s:%s.%s' % (f, n.name, q.name))
                    continue
            name = getattr(n, 'name', None)
            if only and name and name not in only and not name.startswith('_h'):
                continue
            old = [m for m in ast.parse(src).body if isinstance(m, ast.FunctionDef) and m.name == name]
            L = src.split('\n')
            if old:
                a, b = span(old[0])
                L[a:b] = seg.split('\n')
                done.append('%s:%s' % (f, name))
            elif isinstance(n, ast.FunctionDef):
                L += ['', ''] + seg.split('\n')
            else:
                L = seg.split('\n') + L
            src = '\n'.join(L)
        ast.parse(src)
        open(p, 'w').write(src)
    return done


def main():
    import seed
    os.makedirs(seed.SCRATCH, exist_ok=True)
    arg = lambda k: sys.argv[sys.argv.index(k) + 1].split(',') if k in sys.argv else None
    name = sys.argv[1]
    repo = '/tmp/refwork/' + name
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs('/tmp/refwork', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    done = apply(repo, sections(os.path.join(HERE, 'tools', 'refactors', name + '.py')), arg('--only'))
    print(len(done), 'functions rewritten')
    if '--notests' not in sys.argv:
        print('tests', seed.run_tests(repo))
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    ids = arg('--checks') or [c['property'] if 'property' in c else c['id'] for c in man.get('checks', man.get('claims', []))]
    def one(i):
        return i, subprocess.run(['timeout', '600', 'python3-vt', 'check.py', i], cwd=HERE, env=dict(os.environ, VERIF_REPO=repo, VERIF_EVID='/tmp/refwork/ev'), capture_output=True, text=True)
    for i in ids:
        _, r = one(i)
        L = r.stdout.strip().split('\n')
        if r.returncode or ' 0 undecided' not in r.stdout:
            print(i, 'rc', r.returncode)
            print('\n'.join(x[:400] for x in L[:14]), r.stderr[-300:])
        else:
            print(i, 'quiet', L[0][:80])


main()
