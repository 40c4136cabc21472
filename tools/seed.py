#!/usr/bin/env python3
"""tools/seed.py [ids...]: (re)build /verif/seeded/<id>/ from tools/seeds_src.py in scratch copies and confirm each one:
tests pass with the change, the demonstration passes without it and fails with it; report whether the property's check sees it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
SCRATCH = '/tmp/seedwork'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python -B -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_tests(repo):
    out = tempfile.mkdtemp(dir=SCRATCH)
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p fixed_seed --timeout=180 --continue-on-collection-errors '
           '-o junit_family=xunit2 --deselect test/test_main.py::test_equalization --junitxml=%s/junit.xml . >/dev/null 2>&1; '
           '/usr/bin/python3 /opt/vp/results.py %s/o.json "junit:%s/*.xml"' % (out, out, out), repo + '/test',
           PYTHONPATH=repo + ':/opt/vp/plugins', MPLBACKEND='Agg', MPLCONFIGDIR=out, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    try:
        passed = set(json.load(open(out + '/o.json'))['passed'])
    except Exception:
        return 'NO RESULT ' + r.stdout[-200:]
    miss = STABLE - passed
    return 'ok' if not miss else 'FAIL %s' % sorted(miss)[:2]


def build(s, tests=True, check=True):
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    repo = os.path.join(SCRATCH, s['id'])
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', repo])
    res = {'id': s['id'], 'property': s['property']}
    try:
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.py', 'w') as f:
            f.write(s['demo'])
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        r = sh('bash %s/demo.sh' % d, repo)
        res['demo_clean'] = r.returncode
        if r.returncode:
            res['out'] = r.stdout[-600:]
        for f, a, b in s['edits']:
            t = open(os.path.join(repo, f), newline='').read()
            if '\r\n' in t:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            if t.count(a) != 1:
                res['error'] = '%s: %d matches of %r' % (f, t.count(a), a[:60])
                return res
            open(os.path.join(repo, f), 'w', newline='').write(t.replace(a, b))
        with open(d + '/patch.diff', 'wb') as f:
            f.write(subprocess.check_output(['git', '-C', repo, 'diff', '--binary']))
        r = sh('/opt/venv/bin/python -W ignore -m compileall -q -f CommDspy example_simulation', repo, PYTHONPYCACHEPREFIX=SCRATCH + '/pyc')
        res['compiles'] = r.returncode == 0
        r = sh('bash %s/demo.sh' % d, repo)
        res['demo_bug'] = r.returncode
        res['demo_msg'] = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else []
        if tests:
            res['tests'] = run_tests(repo)
        if check:
            r = sh('python3-vt %s/check.py %s' % (HERE, s['property']), HERE, VERIF_REPO=repo, VERIF_EVID=SCRATCH + '/evid-' + s['id'])
            res['check'] = r.returncode
            res['caught'] = r.returncode == 1 and ('VIOLATION property=%s ' % s['property']) in r.stdout
            res['why'] = [l.strip()[:170] for l in r.stdout.splitlines() if l.startswith('    ')][:2]
            if r.returncode > 1:
                res['why'] = r.stdout[-400:]
    finally:
        shutil.rmtree(repo, ignore_errors=True)
    return res


def main():
    from seeds_src import SEEDS
    os.makedirs(SCRATCH, exist_ok=True)
    want = [a for a in sys.argv[1:] if not a.startswith('-')]
    todo = [s for s in SEEDS if not want or s['id'] in want or s['property'] in want]
    fast = '--nocheck' in sys.argv
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: build(s, tests='--notests' not in sys.argv, check=not fast), todo):
            good = r.get('demo_clean') == 0 and r.get('demo_bug') not in (0, None) and r.get('tests', 'ok') == 'ok' and not r.get('error')
            print('%-22s %s valid=%s caught=%s tests=%s demo=%s/%s %s' % (
                r['id'], r['property'], good, r.get('caught'), r.get('tests'), r.get('demo_clean'), r.get('demo_bug'), r.get('error') or r.get('out') or ''), flush=True)
            for w in (r.get('why') if isinstance(r.get('why'), list) else [r.get('why')]):
                print('        ', w)
    shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    main()
