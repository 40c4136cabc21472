"""Check framework: obligations, findings, evidence, known findings, exit codes."""
import json
import multiprocessing as mp
import os
import sys
import signal
import time
import traceback
from collections import Counter, OrderedDict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')


def ok(rule, what, n=1):
    return {'t': 'ok', 'rule': rule, 'what': what, 'n': n}


def viol(rule, key, where, msg, **extra):
    """key: stable identification of the failing construct (no line numbers)"""
    return {'t': 'viol', 'rule': rule, 'key': '%s|%s' % (rule, key), 'where': fmt(where), 'msg': msg, 'extra': extra}


def und(rule, what, why):
    return {'t': 'undecided', 'rule': rule, 'what': what, 'why': why}


def missing(what):
    return {'t': 'missing', 'what': what}


def fmt(where):
    if not where:
        return ''
    if isinstance(where, str):
        return where
    f, fn, ln, src = (tuple(where) + ('', '', '', ''))[:4]
    return '%s:%s in %s: %s' % (f, ln, fn, src)


def site(where):
    """line-number free identity of a construct"""
    if not where:
        return '?'
    return '%s:%s:%s' % (where[0], where[1], where[3])


_I = None


def _init():
    global _I
    from .interp import Interp
    _I = Interp()
    _I.load_all(('CommDspy',))


class Budget(BaseException):
    """analysis job ran out of time: no claim is made"""


_DEADLINE = None
JOB_S, ALL_S = 120, 600


def _alarm(*a):
    raise Budget()


def _work(job):
    fn, item = job
    from .project import AnchorMissing
    t = time.time()
    left = min(JOB_S, (_DEADLINE or t + JOB_S) - t)
    if left <= 0.5:
        return [und('budget', str(item), 'not analysed: the time budget of the check is used up')], {}, 0.0, str(item)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, left)
    for k, v in list(_I.stats.items()):
        _I.stats[k] = set() if isinstance(v, set) else 0
    try:
        recs = list(fn(_I, item))
    except AnchorMissing as e:
        recs = [missing('%s: %s' % (item, e))]
    except Exception:
        recs = [{'t': 'crash', 'what': str(item), 'tb': traceback.format_exc(limit=-8)}]
    except Budget:
        recs = [und('budget', str(item), 'analysis stopped after %d s' % left)]
        _init()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    locate(recs, _I.stats.get('functions', ()))
    return recs, {k: (sorted(v) if isinstance(v, set) else v) for k, v in _I.stats.items()}, time.time() - t, str(item)


def locate(recs, functions):
    """A wrong value has no single statement: name the source functions whose summaries compose it, those the message names first."""
    for r in recs:
        if r['t'] == 'viol' and not r['where'] and functions:
            named = [q for q in functions if q.rsplit('.', 1)[-1] in r['msg'].replace('(', ' ').replace(',', ' ').split()]
            rest = sorted(set(functions) - set(named))
            r['where'] = 'result of ' + ', '.join(sorted(named) + rest[:8]) if named else 'value computed through ' + ', '.join(rest[:12])


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        global _DEADLINE
        self.t0 = time.time()
        deep = tier == 'thorough'
        _DEADLINE = self.t0 + ALL_S * (1 + deep / 3)
        if deep:
            from . import eqv
            eqv.Points.DEPTH = 8
        self.recs = []
        self.stats = Counter()
        self.functions = set()
        self.items = []
        self.rules = OrderedDict()
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def deep(self, *items):
        """items analysed in the thorough tier only"""
        return list(items) if self.tier == 'thorough' else []

    def add(self, *recs):
        self.recs.extend(recs)

    def pmap(self, fn, items):
        """fn(I, item) -> iterable of records, evaluated on all cores"""
        _init_once()
        jobs = [(fn, it) for it in items]
        if len(jobs) <= 1 or os.environ.get('VERIF_SERIAL'):
            res = [_work(j) for j in jobs]
        else:
            with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
                res = list(pool.imap_unordered(_work, jobs, chunksize=1))
        res.sort(key=lambda r: r[3])
        for recs, st, dt, it in res:
            self.recs.extend(recs)
            self.items.append((it, round(dt, 2)))
            for k, v in st.items():
                if isinstance(v, list):
                    self.functions.update(v)
                else:
                    self.stats[k] += v

    def finish(self, level):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get('findings', []):
                if e['property'] == self.pid:
                    known[e['key']] = e
        oks, unds, viols, miss, crash = Counter(), [], OrderedDict(), [], []
        samples = {}
        for r in self.recs:
            if r['t'] == 'ok':
                oks[r['rule']] += r['n']
                samples.setdefault(r['rule'], [])
                if len(samples[r['rule']]) < 6:
                    samples[r['rule']].append(r['what'])
            elif r['t'] == 'undecided':
                unds.append(r)
            elif r['t'] == 'viol':
                viols.setdefault(r['key'], r)
            elif r['t'] == 'missing':
                miss.append(r['what'])
            else:
                crash.append(r)
                unds.append(und('analysis', r['what'], 'the analyser could not process it: ' + r['tb'].strip().splitlines()[-1]))
        kf = [v for k, v in viols.items() if k in known]
        new = [v for k, v in viols.items() if k not in known]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'coverage': {
                'explanation': 'Static analysis of the current source: %d analysis jobs, %d abstract paths, %d abstract calls, %d branch decisions; %d obligations discharged, %d undecided (no claim made), %d violated.' % (
                    len(self.items), self.stats.get('paths', 0), self.stats.get('calls', 0), self.stats.get('branches', 0), sum(oks.values()), len(unds), len(viols)),
                'rules': dict(self.rules),
                'obligations': sum(oks.values()) + len(unds) + len(viols), 'discharged': sum(oks.values()),
                'obligations_by_rule': dict(oks),
                'samples': [{'rule': k, 'obligation': w} for k, ws in samples.items() for w in ws],
                'undecided': [{'rule': u['rule'], 'what': u['what'], 'why': u['why']} for u in unds[:60]],
                'analysed': [i for i, _ in self.items], 'functions': sorted(self.functions),
                'paths': self.stats.get('paths', 0), 'calls': self.stats.get('calls', 0), 'incomplete_explorations': self.stats.get('incomplete', 0),
            },
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
            'violation_list': [{'key': v['key'], 'where': v['where'], 'message': v['msg']} for v in new],
            'known_findings': [{'key': v['key'], 'where': v['where']} for v in kf],
            'assumptions': self.assumptions,
        }
        evd = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for v in kf:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[v['key']].get('what', v['msg']), v['key']))
        print('%s: %d obligations hold, %d undecided, %d known findings, %d violations (%.1fs)' % (
            self.pid, sum(oks.values()), len(unds), len(kf), len(new), time.time() - self.t0))
        for u in unds[:12]:
            print('  undecided: [%s] %s: %s' % (u['rule'], u['what'], u['why']))
        for i, v in enumerate(new):
            rp = os.path.join(evd, '%s-violation-%d.json' % (self.pid, i + 1))
            with open(rp, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  %s\n    at %s\n    %s' % (v['key'], v['where'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        if new:
            return 1
        if miss:
            for m in miss[:10]:
                print('ERROR: anchor missing: %s' % m)
            return 2
        if crash and not oks:
            for c in crash[:3]:
                print('ERROR: analysis of %s failed\n%s' % (c['what'], c['tb']))
            return 3
        return 0


_done = False


def _init_once():
    global _done
    if not _done:
        _init()
        _done = True


def interp():
    _init_once()
    return _I
