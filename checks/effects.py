"""Effect and ownership analyses over every public entry point and object history (all abstract paths)."""
from sa import universe as U
from sa.poly import Poly
from sa.dom import Arr, Lst, Dct, Inst, Itr
from sa.frame import ok, viol, und, missing, site, fmt

SKIP_TAG = 'speculative'


def live(paths):
    return [p for p in paths if SKIP_TAG not in p.tags]


def events(p, *kinds):
    return [e for e in p.log if e[0] in kinds]


def reach(p, v=None, seen=None, attrs=True):
    """objects reachable from a value: yields (path, Arr/Lst/Dct/Inst)"""
    out = []
    seen = set() if seen is None else seen

    def go(v, path, depth):
        if v is None or depth > 8:
            return
        if v.k == 'tuple' and v.x is not None:
            for i, x in enumerate(v.x):
                go(x, '%s[%d]' % (path, i), depth + 1)
        elif v.k == 'top' and isinstance(v.x, dict):
            out.append((path, v))
        elif v.k == 'ref':
            if v.x in seen:
                return
            seen.add(v.x)
            o = p.heap.get(v.x)
            if o is None:
                return
            out.append((path, o))
            if isinstance(o, Lst):
                for i, x in enumerate(o.items if o.items is not None else ([o.ev] if o.ev is not None else [])):
                    go(x, '%s[%d]' % (path, i), depth + 1)
            elif isinstance(o, Dct):
                for k, x in (o.items or {}).items():
                    go(x, '%s[%s]' % (path, k), depth + 1)
                if o.items is None and o.ev is not None:
                    go(o.ev, path + '[*]', depth + 1)
            elif isinstance(o, Inst) and attrs:
                for k, x in o.attrs.items():
                    go(x, '%s.%s' % (path, k), depth + 1)
    go(v if v is not None else p.val, 'result', 0)
    return out


def bufs_of(o):
    return (o.x if hasattr(o, 'k') else getattr(o, 'bufs', None)) or {}


def opts(p):
    return {k: v for k, v in sorted(p.tags.items()) if not isinstance(k, tuple)}


def incomplete(rule, e, I, paths):
    if not I.last_complete:
        ab = sum(1 for p in paths if p.kind == 'abort')
        return [und(rule, e.name, 'exploration incomplete after %d paths (%d aborted)' % (len(paths), ab))]
    return []


# -- C01 ----------------------------------------------------------------------------------------------------------
def _c01(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('caller-data', e, I, paths)
    bad = {}
    for p in paths:
        for ev in events(p, 'write'):
            if ev[1][0] == 'arg':
                bad.setdefault((ev[1][1], site(ev[3])), (ev, opts(p)))
    for (arg, st), (ev, o) in bad.items():
        recs.append(viol('caller-data', '%s|%s|%s' % (name, arg, '%s:%s' % (ev[3][0], ev[3][1])), ev[3],
                         '%s modifies the storage of its argument %r in place (%s) with options %s' % (name, arg, ev[4], o)))
    names = set()
    for p in paths:
        names |= {o.bufs and k[1] for o in p.heap.values() if isinstance(o, (Arr, Lst, Dct)) for k in o.bufs if k[0] == 'arg'}
    for a in sorted(x for x in names if x):
        if not any(k[0] == a for k in bad):
            recs.append(ok('caller-data', '%s(%s): no write reaches the caller\'s storage on %d paths' % (name, a, len(paths))))
    return recs


def c01(ctx):
    ctx.rule('caller-data', 'on every abstract path no store (item/slice/augmented assignment, in-place method, out=, list/dict mutator) targets a buffer that the caller passed in or that may be a view of one')
    ctx.assumptions += ['NumPy/SciPy view-versus-copy behaviour is summarised in sa/npm.py', 'array elements are opaque; lengths are symbolic above a small lower bound']
    ctx.pmap(_c01, U.NAMES)


# -- C02 ----------------------------------------------------------------------------------------------------------
def _c02(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('stateless', e, I, paths)
    bad = {}
    for p in paths:
        for ev in events(p, 'write'):
            if ev[1][0] in ('glob', 'default'):
                k = ('write', '%s:%s' % (ev[3][0], ev[3][1]), str(ev[1][0]))
                bad.setdefault(k, (ev[3], 'stores into %s that outlives the call' % (
                    'the default value of parameter %r of %s' % (ev[1][2], ev[1][1]) if ev[1][0] == 'default' else 'module-level storage (%s)' % (ev[1][1],)), opts(p)))
        for ev in events(p, 'globalwrite'):
            bad.setdefault(('global', '%s:%s' % (ev[2][0], ev[2][1]), str(ev[1])), (ev[2], 'rebinds %s, which outlives the call' % ev[1], opts(p)))
        for ev in events(p, 'ambient'):
            bad.setdefault(('ambient', '%s:%s' % (ev[2][0], ev[2][1]), str(ev[1])), (ev[2], 'reads ambient process state through %s' % ev[1], opts(p)))
        if p.kind == 'return':
            for path, o in reach(p):
                for b in bufs_of(o):
                    if b[0] in ('glob', 'default'):
                        bad.setdefault(('share', path, str(b[:2])), (None, '%s is storage owned by the library (%s), so a caller changing it changes later calls' % (path, b[1]), opts(p)))
    for k, (w, msg, o) in bad.items():
        recs.append(viol('stateless', '%s|%s' % (name, '|'.join(k)), w, '%s %s; options %s' % (name, msg, o)))
    if not bad:
        recs.append(ok('stateless', '%s: no store to, and no result sharing, storage that outlives the call (%d paths)' % (name, len(paths)), len(paths)))
    return recs


def c02(ctx):
    ctx.rule('stateless', 'on every abstract path: no store to module/class/function attributes, module-level containers or default-argument objects, no dependence on clock/environment, and no returned array is owned by such storage')
    ctx.assumptions += ['per-object state of the stateful classes is allowed; NumPy\'s global generator is covered by C04']
    ctx.pmap(_c02, U.NAMES)


def ends(o):
    """value numbers of the first and last element of a one-dimensional array (only those that identify an element)"""
    if o.elem is None or o.shape is None or len(o.shape) != 1 or o.shape[0] is None or o.shape[0] == Poly.const(0):
        return set()
    try:
        es = [o.elem((Poly.const(0),)), o.elem((o.shape[0] - 1,))]
    except Exception:
        return set()
    return {x for x in es if x is not None and x.atoms()}


def overlap(a, b):
    """two views of one buffer that certainly hold a common element"""
    return bool(ends(a) & ends(b))


# -- C03 ----------------------------------------------------------------------------------------------------------
def _c03(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('fresh-result', e, I, paths)
    bad = {}
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        seenb = {}
        for path, o in reach(p, attrs=False):
            n += 1
            for b, must in bufs_of(o).items():
                if b[0] == 'arg' and must:
                    bad.setdefault((path, b[1]), opts(p))
                if b[0] == 'fresh' and isinstance(o, Arr) and must:
                    for path2, o2 in seenb.setdefault(b, []):
                        if overlap(o, o2):
                            bad.setdefault((path, 'its own ' + path2), opts(p))
                    seenb[b].append((path, o))
    for (path, a), o in bad.items():
        recs.append(viol('fresh-result', '%s|%s|%s' % (name, path, a), None, '%s: %s shares memory with %s; options %s' % (name, path, a, o)))
    if not bad:
        recs.append(ok('fresh-result', '%s: results own their storage (%d paths)' % (name, len(paths)), max(n, 1)))
    return recs


def c03(ctx):
    ctx.rule('fresh-result', 'no array reachable from a returned value definitely shares its buffer with an argument or with another returned array')
    ctx.pmap(_c03, U.NAMES)


# -- C04 ----------------------------------------------------------------------------------------------------------
NOISY = {
    'channel.awgn': lambda t: True,
    'channel.awgn_channel': lambda t: t.get('snr') is not None,
    'channel.pulse_shape': lambda t: t.get('rj_sigma') != 0.0,
    'misc.lasso_regression_manual': lambda t: True,
    'sim.Channel': lambda t: t.get('ch_type') != 'pulse',
    'sim.FullLink': lambda t: True,
}


def _c04(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('randomness', e, I, paths)
    bad = {}
    drew = wanted = 0
    for p in paths:
        allowed = NOISY.get(name, lambda t: False)(p.tags)
        rn = events(p, 'rng')
        for ev in rn:
            if ev[3] != 'numpy':
                bad.setdefault(('source', ev[1]), (ev[2], 'draws random numbers from %s, outside the global NumPy generator the caller seeds' % ev[1], opts(p)))
            elif not allowed:
                bad.setdefault(('draw', ev[1]), (ev[2], 'draws random numbers (%s) although no noise or jitter was requested' % ev[1], opts(p)))
        for ev in events(p, 'seed'):
            bad.setdefault(('seed', ev[1]), (ev[2], 'resets the random state (%s)' % ev[1], opts(p)))
        for ev in events(p, 'rngobj'):
            bad.setdefault(('rngobj', ev[1]), (ev[2], 'creates a private random generator (%s)' % ev[1], opts(p)))
        if allowed and p.kind == 'return':
            wanted += 1
            drew += bool(rn)
    for k, (w, msg, o) in bad.items():
        recs.append(viol('randomness', '%s|%s' % (name, '|'.join(k)), w, '%s %s; options %s' % (name, msg, o)))
    if name in NOISY and wanted and not drew:
        recs.append(viol('randomness', name + '|no-draw', None, '%s never draws noise although noise was requested' % name))
    if not bad:
        recs.append(ok('randomness', '%s: %d paths, %d draw from the global NumPy generator' % (name, len(paths), drew), len(paths)))
    return recs


def c04(ctx):
    ctx.rule('randomness', 'random draws occur only on paths where noise/jitter is requested, only through numpy.random\'s global functions; no path seeds, replaces or creates a generator')
    ctx.pmap(_c04, U.NAMES)


# -- C05 ----------------------------------------------------------------------------------------------------------
def _c05(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('side-effects', e, I, paths)
    bad = {}
    for p in paths:
        for ev in events(p, 'plot', 'io'):
            bad.setdefault((ev[0], '%s:%s' % (ev[2][0], ev[2][1]), str(ev[1])), (ev[2], opts(p)))
    for k, (w, o) in bad.items():
        recs.append(viol('side-effects', '%s|%s' % (name, '|'.join(k)), w, '%s performs %s (%s); options %s' % (name, 'plotting' if k[0] == 'plot' else 'input/output', k[2], o)))
    if not bad:
        recs.append(ok('side-effects', '%s: no I/O, no plotting (%d paths)' % (name, len(paths)), len(paths)))
    return recs


def c05(ctx):
    ctx.rule('side-effects', 'no path opens files, prints, warns, spawns, plots or touches the environment')
    ctx.pmap(_c05, U.NAMES)


# -- C06 ----------------------------------------------------------------------------------------------------------
def _c06(I, name):
    e = U.BYNAME[name]
    paths = live(U.run(I, e))
    recs = incomplete('no-internal-error', e, I, paths)
    bad = {}
    for p in paths:
        if p.kind == 'raise' and p.exc is not None and not p.exc.explicit:
            bad.setdefault((p.exc.exc, '%s:%s' % (p.exc.where[0], p.exc.where[1]), p.exc.where[3]), (p.exc.where, p.exc.msg, opts(p)))
    for k, (w, msg, o) in bad.items():
        recs.append(viol('no-internal-error', '%s|%s' % (name, '|'.join(str(x) for x in k)), w, '%s fails with %s: %s; options %s' % (name, k[0], msg, o)))
    combos = {}
    for p in paths:
        combos.setdefault(tuple(sorted((k, str(v)) for k, v in opts(p).items())), []).append(p)
    rej = [(c, ps) for c, ps in combos.items() if I.last_complete and ps and all(p.kind == 'raise' and p.exc is not None and p.exc.explicit for p in ps)]
    for c, ps in rej[:1]:
        recs.append(viol('no-internal-error', '%s|rejected|%s' % (name, ps[0].exc.exc), ps[0].exc.where,
                         '%s rejects documented arguments with %s on every path; %d option combinations, first: %s' % (name, ps[0].exc.exc, len(rej), dict(c))))
    n = sum(1 for p in paths if p.kind == 'return')
    recs.append(ok('no-internal-error', '%s: %d paths return' % (name, n), max(n, 1)))
    return recs


def c06(ctx):
    ctx.rule('no-internal-error', 'with documented arguments no abstract path ends in an implicit exception (unresolved name/attribute, wrong arity, None/str/array operand misuse, shape mismatch, index or key error)')
    ctx.pmap(_c06, U.NAMES)
