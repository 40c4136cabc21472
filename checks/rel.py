"""Relations between abstract results: shape and element summaries, for symbolic lengths and for short fixed lengths."""
import os
import random
from itertools import product
from contextlib import contextmanager
from sa import poly as P, eqv, npm, interp
from sa.poly import Poly, sign
from sa.dom import Arr, V, num
from sa.spec import B
from sa.eqv import Alphabet
from sa.frame import ok, viol, und

C = Poly.const


class Want:
    """expected 1-D (or n-D) array given by shape and element function"""

    def __init__(self, shape, elem):
        self.shape, self.elem = tuple(x if isinstance(x, Poly) else C(x) for x in shape), elem


def arr_of(p, v):
    if isinstance(v, (Want, Arr)):
        return v
    if v is None:
        return None
    if v.k == 'num':
        return Want((), lambda idx, q=v.p: q)
    if v.k == 'ref':
        o = p.heap.get(v.x)
        if isinstance(o, Arr):
            if o.elem is None and o.const is not None:
                o = o.rep(elem=npm.const_elem(o.const))
            return o
        if o is not None and getattr(o, 'items', None) is not None and all(x.k == 'num' for x in o.items):
            its = o.items
            return Want((len(its),), lambda idx: its[idx[0].cint()].p if idx[0].cint() is not None else None)
    return None


def el(a, idx):
    try:
        return a.elem(tuple(idx)) if a.elem is not None else None
    except (P.TooBig, IndexError, TypeError):
        return None


def interior(b, lo=6):
    """symbols for a generic interior index and the remaining length: returns (i, total)"""
    i = b.dim('i', lo)
    w = b.dim('w', lo)
    return i, i + w + 1


def cmp_shape(ga, wa):
    """True / False / None"""
    if ga.shape is None:
        return None
    if len(ga.shape) != len(wa.shape):
        return False
    r = True
    for x, y in zip(ga.shape, wa.shape):
        if x is None or y is None:
            r = None
            continue
        if x == y:
            continue
        c = (x - y).cint()
        if c is not None or sign(x - y) in ('+', '-'):
            return False
        r = None
    return r


def wrong_size(ga, wa, p):
    """lengths on this path for which the shape differs"""
    if p.opaque or ga.shape is None or any(d is None for d in ga.shape + wa.shape):
        return None
    k = len(ga.shape)
    for at, v in eqv.sizes(list(ga.shape) + list(wa.shape), p.facts):
        if v[:k] != v[k:]:
            return at, tuple(map(str, v[:k])), tuple(map(str, v[k:]))
    return None


def opts(p):
    return {k: v for k, v in sorted(p.tags.items(), key=str) if not isinstance(k, tuple) and k != 'curexc'}


def tk(o):
    return ','.join('%s=%s' % (k, v) for k, v in o.items())


def within(idx, wa, facts):
    """the path conditions, and that the index lies inside the array"""
    out = dict(facts)
    for k, n in zip(idx, wa.shape):
        for c in (k, n - 1 - k if n is not None else C(0)):
            if P.sign(c) not in ('+', '0', '>='):
                out[P.pcmp('>=', c, C(0))] = True
    return out


def symbolic(I, rule, name, build, dom, period=1, maxp=160, check_elems=True, idxs=None, raises_ok=False, lo=6, sizes=()):
    """build(I, b, i, n) -> [(label, got, want)] with n = i + w + 1; all paths, boundary and generic indices"""
    recs, bad, unk, nok = [], {}, {}, 0
    paths = []
    for size in (None,) + tuple(sizes):
        if size is None:
            ps = I.explore(lambda I: build(I, B(I), *interior(B(I), lo)), max_paths=maxp)
        else:
            ps = I.explore(lambda I: build(I, B(I), C(0), C(size)), max_paths=maxp)
        if not I.last_complete:
            unk['exploration'] = 'incomplete after %d paths' % len(ps)
        paths += ps
    for p in paths:
        if 'speculative' in p.tags:
            continue
        if p.kind == 'abort':
            continue
        if p.kind == 'raise':
            if not raises_ok and not p.facts and not p.opaque:
                bad.setdefault(('raise', p.exc.exc), (p.exc.where, '%s for every input: %s' % (p.exc.exc, p.exc.msg), opts(p)))
            continue
        for lab, got, want in p.val:
            ga, wa = arr_of(p, got), arr_of(p, want)
            if ga is None or wa is None:
                if ga is None and wa is not None and got is not None and got.k in ('none', 'str', 'tuple', 'enum', 'func') and not p.opaque:
                    bad.setdefault((lab, 'kind'), (None, '%s is a %s' % (lab, got.k), opts(p)))
                else:
                    unk[lab] = 'no array summary'
                continue
            s = cmp_shape(ga, wa)
            if s is False:
                if p.opaque or any(isinstance(k, Poly) for k in p.facts):
                    # may be an infeasible path: only lengths decide
                    if p.opaque or not all(all(a[0] == 's' for a in eqv.leaves(k)) for k in p.facts if isinstance(k, Poly)):
                        unk[lab] = 'shape differs on a data-dependent path'
                        continue
                bad.setdefault((lab, 'shape'), (None, '%s has shape %s instead of %s' % (lab, ga.shape, wa.shape), opts(p)))
                continue
            if s is None:
                w = wrong_size(ga, wa, p)
                if w:
                    bad.setdefault((lab, 'shape'), (None, '%s has shape %s instead of %s when %s' % (lab, w[1], w[2], w[0]), opts(p)))
                else:
                    unk[lab + '|shape'] = 'shape %s versus %s' % (ga.shape, wa.shape)
                continue
            if not check_elems:
                nok += 1
                continue
            for idx in (idxs(wa) if idxs else indices(wa, period, lo if lo != 6 else 2)):
                pe, qe = el(ga, idx), el(wa, idx)
                r = eqv.equal(pe, qe, dom, p.facts) if pe == qe else eqv.equal(pe, qe, dom, within(idx, wa, p.facts))
                if r[0] == 'eq':
                    nok += 1
                elif r[0] == 'vacuous':
                    continue
                elif r[0] == 'neq' and not p.opaque:
                    bad.setdefault((lab, 'value'), (None, '%s[%s] is %s but must be %s when %s' % (lab, ','.join(map(str, idx)), r[2], r[3], r[1]), opts(p)))
                    break
                else:
                    unk[lab + '@' + ','.join(map(str, idx))] = r[1] if r[0] == 'unknown' else 'differs after a data-dependent decision'
    for k, (w, msg, o) in bad.items():
        recs.append(viol(rule, '%s|%s' % (name, '|'.join(k)), w, '%s: %s; options %s' % (name, msg, o)))
    for k, why in list(unk.items())[:4]:
        recs.append(und(rule, '%s %s' % (name, k), why))
    if nok:
        recs.append(ok(rule, '%s: %d element summaries agree at boundary and generic indices on %d paths, every length' % (name, nok, len(paths)), nok))
    return recs


def places(n, most=64):
    """all places of a short axis; of a long one the first, the last and some in between"""
    if n <= most:
        return range(n)
    k = most // 2
    return sorted(set(range(k)) | {n - 1 - j for j in range(8)} | {k + (n - k) * j // (most - k) for j in range(most - k)})


def indices(wa, period, nb=2):
    """boundary and generic index tuples of a 1-D array of length period*(i+w+1)+const"""
    if len(wa.shape) == 0:
        return [()]
    n = wa.shape[0]
    i = Poly.sym('i')
    tail = [()]
    for d in wa.shape[1:]:
        c = d.cint()
        if c is None:
            return []
        tail = [t + (C(j),) for t in tail for j in places(c)]
    c = n.cint()
    if c is not None:
        heads = [C(j) for j in places(c)]
    else:
        heads = [C(j) for j in range(nb * period)] + [i * period + r for r in range(period)] + [n - 1 - j for j in range(nb * period)]
    return [(h,) + t for h in heads for t in tail]


def spread(doms, n):
    """words of a long input: constant ones, ones with a single different place, and n generic ones"""
    seen = set()

    def words():
        for j in range(max(len(d) for d in doms)):
            yield tuple(d[j % len(d)] for d in doms)
        base = tuple(d[0] for d in doms)
        for k, d in enumerate(doms):
            for v in d[1:]:
                yield base[:k] + (v,) + base[k + 1:]
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
        for _ in range(n):
            yield tuple(rnd.choice(d) for d in doms)
    for w in words():
        if w not in seen:
            seen.add(w)
            yield w


@contextmanager
def unroll(n):
    """follow loops of up to n rounds"""
    old, interp.UNROLL = interp.UNROLL, n
    try:
        yield
    finally:
        interp.UNROLL = old


@contextmanager
def lazily():
    """keep large sums and products as interpreted operations"""
    old, P.LAZY[0] = P.LAZY[0], True
    try:
        yield
    finally:
        P.LAZY[0] = old


def short(I, rule, name, build, dom, inputs, lengths, maxp=160, cap=4096, sample=0):
    """build(I, b, n) -> [(label, got, want)] for short fixed lengths: every abstract path and every assignment of the
    finite alphabet; a violation needs that every path consistent with the assignment contradicts the relation"""
    recs, bad, unk = [], {}, {}
    nass = 0
    for n in lengths:
        paths = I.explore(lambda I: build(I, B(I), n), max_paths=maxp)
        if not I.last_complete:
            unk['n=%s' % (n,)] = 'exploration incomplete after %d paths' % len(paths)
            continue
        groups = {}
        paths = [(p, frozenset(opts(p).items())) for p in paths if 'speculative' not in p.tags]
        kinds = {o for _, o in paths}
        for o in kinds:
            if not any(o < q for q in kinds):      # a path that ends before an option is read belongs to all its values
                groups[tk(dict(sorted(o, key=str)))] = [p for p, q in paths if q <= o]
        for o, ps in groups.items():
            leafs = []
            for key, shape in inputs(n, ps[0].tags):
                for ix in product(*[range(d) for d in shape]):
                    leafs.append(('e', key) + tuple(C(j) for j in ix))
            doms = [dom.of(a) for a in leafs]
            tot = 1
            for d in doms:
                tot *= len(d)
            if tot > cap and not sample:
                unk['n=%s' % (n,)] = 'alphabet too large'
                continue
            progs = [(p, eqv.compatible(p, leafs, dom), judge(p, leafs)) for p in ps]
            for L in product(*doms) if tot <= cap else spread(doms, sample):
                nass += 1
                verdicts = []
                for p, comp, jd in progs:
                    c = comp(L)
                    if c is False:
                        continue
                    v = jd(L)
                    verdicts.append((v, p))
                    if v is None or v is True:
                        break
                    if c is True:
                        break
                if verdicts and all(isinstance(v, str) for v, _ in verdicts):
                    v, p = verdicts[0]
                    w = p.exc.where if p.kind == 'raise' and p.exc is not None else None
                    wit = ' '.join(str(x) for x in L)
                    kk = v.split('[')[0].split(':')[0]
                    bad.setdefault(kk, (w, '%s for input (%s) of length %s' % (v, wit, n), o))
                    break
                if verdicts and any(v is None for v, _ in verdicts):
                    unk.setdefault('n=%s %s' % (n, o), 'some element has no interpretable summary')
                if not verdicts:
                    unk.setdefault('n=%s %s' % (n, o), 'no path matches an assignment')
    for k, (w, msg, o) in bad.items():
        recs.append(viol(rule, '%s|%s' % (name, k), w, '%s: %s; options %s' % (name, msg, o)))
    for k, why in list(unk.items())[:3]:
        recs.append(und(rule, '%s %s' % (name, k), why))
    if nass:
        recs.append(ok(rule, '%s: %d input words of lengths %s' % (name, nass, list(lengths)), nass))
    return recs


def judge(p, leafs):
    """-> f(L): True (relation holds), str (why not), None (unknown)"""
    if p.kind == 'abort':
        return lambda L: None
    if p.kind == 'raise':
        msg = 'raises %s' % p.exc.exc
        return lambda L: msg
    pr = eqv.Prog(leafs)
    tests = []
    const = []
    unknown = False
    for lab, got, want in p.val:
        ga, wa = arr_of(p, got), arr_of(p, want)
        if ga is None or wa is None:
            if got is not None and got.k in ('none', 'str', 'tuple', 'enum', 'func'):
                const.append('%s is a %s' % (lab, got.k))
            else:
                unknown = True
            continue
        s = cmp_shape(ga, wa)
        if s is False:
            const.append('%s has shape %s instead of %s' % (lab, ga.shape, wa.shape))
            continue
        if s is None:
            if ga.shape is None or any(d is None for d in ga.shape) or any(d.cint() is None for d in wa.shape):
                unknown = True
                continue
            for k, (x, y) in enumerate(zip(ga.shape, wa.shape)):      # lengths that depend on the data
                if x != y:
                    tests.append((lab + ' length', (k,), pr.poly(x), pr.poly(y)))
        dims = [d.cint() for d in wa.shape]
        for ix in product(*[range(d) for d in dims]):
            idx = tuple(C(j) for j in ix)
            x, y = el(ga, idx), el(wa, idx)
            if x is None or y is None:
                unknown = True
                continue
            if x == y:
                continue
            tests.append((lab, ix, pr.poly(x), pr.poly(y)))
    if const:
        return lambda L: const[0]

    def f(L):
        unk = unknown
        for lab, ix, x, y in tests:
            try:
                a = x(L)
                b = y(L)
            except P.Unknown:
                unk = True
                continue
            except P.EvalError as e:
                return '%s%s: %s' % (lab, list(ix), e)
            if not eqv.same(a, b):
                return '%s%s is %s but must be %s' % (lab, list(ix), a, b)
        return None if unk else True
    return f
