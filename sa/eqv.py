"""Comparison of element summaries.

A function's result is summarised element-wise by a value number (Poly) over the elements of its inputs.
Two summaries are compared by normal form first; when the input alphabet is finite they are compared as
truth tables over the elements they mention.  Running sums are rewritten to one base per accumulator, so
the comparison holds at every index, not only at the indices mentioned."""
from fractions import Fraction
from itertools import chain, product
import os
import random
from . import poly as P
from .poly import Poly, EvalError, Unknown
from .dom import Arr

ACCDOM = tuple(range(0, 24))
SPECS = {}


def spec(name, fn, *args):
    """value of a specification function of given summaries"""
    SPECS[name] = fn
    return Poly.atom(('f', 'spec', name) + tuple(args))


INDEXDOM = tuple(range(6, 30))
CAP = 1 << 16


# -- leaves ------------------------------------------------------------------------------------------
def leaves(p, out=None):
    """leaf atoms (elements, running sums, scalar symbols used as numbers); indices are not entered"""
    out = {} if out is None else out
    for k in p.m:
        for a, _ in k:
            _leaf(a, out)
    return out


def _leaf(a, out):
    if a[0] in ('e', 's', 'ps'):
        out[a] = True
    elif a[0] == 'f':
        for x in a[2:]:
            if isinstance(x, Poly):
                leaves(x, out)


def index_is_data(a):
    """element atom whose index itself depends on data"""
    if a[0] != 'e':
        return False
    for i in a[2:]:
        for b in i.all_atoms():
            if b[0] in ('e', 'ps'):
                return True
    return False


def accs():
    from . import npm
    return {v[0]: v[1] for v in npm.ACC.values()}


def expand_ps(polys):
    """rewrite running sums of one accumulator at indices differing by constants to a common base"""
    atoms = {}
    for p in polys:
        for a in leaves(p):
            if a[0] == 'ps':
                atoms[a] = True
    if len(atoms) < 1:
        return polys
    groups = {}
    for a in atoms:
        for g in groups.setdefault(a[1], []):
            d = (a[2] - g[0][2]).cint()
            if d is not None:
                g.append(a)
                break
        else:
            groups[a[1]].append([a])
    mp = {}
    table = accs()
    for aid, gs in groups.items():
        for g in gs:
            if len(g) < 2 or aid not in table:
                continue
            base = min(g, key=lambda a: (a[2] - g[0][2]).cint())
            for a in g:
                d = (a[2] - base[2]).cint()
                if not d or d > 12:
                    continue
                r = Poly.atom(base)
                for j in range(1, d + 1):
                    e = table[aid]((base[2] + j,))
                    if e is None:
                        r = None
                        break
                    r = r + e
                if r is not None:
                    mp[a] = r
    if not mp:
        return polys
    out = [p.subs(mp) for p in polys]
    return out if out == polys else expand_ps(out)


# -- compiled evaluation ---------------------------------------------------------------------------------
class Prog:
    """polys compiled to closures over a list of leaf values"""

    def __init__(self, leaf_list):
        self.ix = {a: i for i, a in enumerate(leaf_list)}
        self.memo = {}
        self.amemo = {}
        self.byix = {}

    def at(self, key, nd):
        """leaves of one array by constant index"""
        if (key, nd) not in self.byix:
            self.byix[key, nd] = {tuple(x.cint() for x in b[2:]): j for b, j in self.ix.items() if b[0] == 'e' and b[1] == key and len(b) == nd + 2 and all(x.cint() is not None for x in b[2:])}
        return self.byix[key, nd]

    def poly(self, p):
        f = self.memo.get(p)
        if f is None:
            f = self.memo[p] = self._poly(p)
        return f

    def _poly(self, p):
        terms = []
        for k, v in p.m.items():
            c = int(v) if v.denominator == 1 else v
            terms.append((c, tuple((self.atom(a), e) for a, e in k)))
        if not terms:
            return lambda L: 0
        if len(terms) == 1 and not terms[0][1]:
            c0 = terms[0][0]
            return lambda L: c0
        if len(terms) == 1 and len(terms[0][1]) == 1 and terms[0][1][0][1] == 1 and terms[0][0] == 1:
            return terms[0][1][0][0]

        def f(L):
            t = 0
            for c, fs in terms:
                x = c
                for g, e in fs:
                    y = g(L)
                    if e == 1:
                        x = x * y
                    elif e > 0:
                        x = x * y ** e
                    else:
                        if y == 0:
                            raise EvalError('division by zero')
                        x = x * (Fraction(y) ** e if isinstance(y, (int, Fraction)) else y ** e)
                t = t + x
            return t
        return f

    def atom(self, a):
        f = self.amemo.get(a)
        if f is None:
            f = self.amemo[a] = self._atom(a)
        return f

    def _atom(self, a):
        i = self.ix.get(a)
        if i is not None:
            return lambda L: L[i]
        if a[0] == 'e':
            key, fs = a[1], [self.poly(x) for x in a[2:]]
            ix = self.at(key, len(fs))

            def fe(L):
                j = ix.get(tuple(g(L) for g in fs))
                if j is None:
                    raise Unknown(repr(a))
                return L[j]
            if ix:
                return fe
        if a[0] != 'f':
            def bad(L):
                raise Unknown(repr(a))
            return bad
        n = a[1]
        if n == 'tab':
            tabv = a[2]
            fs = [self.poly(x) for x in a[3:]]

            def ft(L):
                v = tabv
                for g in fs:
                    x = g(L)
                    if x != int(x):
                        raise EvalError('non-integer index')
                    x = int(x)
                    if x < -len(v) or x >= len(v):
                        raise EvalError('index %d out of range for a table of %d' % (x, len(v)))
                    v = v[x]
                return v
            return ft
        if n == 'ite':
            c, x, y = self.poly(a[2]), self.poly(a[3]), self.poly(a[4])
            return self.cached(lambda L: x(L) if c(L) != 0 else y(L))
        if n == 'cmp':
            g = self.poly(a[3])
            op = a[2]
            cmpf = {'<': lambda v: v < 0, '<=': lambda v: v <= 0, '==': lambda v: v == 0, '>': lambda v: v > 0, '>=': lambda v: v >= 0, '!=': lambda v: v != 0}[op]
            return lambda L: int(cmpf(g(L)))
        if n == 'pi':
            return lambda L: P.math.pi
        if n == 'floatlit':
            v = float(a[2])
            return lambda L: v
        if n == 'spec':
            fn = SPECS[a[2]]
            gs = [self.poly(x) for x in a[3:]]
            return self.cached(lambda L: fn(*[g(L) for g in gs]))
        fs = [self.poly(x) if isinstance(x, Poly) else x for x in a[2:]]

        def fp(L):
            xs = [g(L) if callable(g) else g for g in fs]
            try:
                return P._prim(n, xs)
            except (ZeroDivisionError, OverflowError, ValueError) as e:
                raise EvalError(str(e))
        return self.cached(fp) if n in ('min', 'max', 'argmin', 'argmax', 'mod', 'addx', 'mulx') else fp

    def cached(self, f):
        """shared sub-summaries are evaluated once per row"""
        box = [None, None]

        def g(L):
            if box[0] is not L:
                box[1] = f(L)
                box[0] = L
            return box[1]
        return g


def same(x, y, tol=1e-9):
    if x == y:
        return True
    try:
        return abs(float(x) - float(y)) <= tol * max(1.0, abs(float(x)), abs(float(y)))
    except Exception:
        return False


# -- equality ---------------------------------------------------------------------------------------------
class Alphabet:
    """dom: array key -> tuple of values, or symbol name -> tuple of values"""

    def __init__(self, **dom):
        self.dom = dom

    def of(self, a):
        if a[0] == 'ps':
            return ACCDOM if (len(a) > 3 and a[3]) else None
        if a[0] in ('e', 's'):
            if a[0] == 'e' and index_is_data(a):
                return None
            if a[0] == 's' and a[1] in ('i', 'w') and a[1] not in self.dom:
                return INDEXDOM
            return self.dom.get(a[1])
        return None


class Points(Alphabet):
    """real-valued leaves: summaries that differ in normal form are refuted at generic points (a polynomial or
    elementary expression that vanishes at all of them is taken to be zero)"""

    DEPTH = 1       # the thorough tier takes more points
    SHIFT = int(os.environ.get('VERIF_SEED', '1') or 1) - 1

    def __init__(self, rows=24, seed=1, **dom):
        Alphabet.__init__(self, **dom)
        self.rows, self.seed = rows, seed

    def of(self, a):
        d = Alphabet.of(self, a)
        if d is None and (a[0] == 's' or (a[0] == 'e' and not index_is_data(a))):
            d = REALS
        return d

    def pick(self, doms):
        rng = random.Random(self.seed + self.SHIFT)
        for _ in range(self.rows * self.DEPTH):
            yield tuple(rng.choice(d) for d in doms)


REALS = tuple(Fraction(k, 97) for k in range(-211, 223, 7))


def fact_holds(progs, facts, L):
    for f, want in progs:
        if bool(f(L) != 0) != want:
            return False
    return True


def equal(p, q, dom, facts=None, cap=CAP):
    """-> ('eq', how) | ('neq', assignment, got, want) | ('unknown', why)
    facts: {Poly: bool} path conditions; those that mention unknown atoms only weaken a 'neq' to unknown"""
    if p is None or q is None:
        return ('unknown', 'element has no summary')
    if p == q:
        return ('eq', 'normal form')
    fl = [(k, v) for k, v in (facts or {}).items() if isinstance(k, Poly)]
    ps = expand_ps([p, q] + [k for k, _ in fl])
    p, q = ps[0], ps[1]
    if p == q:
        return ('eq', 'normal form')
    fl = [(k, fl[i][1]) for i, k in enumerate(ps[2:])]
    pts = isinstance(dom, Points)
    lv = leaves(p)
    leaves(q, lv)
    usable, unsure = [], 0
    size = lambda at: _size(at, dom)
    for k, v in sorted(fl, key=lambda kv: 0 if any(a in lv for a in leaves(kv[0])) else 1):
        fx = leaves(k)
        if fx and all(a[0] == 's' and dom.of(a) is None for a in fx) and not opaque_fn(k):
            continue                       # a condition on lengths/parameters only: part of the path
        if all(dom.of(a) is not None for a in fx) and not opaque_fn(k) and (pts or size(set(lv) | set(fx)) <= cap):
            usable.append((k, v))
            for a in fx:
                lv[a] = True
        else:
            unsure += 1
    fixed, values = {}, []
    for k, v in (facts or {}).items():
        if isinstance(k, tuple) and k[0] == 'uniqv':
            fx = {a for q in k[1] for a in leaves(q)}
            if all(dom.of(a) is not None for a in fx) and not any(opaque_fn(q) for q in k[1]) and (pts or size(set(lv) | fx) <= cap):
                values.append((k[1], {k[2] + x for x in range(k[3] - k[2] + 1) if v >> x & 1}))
                for a in fx:
                    lv[a] = True
            else:
                unsure += 1
        if isinstance(k, tuple) and k[0] == 'uniq' and v != 0:
            at = list(k[1].m)
            if len(at) == 1 and len(at[0]) == 1 and at[0][0][0][0] == 'e' and k[1].m[at[0]] == 1 and at[0][0][1] == 1:
                fixed[at[0][0][0][1]] = v - 1
            else:
                unsure += 1
    lv = list(lv)
    doms = []
    for a in lv:
        d = dom.of(a)
        if d is not None and a[0] == 'e' and a[1] in fixed:
            d = tuple(x for x in d if x == fixed[a[1]])
        if d is None:
            return ('unknown', 'summary mentions %s, which has no finite alphabet' % P._ashow(a))
        doms.append(d)
    n = 1
    for d in doms:
        n *= len(d)
        if n > cap and not pts:
            return ('unknown', 'truth table too large')
    pr = Prog(lv)
    fp, fq = pr.poly(p), pr.poly(q)
    ff = [(pr.poly(k), v) for k, v in usable]
    vals = [([pr.poly(x) for x in xs], want) for xs, want in values]
    cnt = 0
    sus = alias_pairs(lv)
    accn = len({a[1] for a in lv if a[0] == 'ps'})
    rows = dom.pick(doms) if pts and n > 64 else product(*doms)
    more = far_rows(lv, doms, [p, q] + [k for k, _ in usable], [(k, v) for k, v in usable])
    for L in chain(rows, more):
        try:
            if ff and not fact_holds(ff, None, L):
                continue
            if vals and not all({f(L) for f in fs} == want for fs, want in vals):
                continue
            cnt += 1
            x = fp(L)
            y = fq(L)
        except Unknown as e:
            return ('unknown', 'uninterpreted operation %s' % e)
        except EvalError as e:
            if unsure or accn > 1:
                return ('unknown', 'possible failure: %s' % e)
            return ('neq', dict(zip(map(P._ashow, lv), L)), 'error: %s' % e, None)
        if not same(x, y):
            if sus and not placeable(lv, L, sus):
                continue
            if unsure or accn > 1:
                return ('unknown', 'differs under a path condition that is not interpreted')
            return ('neq', dict(zip(map(P._ashow, lv), L)), x, y)
    if pts and not cnt:
        return ('vacuous', 'no sample point satisfies the path condition')
    return ('eq', '%s of %d rows' % ('generic points' if pts else 'truth table', cnt))


def constants(p, out, coef):
    """numbers a summary compares or adds, and the factors of index symbols"""
    for k, c in p.m.items():
        if not k:
            out.add(abs(c))
        elif any(a[0] == 's' for a, _ in k):
            coef.add(abs(c))
        for a, _ in k:
            if a[0] == 'f':
                for x in a[2:]:
                    if isinstance(x, Poly):
                        constants(x, out, coef)


def far_rows(lv, doms, polys, facts):
    """rows with index symbols near the numbers the summaries and path conditions mention, beyond the usual ones"""
    sy = [j for j, a in enumerate(lv) if a[0] == 's' and doms[j] is INDEXDOM]
    if not sy:
        return
    cs, ks = set(), {Fraction(1)}
    for x in polys:
        constants(x, cs, ks)
    cand = set()
    for c in sorted(c for c in cs if INDEXDOM[-1] < c < 10 ** 9)[:6]:
        for k in sorted(k for k in ks if 0 < k <= 64)[:6]:
            v = int(c / k)
            cand |= {x for x in range(v - 3, v + 4)} | {v + 40, 2 * v + 1}
    cand = sorted(x for x in cand if x > INDEXDOM[-1])[:60]
    if not cand:
        return
    own = [j for j in sy]
    fs = [(k, v) for k, v in facts if all(a[0] == 's' and a in [lv[j] for j in own] for a in leaves(k))]
    pr = Prog([lv[j] for j in own])
    fp = [(pr.poly(k), v) for k, v in fs]
    rng = random.Random(5)
    kept = 0
    for t in product([INDEXDOM[0], INDEXDOM[1], INDEXDOM[7]] + cand, repeat=len(own)):
        if all(x <= INDEXDOM[-1] for x in t):
            continue
        try:
            if fp and not fact_holds(fp, None, t):
                continue
        except (Unknown, EvalError):
            continue
        kept += 1
        if kept > 400:
            return
        for _ in range(2):
            row = [rng.choice(d) for d in doms]
            for j, x in zip(own, t):
                row[j] = x
            yield tuple(row)


def sizes(polys, facts):
    """(assignment of the index symbols, values of the polynomials) for lengths that satisfy the path conditions, when
    conditions and polynomials mention nothing else"""
    fl = [(k, v) for k, v in facts.items() if isinstance(k, Poly)]
    lv = {}
    for x in list(polys) + [k for k, _ in fl]:
        leaves(x, lv)
        if opaque_fn(x):
            return
    lv = list(lv)
    if any(a[0] != 's' or a[1] not in ('i', 'w') for a in lv) or any(isinstance(k, tuple) and k[0] in ('uniq', 'uniqv') for k in facts):
        return
    pr = Prog(lv)
    fp, gp = [(pr.poly(k), v) for k, v in fl], [pr.poly(x) for x in polys]
    doms = [INDEXDOM for _ in lv]
    for L in chain(product(*doms), far_rows(lv, doms, list(polys) + [k for k, _ in fl], fl)):
        try:
            if fact_holds(fp, None, L):
                yield dict(zip((a[1] for a in lv), L)), [f(L) for f in gp]
        except (Unknown, EvalError):
            return


def alias_pairs(lv):
    """elements of one array whose indices may or may not coincide (floor divisions, residues, several symbols)"""
    out = []
    by = {}
    for j, a in enumerate(lv):
        if a[0] == 'e':
            by.setdefault(a[1], []).append(j)
    for js in by.values():
        for x in range(len(js)):
            for y in range(x):
                a, b = lv[js[x]], lv[js[y]]
                if len(a) != len(b) or any((p - q).cint() not in (None, 0) for p, q in zip(a[2:], b[2:])):
                    continue
                out.append((js[x], js[y]))
    return out


def placeable(lv, L, pairs):
    """is there a choice of the index symbols for which elements with equal index have the assigned equal values"""
    vals = {a: v for a, v in zip(lv, L) if a[0] == 's'}
    ats = {}
    for j, k in pairs:
        for p in lv[j][2:] + lv[k][2:]:
            for b in p.all_atoms():
                if b[0] == 's' and b not in vals:
                    ats[b] = True
                elif b[0] in ('e', 'ps'):
                    return True
    rng = random.Random(3)
    for t in range(1 if not ats else 48):
        v = dict(vals)
        for b in ats:
            v[b] = rng.choice(INDEXDOM) if b[1] in ('i', 'w') else 1000 + rng.randrange(200)
        pr = Prog(list(v))
        row = list(v.values())
        try:
            if all(any(pr.poly(p)(row) != pr.poly(q)(row) for p, q in zip(lv[j][2:], lv[k][2:])) or L[j] == L[k] for j, k in pairs):
                return True
        except (Unknown, EvalError):
            return True
    return False


def _size(ats, dom):
    n = 1
    for a in ats:
        d = dom.of(a)
        n *= len(d) if d is not None else 1
    return n


def opaque_fn(p):
    """mentions an operation the evaluator does not interpret"""
    for a in p.all_atoms():
        if a[0] == 'f' and a[1] not in KNOWN:
            return True
    return False


KNOWN = {'spec', 'tab', 'ite', 'cmp', 'pi', 'floatlit', 'mod', 'fdiv', 'floor', 'ceil', 'trunc', 'round', 'abs', 'max', 'min', 'inv', 'sqrt', 'exp', 'log', 'log2',
         'log10', 'sin', 'cos', 'tan', 'sinc', 'f32', 'f16', 'argmin', 'argmax', 'sign', 'pow', 'and', 'or', 'xor', 'shl', 'shr', 'bool', 'isclose', 'var', 'addx', 'mulx'}


# -- whole-path consistency for inputs of fixed short length ------------------------------------------------------
def compatible(path, leafs, dom):
    """-> function(assignment list) -> True / False / None(unknown) : does the assignment follow this path"""
    pr = Prog(leafs)
    tests = []
    unsure = bool(path.opaque)
    for k, v in path.facts.items():
        if isinstance(k, Poly):
            fx = leaves(k)
            if fx and all(a in pr.ix for a in fx) and not opaque_fn(k):
                f = pr.poly(k)
                tests.append(lambda L, f=f, v=v: bool(f(L) != 0) == v)
            elif not fx and not opaque_fn(k):
                f = pr.poly(k)
                tests.append(lambda L, f=f, v=v: bool(f(L) != 0) == v)
            else:
                unsure = True
        elif isinstance(k, tuple) and k[0] == 'uniqv':
            if not all(a in pr.ix for q in k[1] for a in leaves(q)):
                unsure = True
                continue
            want = {k[2] + j for j in range(k[3] - k[2] + 1) if v >> j & 1}
            tests.append(lambda L, fs=[pr.poly(q) for q in k[1]], want=want: {int(f(L)) for f in fs} == want)
        elif isinstance(k, tuple) and k[0] == 'uniq':
            fs = []
            shape = k[2]
            dims = [d.cint() if d is not None else None for d in shape]
            if any(d is None or d > 64 for d in dims):
                unsure = True
                continue
            good = True
            for ix in product(*[range(d) for d in dims]):
                q = k[1].subs({('s', '?%d' % i): Poly.const(j) for i, j in enumerate(ix)})
                if not all(a in pr.ix for a in leaves(q)):
                    good = False
                    break
                fs.append(pr.poly(q))
            if not good:
                unsure = True
                continue
            want = [{0, 1}, {0}, {1}][v]
            tests.append(lambda L, fs=fs, want=want: {int(f(L)) for f in fs} == want)

    def go(L):
        try:
            for t in tests:
                if not t(L):
                    return False
        except (Unknown, EvalError):
            return None
        return None if unsure else True
    return go
