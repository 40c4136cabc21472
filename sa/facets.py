"""Non-relational facets carried by every abstract value.

deps : frozenset of source labels (parameters, 'rng', ...) the value may depend on
lin  : {source: code}; a missing source means "independent of the source".  Codes:
         'L' linear (homogeneous)   'A' affine   'N' definitely not linear/affine   'U' unknown
deg  : {source: d}; degree of positive homogeneity in the source; missing = 0 (independent)
         a Fraction, 'X' definitely not homogeneous, 'U' unknown
"""
from fractions import Fraction

EMPTY = frozenset()


class Fx:
    __slots__ = ('deps', 'lin', 'deg')

    def __init__(self, deps=EMPTY, lin=None, deg=None):
        self.deps = deps
        self.lin = lin or {}
        self.deg = deg or {}

    def __eq__(self, o):
        return self.deps == o.deps and self.lin == o.lin and self.deg == o.deg

    def __repr__(self):
        return 'Fx(%s,%s,%s)' % (sorted(self.deps), self.lin, self.deg)

    def with_deps(self, d):
        if d <= self.deps:
            return self
        return Fx(self.deps | d, self.lin, self.deg)


NOFX = Fx()


def alldeps(fs):
    d = EMPTY
    for f in fs:
        d = d | f.deps
    return d


def _srcs(fs, which):
    s = set()
    for f in fs:
        s |= set(getattr(f, which))
    return s


def fx_shape(fs):
    """depends only on shapes of the arguments"""
    return Fx(alldeps(fs))


def fx_join(fs):
    """one of the arguments (control-flow join)"""
    fs = list(fs)
    if not fs:
        return NOFX
    if all(f is fs[0] for f in fs):
        return fs[0]
    lin, deg = {}, {}
    for s in _srcs(fs, 'lin'):
        cs = {f.lin.get(s, 'C') for f in fs}
        lin[s] = cs.pop() if len(cs) == 1 else ('A' if cs <= {'C', 'L', 'A'} and 'A' in cs else 'U')
    for s in _srcs(fs, 'deg'):
        cs = {f.deg.get(s, Fraction(0)) for f in fs}
        deg[s] = cs.pop() if len(cs) == 1 else 'U'
    return Fx(alldeps(fs), lin, deg)


def fx_lincomb(fs, zero=None):
    """sum / concatenation style combination; zero[i] True when argument i is identically zero"""
    fs = list(fs)
    zero = zero or [False] * len(fs)
    live = [f for f, z in zip(fs, zero) if not z]
    lin, deg = {}, {}
    for s in _srcs(fs, 'lin'):
        cs = [f.lin.get(s, 'C') for f in live]
        n = cs.count('N')
        if 'U' in cs or n > 1:
            c = 'U'
        elif n == 1:
            c = 'N'
        elif 'A' in cs or ('L' in cs and 'C' in cs):
            c = 'A'
        elif 'L' in cs:
            c = 'L'
        else:
            continue
        lin[s] = c
    for s in _srcs(fs, 'deg'):
        cs = [f.deg.get(s, Fraction(0)) for f in live]
        if not cs:
            continue
        if 'U' in cs:
            c = 'U'
        elif 'X' in cs:
            c = 'X' if cs.count('X') == 1 else 'U'
        elif len(set(cs)) == 1:
            c = cs[0]
        else:
            c = 'X'
        if c != 0:
            deg[s] = c
    return Fx(alldeps(fs), lin, deg)


def fx_mul(a, b, zero=False):
    if zero:
        return Fx(a.deps | b.deps)
    lin, deg = {}, {}
    for s in _srcs((a, b), 'lin'):
        x, y = a.lin.get(s, 'C'), b.lin.get(s, 'C')
        if 'U' in (x, y):
            c = 'U'
        elif x == 'C':
            c = y
        elif y == 'C':
            c = x
        elif 'N' in (x, y):
            c = 'U'
        else:
            c = 'N'
        lin[s] = c
    for s in _srcs((a, b), 'deg'):
        x, y = a.deg.get(s, Fraction(0)), b.deg.get(s, Fraction(0))
        if 'U' in (x, y):
            c = 'U'
        elif 'X' in (x, y):
            c = 'U' if x == y else 'X'
        else:
            c = x + y
        if c != 0:
            deg[s] = c
    return Fx(a.deps | b.deps, lin, deg)


def fx_recip(b):
    lin = {s: ('U' if c == 'U' else 'N') for s, c in b.lin.items()}
    deg = {s: (d if d in ('U', 'X') else -d) for s, d in b.deg.items()}
    return Fx(b.deps, lin, deg)


def fx_div(a, b, zero=False):
    if zero:
        return Fx(a.deps | b.deps)
    r = fx_mul(a, fx_recip(b))
    for s in list(r.lin):
        if a.lin.get(s, 'C') != 'C' and b.lin.get(s, 'C') != 'C':
            r.lin[s] = 'U' if r.lin[s] != 'U' else 'U'
    return r


def fx_pow(a, n):
    """n: Fraction constant exponent or None"""
    lin, deg = {}, {}
    for s, c in a.lin.items():
        if n == 1:
            lin[s] = c
        elif n == 0:
            continue
        else:
            lin[s] = 'U' if c in ('U', 'N') else 'N'
    for s, d in a.deg.items():
        if d in ('U', 'X') or n is None:
            deg[s] = 'U' if d == 'U' or n is None else d
        elif d * n != 0:
            deg[s] = d * n
    return Fx(a.deps, lin, deg)


def fx_nonlin(fs, degmode='X'):
    """definitely nonlinear function.  degmode: 'same' keeps the degree, 'zero' drops equal degrees to 0,
    'half' square root, 'X' breaks homogeneity of anything with a non-zero degree"""
    fs = list(fs)
    lin, deg = {}, {}
    for s in _srcs(fs, 'lin'):
        cs = [f.lin.get(s, 'C') for f in fs]
        if 'U' in cs:
            lin[s] = 'U'
        else:
            lin[s] = 'N'
    for s in _srcs(fs, 'deg'):
        cs = [f.deg.get(s, Fraction(0)) for f in fs]
        if 'U' in cs:
            c = 'U'
        elif 'X' in cs:
            c = 'X' if len([x for x in cs if x == 'X']) == 1 else 'U'
        elif degmode == 'same':
            c = cs[0] if len(set(cs)) == 1 else 'X'
        elif degmode == 'zero':
            c = Fraction(0) if len(set(cs)) == 1 else 'X'
        elif degmode == 'half':
            c = cs[0] / 2
        else:
            c = 'X' if any(x != 0 for x in cs) else Fraction(0)
        if c != 0:
            deg[s] = c
    return Fx(alldeps(fs), lin, deg)


def fx_unknown(fs):
    fs = list(fs)
    return Fx(alldeps(fs), {s: 'U' for s in _srcs(fs, 'lin')}, {s: 'U' for s in _srcs(fs, 'deg')})


def fx_select(data, sel):
    """elements of `data` chosen by `sel` (indices / masks)"""
    lin = dict(data.lin)
    for s in sel.lin:
        lin[s] = 'U' if data.lin.get(s) == 'U' or sel.lin[s] == 'U' else 'N'
    deg = dict(data.deg)
    for s, d in sel.deg.items():
        if d == 'U' or deg.get(s) == 'U':
            deg[s] = 'U'
        else:
            deg[s] = 'X'
    return Fx(data.deps | sel.deps, lin, deg)
