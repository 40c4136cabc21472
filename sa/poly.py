"""Polynomial normal forms over opaque atoms.

A `Poly` is the canonical value-number of a scalar: a sum of monomials with exact
rational coefficients over atoms.  Atoms are hashable tuples:

  ('s', name)                    scalar symbol (parameter or dimension)
  ('e', array, idx...)           element of an input array (idx are Poly)
  ('ps', acc_id, idx)            running sum of accumulator acc_id up to flat index idx
  ('f', name, arg...)            applied primitive (args are Poly / str / tuple constants)

Two scalars with equal normal forms are equal for every input.
"""
from fractions import Fraction
import math
import struct
from hashlib import md5

MAX_MONO = 160


LAZY = [False]            # keep sums and products beyond the bound as interpreted operations instead of giving up


def lazy(op, p, q):
    return Poly.atom(('f', op, p, q))


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ('m', '_h', '_k')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._k = None

    # -- constructors ---------------------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            if math.isnan(c) or math.isinf(c):
                return Poly({((('f', 'floatlit', repr(c)), 1),): Fraction(1)})
            c = Fraction(c)
        else:
            c = Fraction(c)
        return Poly({(): c}) if c != 0 else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    @staticmethod
    def sym(name):
        return Poly.atom(('s', name))

    # -- basics ----------------------------------------------------------------------------
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return False
        if self.m is o.m:
            return True
        if hash(self) != hash(o) or self.m != o.m:
            return False
        o.m = self.m            # share the storage: the next comparison is by identity
        return True

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def cint(self):
        c = self.cval()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def __add__(self, o):
        o = topoly(o)
        if len(self.m) < len(o.m):
            a, b = o.m, self.m
        else:
            a, b = self.m, o.m
        r = dict(a)
        for k, v in b.items():
            n = r.get(k, 0) + v
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
        if len(r) > MAX_MONO:
            if LAZY[0]:
                return lazy('addx', self, o)
            raise TooBig()
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        if len(self.m) * len(o.m) > 6000:
            if LAZY[0]:
                return lazy('mulx', self, o)
            raise TooBig()
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mmul(k1, k2)
                n = r.get(k, 0) + v1 * v2
                if n == 0:
                    r.pop(k, None)
                else:
                    r[k] = n
        if len(r) > MAX_MONO:
            if LAZY[0]:
                return lazy('mulx', self, o)
            raise TooBig()
        return Poly(r)
    __rmul__ = __mul__

    def atoms(self):
        out = set()
        for k in self.m:
            for a, _ in k:
                out.add(a)
        return out

    def all_atoms(self, out=None):
        if out is None:
            out = set()
        for k in self.m:
            for a, _ in k:
                if a not in out:
                    out.add(a)
                    for x in a[1:]:
                        _deep(x, out)
        return out

    def __repr__(self):
        if not self.m:
            return '0'
        parts = []
        for k, v in sorted(self.m.items(), key=lambda kv: _okm(kv[0])):
            s = '*'.join(_ashow(a) + ('' if p == 1 else '^%s' % p) for a, p in k)
            if not s:
                parts.append(_cshow(v))
            elif v == 1:
                parts.append(s)
            else:
                parts.append('%s*%s' % (_cshow(v), s))
        return ' + '.join(parts)

    def subs(self, mp):
        """substitute atoms by Poly (deep)"""
        r = Poly({})
        for k, v in self.m.items():
            t = Poly({(): v})
            for a, p in k:
                t = t * ppow_int(sub_atom(a, mp), p)
            r = r + t
        return r


def _deep(x, out):
    if isinstance(x, Poly):
        x.all_atoms(out)
    elif isinstance(x, tuple):
        for y in x:
            _deep(y, out)


def _cshow(v):
    if v.denominator == 1:
        return str(v.numerator)
    if v.denominator > 1000:
        return '%.6g' % float(v)
    return '%d/%d' % (v.numerator, v.denominator)


def _ashow(a):
    if a[0] == 's':
        return a[1]
    if a[0] == 'e':
        return '%s[%s]' % (a[1], ','.join(map(repr, a[2:])))
    if a[0] == 'ps':
        return 'acc%s[%r]' % (a[1], a[2])
    if a[0] == 'f':
        if a[1] == 'tab':
            return 'table%s' % (repr(a[3:]),)
        return '%s(%s)' % (a[1], ','.join(map(repr, a[2:])))
    return repr(a)


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, p in b:
        n = d.get(k, 0) + p
        if n == 0:
            d.pop(k)
        else:
            d[k] = n
    return tuple(sorted(d.items(), key=lambda kv: _akey(kv[0])))


_akeys = {}


def okey(p):
    """deterministic ordering key of a Poly (bounded size: long keys are replaced by a digest)"""
    if p._k is None:
        p._k = _short('+'.join(sorted('%s*%s' % (v, _okm(k)) for k, v in p.m.items())))
    return p._k


def _short(s):
    return s if len(s) <= 96 else '~' + md5(s.encode()).hexdigest()


def _okm(k):
    return '*'.join('%s^%s' % (_akey(a), e) for a, e in k)


def _okx(x):
    if isinstance(x, Poly):
        return okey(x)
    if isinstance(x, tuple):
        return _short('(' + ','.join(map(_okx, x)) + ')')
    return repr(x)


def _akey(a):
    k = _akeys.get(a)
    if k is None:
        k = _okx(a)
        if len(_akeys) > 200000:
            _akeys.clear()
        _akeys[a] = k
    return k


def topoly(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


def ppow_int(p, n):
    if n < 0:
        return pinv(ppow_int(p, -n))
    r = Poly.const(1)
    for _ in range(n):
        r = r * p
    return r


def pinv(p):
    c = p.cval()
    if c is not None:
        if c == 0:
            return Poly.atom(('f', 'inv', p))
        return Poly.const(1 / c)
    if len(p.m) == 1:
        (k, v), = p.m.items()
        return Poly({tuple((a, -e) for a, e in k): 1 / v})
    # factor content so inv(2x+2y) and inv(x+y)/2 agree
    lead = p.m[min(p.m, key=_okm)]
    q = p * Poly.const(1 / lead)
    return Poly({((('f', 'inv', q), 1),): 1 / lead})


def pdiv(p, q):
    return p * pinv(q)


# -- integer-ness -------------------------------------------------------------------------------
INT_SYMS = set()          # symbol names known integer
BOUNDS = {}               # atom -> integer lower bound
RESID = {}                # atom -> Poly modulus m : 0 <= atom < m
INT_ARRS = set()
ARR_LO = {}
ARR_HI = {}
SUBST = []                # stack of substitution maps used for ordering


def atom_is_int(a):
    if a[0] == 's':
        return a[1] in INT_SYMS
    if a[0] == 'e':
        return a[1] in INT_ARRS
    if a[0] == 'ps':
        return a[3] if len(a) > 3 else True
    if a[0] == 'f':
        n = a[1]
        if n in ('fdiv', 'floor', 'ceil', 'trunc', 'cmp', 'and', 'or', 'xor', 'shl', 'not', 'round', 'argmin',
                 'argmax', 'count', 'isclose', 'sign_i', 'len', 'uniqlen', 'any', 'all', 'bool'):
            return True
        if n in ('abs', 'max', 'min', 'mod', 'sign'):
            return all(is_int(x) for x in a[2:] if isinstance(x, Poly))
        if n == 'ite':
            return is_int(a[3]) and is_int(a[4])
        if n == 'pow':
            return is_int(a[2]) and is_int(a[3]) and (sign(a[3]) in ('+', '0', '>=') or a[2] == Poly.const(-1))
        if n == 'tab':
            return _tab_int(a[2])
        if n == 'sumover':
            return is_int(a[-1]) if isinstance(a[-1], Poly) else False
    return False


def _tab_int(t):
    if isinstance(t, tuple):
        return all(_tab_int(x) for x in t)
    return isinstance(t, int) or (isinstance(t, Fraction) and t.denominator == 1)


def is_int(p):
    for k, v in p.m.items():
        if v.denominator != 1:
            return False
        for a, e in k:
            if e < 0 or not atom_is_int(a):
                return False
    return True


# -- sign / ordering ------------------------------------------------------------------------------
def _lower(a):
    if a in BOUNDS:
        return BOUNDS[a]
    if a in RESID:
        return 0
    if a[0] == 'e':
        return ARR_LO.get(a[1])
    if a[0] == 'f':
        n = a[1]
        if n in ('abs', 'cmp', 'sqrt', 'var', 'isclose', 'count', 'len', 'and', 'or', 'not', 'argmin', 'argmax', 'any', 'all', 'bool'):
            return 0
        if n == 'uniqlen':
            return 1
        if n == 'mod':
            return 0 if isinstance(a[3], Poly) and a[3] is not None and (a[3].cval() or 0) > 0 or (a[3].cval() is None and sign(a[3]) == '+') else None
        if n == 'fdiv':
            d = a[3].cval()
            if d is not None and d > 0:
                l = _plow(a[2])
                return None if l is None else Fraction(math.floor(l / d))
            if sign(a[2]) in ('+', '0', '>=') and sign(a[3]) == '+':
                return 0
        if n == 'ceil':
            s = sign(a[2])
            if s == '+':
                return 1
            if s in ('0', '>='):
                return 0
        if n == 'floor' or n == 'trunc':
            if sign(a[2]) in ('+', '0', '>='):
                return 0
        if n == 'max':
            ls = [_plow(x) for x in a[2:]]
            ls = [x for x in ls if x is not None]
            return max(ls) if ls else None
        if n == 'min':
            ls = [_plow(x) for x in a[2:]]
            return min(ls) if all(x is not None for x in ls) else None
        if n == 'pow':
            if a[2].cval() is not None and a[2].cval() > 0:
                return 0
        if n == 'sumover':
            return None
    return None


def _upper(a):
    if a[0] == 'e':
        return ARR_HI.get(a[1])
    if a[0] == 'f':
        n = a[1]
        if n in ('cmp', 'isclose', 'and', 'or', 'not', 'any', 'all', 'bool'):
            return 1 if n in ('cmp', 'isclose', 'any', 'all', 'bool') else None
        if n in ('argmax', 'argmin') and len(a) > 2 and all(isinstance(x, Poly) for x in a[2:]):
            return Fraction(len(a) - 3)
        if n == 'fdiv':
            d = a[3].cval()
            if d is not None and d > 0:
                l = _plow(-a[2])
                return None if l is None else Fraction(math.floor(-l / d))
        if n == 'mod':
            d = a[3].cval()
            if d is not None and d > 0:
                return d - 1 if is_int(a[2]) and d.denominator == 1 else d
    return None


def _plow(p):
    """lower bound of a Poly, or None"""
    for mp in SUBST:
        if any(a in mp for a in p.atoms()):
            p = p.subs(mp)
    lo = Fraction(0)
    # shift every bounded symbol s = lo + s'
    shift = {}
    for a in p.atoms():
        l = _lower(a)
        if l is None:
            continue
        if l != 0:
            shift[a] = l
    if shift:
        r = Poly({})
        for k, v in p.m.items():
            t = Poly({(): v})
            for a, e in k:
                if a in shift and e > 0:
                    t = t * ppow_int(Poly({((('shift', a), 1),): Fraction(1), (): Fraction(shift[a])}), e)
                else:
                    t = t * Poly({((a, e),): Fraction(1)})
            r = r + t
        p = r
    # residues 0 <= r < m : a negative occurrence  -r  is >= -(m-1)
    p = _resolve_resid(p)
    for k, v in p.m.items():
        if not k:
            lo += v
            continue
        ok = all(a[0] == 'shift' or (_lower(a) is not None) for a, e in k)
        even = all(e % 2 == 0 for a, e in k)
        if v > 0 and (ok or even):
            continue
        if v < 0 and len(k) == 1 and k[0][1] == 1 and k[0][0][0] in ('e', 'f', 'shift'):
            a = k[0][0]
            u = _upper(a[1] if a[0] == 'shift' else a)
            if u is not None:
                lo += v * (u - (shift.get(a[1], 0) if a[0] == 'shift' else 0))
                continue
        return None
    return lo


def _resolve_resid(p):
    for a in list(p.atoms()):
        if a in RESID:
            m = RESID[a]
            neg = [k for k, v in p.m.items() if v < 0 and any(x == a for x, _ in k)]
            if neg and all(len(k) == 1 and k[0][1] == 1 for k in neg):
                k = neg[0]
                c = -p.m[k]
                q = dict(p.m)
                del q[k]
                # -c*r = -c*(m-1) + c*(m-1-r); the second is >= 0
                p = Poly(q) + (m - 1) * Poly.const(-c)
                # re-shift the modulus symbols
                sh = {}
                for b in p.atoms():
                    l = _lower(b)
                    if l:
                        sh[b] = l
                if sh:
                    r = Poly({})
                    for kk, v in p.m.items():
                        t = Poly({(): v})
                        for b, e in kk:
                            if b in sh and e > 0:
                                t = t * ppow_int(Poly({((('shift', b), 1),): Fraction(1), (): Fraction(sh[b])}), e)
                            else:
                                t = t * Poly({((b, e),): Fraction(1)})
                        r = r + t
                    p = r
    return p


_depth = [0]


def _undiv(p):
    """rewrite  fdiv(a, q) = (a - mod(a, q)) / q  for constant q"""
    mp = {}
    for a in p.atoms():
        if a[0] == 'f' and a[1] == 'fdiv':
            q = a[3].cint()
            if q is not None and q > 0:
                mp[a] = (a[2] - F('mod', a[2], a[3])) * Fraction(1, q)
    if not mp:
        return None
    r = Poly({})
    for k, v in p.m.items():
        t = Poly({(): v})
        for a, e in k:
            t = t * (ppow_int(mp[a], e) if a in mp and e > 0 else Poly({((a, e),): Fraction(1)}))
        r = r + t
    return r


def sign(p):
    """'+','-','0','>=' (nonneg),'<=' (nonpos) or None"""
    c = p.cval()
    if c is not None:
        return '0' if c == 0 else ('+' if c > 0 else '-')
    if _depth[0] > 6:
        return None
    _depth[0] += 1
    try:
        l = _plow(p)
        if l is not None:
            if l > 0:
                return '+'
            if l == 0:
                return '>='
            # integer refinement is not needed here
        u = _plow(-p)
        if u is not None:
            if u > 0:
                return '-'
            if u == 0:
                return '<='
        q = _undiv(p)
        if q is not None:
            return sign(q)
        return None
    except TooBig:
        return None
    finally:
        _depth[0] -= 1


def cmp0(p, op):
    """decide p op 0 -> True/False/None"""
    s = sign(p)
    if s is None:
        return None
    if op == '==':
        return True if s == '0' else (False if s in '+-' else None)
    if op == '!=':
        return False if s == '0' else (True if s in '+-' else None)
    if op == '>':
        return True if s == '+' else (False if s in ('-', '0', '<=') else None)
    if op == '>=':
        return True if s in ('+', '0', '>=') else (False if s == '-' else None)
    if op == '<':
        return True if s == '-' else (False if s in ('+', '0', '>=') else None)
    if op == '<=':
        return True if s in ('-', '0', '<=') else (False if s == '+' else None)
    return None


# -- primitive constructors with simplification -----------------------------------------------------
def is_bit(p):
    return is_int(p) and cmp0(p, '>=') is True and cmp0(1 - p, '>=') is True


def F(name, *args):
    return Poly.atom(('f', name) + args)


def pmod(p, q):
    c, d = p.cval(), q.cval()
    if d is not None and d == 0:
        return F('mod', p, q)
    if c is not None and d is not None:
        return Poly.const(c - d * math.floor(c / d))
    # drop monomials that are integer multiples of q
    if d is not None:
        r = {}
        for k, v in p.m.items():
            if all(e > 0 and atom_is_int(a) for a, e in k):
                v2 = v - d * math.floor(v / d)
                if v2 != 0:
                    r[k] = v2
            else:
                r[k] = v
        p2 = Poly(r)
        # mod(mod(x,kq) , q)
        if p2.cval() is not None:
            c = p2.cval()
            return Poly.const(c - d * math.floor(c / d))
        p2 = _mod_inner(p2, q)
        if _in_range(p2, q):
            return p2
        return F('mod', p2, q)
    r = {}
    for k, v in p.m.items():
        if v.denominator == 1 and len(q.m) == 1:
            (qk, qv), = q.m.items()
            if qv == 1 and _mdivides(qk, k):
                continue
        r[k] = v
    p2 = Poly(r)
    if len(q.m) > 1:
        # try to remove integer multiples of a multi-term modulus by leading monomial
        p2 = _reduce_multi(p, q)
    if not p2.m:
        return p2
    if _in_range(p2, q):
        return p2
    # negative residue: -r  mod m, r in (0,m)
    if _in_range(p2 + q, q):
        return p2 + q
    return F('mod', p2, q)


def _mod_inner(p, q):
    """(a + mod(b, m)*c) mod q  with q | m  ->  a + b*c"""
    d = q.cval()
    out = Poly({})
    changed = False
    for k, v in p.m.items():
        if len(k) == 1 and k[0][1] == 1 and k[0][0][0] == 'f' and k[0][0][1] == 'mod' and v.denominator == 1:
            m = k[0][0][3].cval()
            if m is not None and m % d == 0:
                out = out + k[0][0][2] * Poly.const(v)
                changed = True
                continue
        out = out + Poly({k: v})
    return pmod_flat(out, q) if changed else p


def pmod_flat(p, q):
    d = q.cval()
    r = {}
    for k, v in p.m.items():
        if all(e > 0 and atom_is_int(a) for a, e in k):
            v2 = v - d * math.floor(v / d)
            if v2 != 0:
                r[k] = v2
        else:
            r[k] = v
    return Poly(r)


def _mdivides(a, b):
    db = dict(b)
    for x, e in a:
        if db.get(x, 0) < e:
            return False
    rest = dict(b)
    for x, e in a:
        rest[x] -= e
    return all(e == 0 or (e > 0 and atom_is_int(x)) for x, e in rest.items())


def _reduce_multi(p, q):
    lead = max((k for k in q.m if k), key=_okm, default=None)
    if lead is None:
        return p
    v = p.m.get(lead)
    if v is None:
        return p
    c = v / q.m[lead]
    if c.denominator != 1:
        return p
    return p - q * Poly.const(c)


def _in_range(p, q):
    return cmp0(p, '>=') is True and cmp0(q - p, '>') is True


def pfdiv(p, q):
    c, d = p.cval(), q.cval()
    if d is not None and d == 0:
        return F('fdiv', p, q)
    if c is not None and d is not None:
        return Poly.const(math.floor(c / d))
    if d == 1 and is_int(p):
        return p
    # integer multiples of q come out
    quo, rem = {}, {}
    for k, v in p.m.items():
        if d is not None and all(e > 0 and atom_is_int(a) for a, e in k):
            f = Fraction(math.trunc(v / d)) if k else Fraction(0)
            if f:
                quo[k] = f
            if v - f * d:
                rem[k] = v - f * d
        elif len(q.m) == 1 and d is None:
            (qk, qv), = q.m.items()
            if _mdivides(qk, k) and (v / qv).denominator == 1:
                kk = dict(k)
                for x, e in qk:
                    kk[x] -= e
                key = tuple(sorted(((x, e) for x, e in kk.items() if e), key=lambda kv: _akey(kv[0])))
                quo[key] = quo.get(key, 0) + v / qv
            else:
                rem[k] = v
        else:
            rem[k] = v
    Q, R = Poly(quo), Poly(rem)
    if not R.m:
        return Q
    rc = R.cval()
    if rc is not None and d is not None:
        return Q + math.floor(rc / d)
    if _in_range(R, q):
        return Q
    if _in_range(R + q, q):
        return Q - 1
    return Q + F('fdiv', R, q)


def near_int(c):
    """A constant computed from binary fractions that are only roundings of decimal ones (1.9 * 200): the integer it rounds to."""
    if c.denominator > (1 << 40):
        r = round(c)
        if abs(c - r) <= abs(c) * Fraction(1, 10 ** 13):
            return Fraction(r)
    return c


def pfloor(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(math.floor(near_int(c)))
    r = _as_ratio(p)
    if r is not None:
        return pfdiv(r[0], r[1])
    return F('floor', p)


def pceil(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(math.ceil(near_int(c)))
    r = _as_ratio(p)
    if r is not None:
        return -pfdiv(-r[0], r[1])
    return F('ceil', p)


def _as_ratio(p):
    """p = num/den with integer num and den > 0 (monomial or inv-atom denominators)"""
    den = Poly.const(1)
    for k, v in p.m.items():
        dk = Poly.const(v.denominator)
        for a, e in k:
            if e < 0:
                dk = dk * ppow_int(Poly.atom(a), -e)
            elif a[0] == 'f' and a[1] == 'inv':
                dk = dk * ppow_int(a[2], e)
        if den == Poly.const(1):
            den = dk
        elif dk == Poly.const(1) or dk == den:
            continue
        else:
            return None
    if den == Poly.const(1):
        return None
    num = Poly({})
    for k, v in p.m.items():
        t = Poly.const(v)
        inv_here = False
        for a, e in k:
            if a[0] == 'f' and a[1] == 'inv':
                inv_here = True
            else:
                t = t * Poly({((a, e),): Fraction(1)})
        if inv_here:
            # v * stuff * 1/den_atom ; den contains exactly that factor
            t = t * den * pinv_factor(k)
        else:
            t = t * den
        num = num + t
    if is_int(num) and is_int(den) and cmp0(den, '>') is True:
        return num, den
    return None


def pinv_factor(k):
    r = Poly.const(1)
    for a, e in k:
        if a[0] == 'f' and a[1] == 'inv':
            q = ppow_int(a[2], e)
            # den is a multiple of q only when equal up to constants; handled by caller's check
            r = r * Poly.atom(('f', 'inv', q)) if len(q.m) > 1 else r * pinv(q)
    return r


def ptrunc(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(math.trunc(near_int(c)))
    s = sign(p)
    if s in ('+', '>=', '0'):
        return pfloor(p)
    return F('trunc', p)


def pround(p):
    if is_int(p):
        return p
    c = p.cval()
    if c is not None:
        return Poly.const(round(c))
    return F('round', p)


def pabs(p):
    s = sign(p)
    if s in ('+', '0', '>='):
        return p
    if s in ('-', '<='):
        return -p
    # canonical sign
    k = min(p.m, key=_okm)
    if p.m[k] < 0:
        p = -p
    return F('abs', p)


def pmax(*ps):
    out = []
    for p in dict.fromkeys(ps):
        if any(cmp0(q - p, '>=') is True for q in out):
            continue
        out = [q for q in out if cmp0(p - q, '>=') is not True]
        out.append(p)
    if len(out) == 1:
        return out[0]
    return F('max', *sorted(out, key=okey))


def pmin(*ps):
    r = pmax(*[-p for p in ps])
    at = list(r.m.items())
    if len(at) == 1 and at[0][0] and at[0][0][0][0][0] == 'f' and at[0][0][0][0][1] == 'max' and at[0][1] == 1 and len(at[0][0]) == 1:
        return F('min', *sorted([-q for q in at[0][0][0][0][2:]], key=okey))
    return -r


def pcmp(op, p, q):
    """0/1 valued comparison"""
    d = p - q
    r = cmp0(d, op)
    if r is not None:
        return Poly.const(int(r))
    if op in ('>', '>='):
        d = -d
        op = {'>': '<', '>=': '<='}[op]
    if op == '!=':
        return Poly.const(1) - pcmp('==', p, q)
    if op == '==':
        k = min(d.m, key=_okm)
        lead = d.m[k]
        d = d * Poly.const(1 / lead)
        if len(d.m) <= 2 and is_int(p) and is_int(q) and () in d.m and d.m[()].denominator != 1:
            return Poly.const(0)
    if op == '<=' and is_int(d):
        return F('cmp', '<', d - 1)
    return F('cmp', op, d)


def pite(c, a, b):
    cv = c.cval()
    if cv is not None:
        return a if cv != 0 else b
    if a == b:
        return a
    return F('ite', c, a, b)


def ppow(p, q):
    c, d = p.cval(), q.cval()
    if d is not None and d.denominator == 1 and abs(d) <= 8:
        return ppow_int(p, int(d))
    if c is not None and d is not None:
        if d.denominator == 1 and abs(d) < 4096:
            if c != 0 or d > 0:
                return Poly.const(c ** int(d))
        else:
            try:
                if d == Fraction(1, 2):
                    return psqrt(p)
            except Exception:
                pass
        return F('pow', p, q)
    if c is not None and c == 1:
        return p
    if d == Fraction(1, 2):
        return psqrt(p)
    # c^(a+n): pull out integer constants
    if c is not None and c not in (0,) and () in q.m and q.m[()].denominator == 1 and abs(q.m[()]) < 64:
        n = int(q.m[()])
        rest = Poly({k: v for k, v in q.m.items() if k})
        return Poly.const(c ** n) * F('pow', p, rest)
    return F('pow', p, q)


def psqrt(p):
    c = p.cval()
    if c is not None and c >= 0:
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Poly.const(Fraction(a, b))
    return F('sqrt', p)


def tab(vals, *idx):
    """constant table lookup; vals nested tuple of numbers"""
    cs = [i.cint() for i in idx]
    if all(c is not None for c in cs):
        v = vals
        try:
            for c in cs:
                v = v[c]
            return Poly.const(v)
        except IndexError:
            return F('tab', vals, *idx)
    return F('tab', vals, *idx)


def sub_atom(a, mp):
    if a in mp:
        return mp[a]
    if a[0] == 's':
        return Poly.atom(a)
    if a[0] == 'e':
        return Poly.atom(('e', a[1]) + tuple(x.subs(mp) for x in a[2:]))
    if a[0] == 'ps':
        return Poly.atom(('ps', a[1], a[2].subs(mp)) + a[3:])
    if a[0] == 'f':
        args = [x.subs(mp) if isinstance(x, Poly) else x for x in a[2:]]
        return rebuild(a[1], args)
    return Poly.atom(a)


def rebuild(n, args):
    if n == 'mod':
        return pmod(*args)
    if n == 'fdiv':
        return pfdiv(*args)
    if n == 'floor':
        return pfloor(*args)
    if n == 'ceil':
        return pceil(*args)
    if n == 'trunc':
        return ptrunc(*args)
    if n == 'round':
        return pround(*args)
    if n == 'addx':
        return args[0] + args[1]
    if n == 'mulx':
        return args[0] * args[1]
    if n == 'abs':
        return pabs(*args)
    if n == 'max':
        return pmax(*args)
    if n == 'min':
        return pmin(*args)
    if n == 'cmp':
        return pcmp(args[0], args[1], Poly({}))
    if n == 'ite':
        return pite(*args)
    if n == 'pow':
        return ppow(*args)
    if n == 'sqrt':
        return psqrt(*args)
    if n == 'inv':
        return pinv(*args)
    if n == 'tab':
        return tab(*args)
    return F(n, *args)


# -- evaluation over a valuation of atoms -------------------------------------------------------------
class EvalError(Exception):
    pass


class Unknown(Exception):
    pass


def evaluate(p, val):
    """val: callable atom -> number for leaf atoms; returns Fraction/int/float; raises EvalError on a
    run-time error of the abstracted operation, Unknown when some atom is not interpretable"""
    tot = 0
    for k, v in p.m.items():
        t = v
        for a, e in k:
            x = eval_atom(a, val)
            if e < 0 and x == 0:
                raise EvalError('division by zero')
            t = t * (Fraction(x) ** e if isinstance(x, (int, Fraction)) else x ** e)
        tot = tot + t
    return tot


def eval_atom(a, val):
    if a[0] in ('s', 'e', 'ps'):
        return val(a)
    n = a[1]
    if n == 'tab':
        v = a[2]
        for i in a[3:]:
            x = evaluate(i, val)
            if x != int(x):
                raise EvalError('non-integer index')
            x = int(x)
            if x < -len(v) or x >= len(v):
                raise EvalError('index %d out of range for table of %d' % (x, len(v)))
            v = v[x]
        return v
    if n == 'ite':
        return evaluate(a[3] if evaluate(a[2], val) != 0 else a[4], val)
    if n == 'cmp':
        x = evaluate(a[3], val)
        return int({'<': x < 0, '<=': x <= 0, '==': x == 0, '>': x > 0, '>=': x >= 0, '!=': x != 0}[a[2]])
    if n == 'pi':
        return math.pi
    if n == 'floatlit':
        return float(a[2])
    xs = [evaluate(x, val) if isinstance(x, Poly) else x for x in a[2:]]
    try:
        return _prim(n, xs)
    except (ZeroDivisionError, OverflowError, ValueError) as e:
        raise EvalError(str(e))


def _prim(n, xs):
    if n == 'mod':
        return xs[0] - xs[1] * math.floor(xs[0] / xs[1])
    if n == 'fdiv':
        return math.floor(xs[0] / xs[1])
    if n == 'floor':
        return math.floor(xs[0])
    if n == 'ceil':
        return math.ceil(xs[0])
    if n == 'trunc':
        return math.trunc(xs[0])
    if n == 'round':
        return round(xs[0])
    if n == 'addx':
        return xs[0] + xs[1]
    if n == 'mulx':
        return xs[0] * xs[1]
    if n == 'abs':
        return abs(xs[0])
    if n == 'max':
        return max(xs)
    if n == 'min':
        return min(xs)
    if n == 'inv':
        if xs[0] == 0:
            raise EvalError('division by zero')
        return 1 / Fraction(xs[0]) if isinstance(xs[0], (int, Fraction)) else 1 / xs[0]
    if n == 'sqrt':
        return math.sqrt(xs[0])
    if n == 'f32':
        return struct.unpack('f', struct.pack('f', float(xs[0])))[0]
    if n == 'f16':
        return struct.unpack('e', struct.pack('e', float(xs[0])))[0]
    if n in ('exp', 'log', 'log2', 'log10', 'sin', 'cos', 'tan'):
        return getattr(math, n)(xs[0])
    if n == 'sinc':
        x = math.pi * float(xs[0])
        return 1.0 if x == 0 else math.sin(x) / x
    if n == 'argmin':
        return min(range(len(xs)), key=lambda i: xs[i])
    if n == 'argmax':
        return max(range(len(xs)), key=lambda i: (xs[i], -i))
    if n == 'var':
        m = sum(xs) / Fraction(len(xs)) if all(isinstance(x, (int, Fraction)) for x in xs) else sum(map(float, xs)) / len(xs)
        return sum((x - m) ** 2 for x in xs) / len(xs)
    if n == 'sign':
        return (xs[0] > 0) - (xs[0] < 0)
    if n == 'pow':
        if xs[1] == int(xs[1]):
            return Fraction(xs[0]) ** int(xs[1]) if isinstance(xs[0], (int, Fraction)) else xs[0] ** int(xs[1])
        return float(xs[0]) ** float(xs[1])
    if n == 'and':
        return int(xs[0]) & int(xs[1])
    if n == 'or':
        return int(xs[0]) | int(xs[1])
    if n == 'xor':
        return int(xs[0]) ^ int(xs[1])
    if n == 'shl':
        return int(xs[0]) << int(xs[1])
    if n == 'shr':
        return int(xs[0]) >> int(xs[1])
    if n == 'bool':
        return int(xs[0] != 0)
    if n == 'isclose':
        return int(abs(float(xs[0]) - float(xs[1])) <= 1e-8 + 1e-5 * abs(float(xs[1])))
    raise Unknown(n)
