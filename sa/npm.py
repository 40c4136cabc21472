"""Abstract model of the Python builtins, NumPy and SciPy operations the repository uses.

Every operation states four things about its result: where its storage comes from (fresh or a view),
its shape, its element values (as a function of the index, where that is expressible) and how it
depends on its operands (dependence / linearity / degree facets).  Operations that are not modelled
return an unknown value; constants are folded with NumPy itself.
"""
import ast
import math
import numpy as np
from fractions import Fraction
from . import poly as P
from .poly import Poly, TooBig, cmp0, F
from .dom import *
from .dom import V, Arr, Lst, Dct, Inst, Itr
from .facets import *
from .facets import Fx, NOFX

ZERO = Poly.const(0)
ONE = Poly.const(1)
RANK = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3}
MAXTAB = 70000


def pc(c):
    return Poly.const(c)


# ---------------------------------------------------------------------------------------------------
# conversions
# ---------------------------------------------------------------------------------------------------
def nt_of_dtype(dt):
    k = dt.kind
    return {'b': 'bool', 'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex'}.get(k)


def memo(f):
    cache = {}

    def g(idx):
        k = idx
        if k in cache:
            return cache[k]
        try:
            r = f(idx)
        except TooBig:
            r = None
        cache[k] = r
        return r
    return g


def const_elem(c):
    if c.dtype.kind not in 'biuf' or c.size > MAXTAB:
        return None
    holder = {}

    def tabv():
        if 't' not in holder:
            def conv(x):
                if isinstance(x, list):
                    return tuple(conv(y) for y in x)
                if isinstance(x, bool):
                    return int(x)
                if isinstance(x, float) and not math.isfinite(x):
                    return x
                return x if isinstance(x, int) else Fraction(x)
            holder['t'] = conv(c.tolist())
        return holder['t']

    def f(idx):
        if c.ndim == 0:
            return pc(c.item())
        cs = [i.cint() for i in idx]
        if all(x is not None for x in cs):
            try:
                return pc(c[tuple(cs)].item())
            except IndexError:
                return None
        if c.size and (c == c.flat[0]).all():
            return pc(c.flat[0].item())
        return P.tab(tabv(), *idx)
    return memo(f)


NARROW = {'int8': (-2 ** 7, 2 ** 7), 'int16': (-2 ** 15, 2 ** 15), 'int32': (-2 ** 31, 2 ** 31), 'uint8': (0, 2 ** 8), 'uint16': (0, 2 ** 16), 'uint32': (0, 2 ** 32), 'float32': None, 'float16': None}
CODES = {'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'f4': 'float32', 'f2': 'float16', 'B': 'uint8', 'b': 'int8', 'h': 'int16', 'H': 'uint16',
         'byte': 'int8', 'ubyte': 'uint8', 'short': 'int16', 'ushort': 'uint16', 'intc': 'int32', 'uintc': 'uint32', 'single': 'float32', 'half': 'float16'}


def dtype_w(v):
    """name of a dtype argument narrower than the default of its kind"""
    n = v.c if v is not None and v.k in ('ext', 'type', 'str') else None
    if not isinstance(n, str):
        return None
    n = n.split('.')[-1].lstrip('<>=|')
    n = CODES.get(n, n)
    return n if n in NARROW else None


def rounded(fn, p):
    c = p.cval()
    if c is not None:
        try:
            return pc(Fraction(P._prim(fn, [c])))
        except (OverflowError, ValueError):
            return p
    return F(fn, p)


def narrow(a, w):
    """values of array a kept in dtype w: integers wrap around, floats round"""
    if w is None or a.nt not in ('int', 'float', 'bool'):
        return a
    if a.const is not None:
        with np.errstate(all='ignore'):
            f = from_const(a.const.astype(w))
        return a.rep(nt=f.nt, const=f.const, elem=f.elem, lo=f.lo, hi=f.hi, w=w)
    r = NARROW[w]
    if r is None or a.nt == 'float':
        if r is None and a.nt == 'float' and a.elem is not None:
            e, fn = a.elem, 'f32' if w == 'float32' else 'f16'
            return a.rep(w=w, elem=memo(lambda idx: None if e(idx) is None else rounded(fn, e(idx))))
        return a.rep(w=w if r is None else None)
    if a.lo is not None and a.hi is not None and r[0] <= a.lo and a.hi < r[1]:
        return a.rep(w=w)
    e = a.elem
    lo, size = pc(r[0]), pc(r[1] - r[0])
    return a.rep(nt='int', w=w, lo=None, hi=None, elem=memo(lambda idx: None if e(idx) is None else P.pmod(e(idx) - lo, size) + lo) if e else None)


def result_w(x, y):
    """dtype of an operation on two arrays, when it is a narrow integer"""
    if x.w is None and y.w is None:
        return None
    ws = []
    for z in (x, y):
        if z.w is not None:
            ws.append(z.w)
        elif z.nt == 'bool' or 'scalar' in z.flags and z.nt == 'int':
            continue
        else:
            return None
    w = np.result_type(*ws).name
    return w if w in NARROW else None


def from_const(c):
    """python/numpy constant -> Arr (unallocated)"""
    c = np.asarray(c)
    lo = hi = None
    if c.size and c.dtype.kind in 'biuf':
        with np.errstate(all='ignore'):
            l, h = c.min(), c.max()
        if np.isfinite(l) and np.isfinite(h):
            lo, hi = Fraction(l.item()), Fraction(h.item())
    return Arr(shape=tuple(pc(int(n)) for n in c.shape), nt=nt_of_dtype(c.dtype), elem=const_elem(c), const=c, lo=lo, hi=hi, w=c.dtype.name if c.dtype.name in NARROW else None)


def wrap_const(I, x, node, fx=NOFX):
    """result of a folded call -> V"""
    if x is None:
        return NONE
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return wrap_const(I, x[()], node, fx)
        a = from_const(x).rep(fx=fx)
        return I.alloc(a, node)
    if isinstance(x, (bool, np.bool_)):
        return num(pc(int(x)), 'bool', fx, isinstance(x, np.bool_))
    if isinstance(x, (int, np.integer)):
        return num(pc(int(x)), 'int', fx, isinstance(x, np.integer))
    if isinstance(x, (float, np.floating)):
        return num(pc(float(x)), 'float', fx, isinstance(x, np.floating))
    if isinstance(x, (complex, np.complexfloating)):
        return V('num', p=None, nt='complex', fx=fx, np_=True)
    if isinstance(x, str):
        return vstr(x, fx)
    if isinstance(x, tuple):
        return vtuple([wrap_const(I, y, node, fx) for y in x])
    if isinstance(x, list):
        return I.alloc(Lst([wrap_const(I, y, node, fx) for y in x]), node)
    return top(fx)


DT = {'int': int, 'float': float, 'bool': bool, 'complex': complex, 'object': object}


class NotConst(Exception):
    pass


def cval(I, v):
    """python value of a fully constant abstract value, raises NotConst"""
    if v.k == 'num':
        if v.p is None:
            raise NotConst
        c = v.cnum()
        if c is None:
            a = v.p.atoms()
            if len(v.p.m) == 1 and len(a) == 1 and next(iter(a))[:2] == ('f', 'floatlit') and list(v.p.m.values())[0] == 1:
                return float(next(iter(a))[2])
            try:
                return float(P.evaluate(v.p, _noval))
            except (P.Unknown, P.EvalError, _Leaf, OverflowError):
                raise NotConst
        return c
    if v.k == 'none':
        return None
    if v.k == 'str':
        if v.c is None:
            raise NotConst
        return v.c
    if v.k == 'tuple':
        if v.x is None:
            raise NotConst
        return tuple(cval(I, x) for x in v.x)
    if v.k == 'slice':
        return slice(*[cval(I, x) for x in v.x])
    if v.k == 'ellipsis':
        return Ellipsis
    if v.k == 'range':
        lo, hi, st = (x.cint() for x in v.x)
        if None in (lo, hi, st) or abs(hi - lo) > MAXTAB:
            raise NotConst
        return range(lo, hi, st)
    if v.k in ('ext', 'type'):
        n = v.c[9:] if v.c.startswith('builtins.') else v.c
        if n in DT:
            return DT[n]
        if n.startswith('numpy.'):
            t = getattr(np, n[6:], None)
            if isinstance(t, type) and issubclass(t, np.generic):
                return t
        raise NotConst
    o = I.obj(v)
    if isinstance(o, Arr):
        if o.const is None:
            raise NotConst
        return o.const
    if isinstance(o, Lst):
        if o.items is None or o.kind not in ('list', 'set'):
            raise NotConst
        r = [cval(I, x) for x in o.items]
        return r if o.kind == 'list' else set(r)
    raise NotConst


class _Leaf(Exception):
    pass


def _noval(a):
    raise _Leaf()


def size_poly(o):
    if o.shape is None or any(d is None for d in o.shape):
        return None
    r = ONE
    for d in o.shape:
        r = r * d
    return r


def isz(a):
    """identically zero array"""
    return a is not None and a.lo == 0 and a.hi == 0


def A(I, v, node=None):
    """abstract array view of any value (np.asarray semantics, nothing allocated)"""
    o = I.obj(v)
    if isinstance(o, Arr):
        if v.fx is not NOFX:
            from .interp import merge_fx
            return o.rep(fx=merge_fx(o.fx, v.fx))
        return o
    if v.k == 'num':
        p = v.p
        const = None
        c = v.cnum()
        if c is not None:
            const = np.asarray(c)
        lo = hi = None
        if p is not None and p.cval() is not None:
            lo = hi = p.cval()
        return Arr(shape=(), nt=v.nt, elem=(lambda idx: p) if p is not None else None, const=const, fx=v.fx, lo=lo, hi=hi,
                   bufs={('scalar',): True}, flags=frozenset(['scalar']) if not v.np else EMPTY)
    if v.k == 'range':
        n = I.range_len(v)
        try:
            c = np.array(cval(I, v))
            return from_const(c).rep(fx=v.fx)
        except NotConst:
            pass
        lo, _, st = v.x
        e = None
        if lo.p is not None and st.p is not None:
            e = lambda idx: lo.p + st.p * idx[0]
        return Arr(shape=(n,), nt='int', elem=e, fx=v.fx)
    items = None
    gen = None
    if v.k == 'tuple':
        items = v.x
    elif isinstance(o, (Lst, Itr)):
        items = o.items
        if items is None:
            gen = o
    if items is not None:
        return stack(I, list(items), 0, I.fxof(v), node)
    if gen is not None:
        fx = I.fxof(v)
        ev = gen.ev
        if callable(ev) or ev is None:
            return Arr(shape=(None,), fx=fx)
        n = getattr(gen, 'n', None)
        sym = getattr(gen, 'sym', None)
        ea = A(I, ev, node)
        if ea is None or ea.shape is None:
            return Arr(shape=None, fx=fx)
        e = None
        if sym is not None and ea.elem is not None:
            def e(idx, ee=ea.elem):
                p = ee(idx[1:])
                return None if p is None else p.subs({sym: idx[0]})
            e = memo(e)
        if sym is None and ea.elem is not None and ev.k == 'num' and ev.p is not None and ev.p.cval() is not None:
            e = lambda idx: ev.p
        return Arr(shape=(n if sym is not None else None,) + ea.shape, nt=ea.nt, elem=e, fx=fx, lo=ea.lo, hi=ea.hi)
    if v.k == 'none':
        return Arr(shape=(), nt='object', fx=v.fx)
    if v.k == 'top':
        return Arr(shape=None, fx=v.fx, bufs={b: False for b in (v.x or {})} if isinstance(v.x, dict) else None)
    return Arr(shape=None, fx=I.fxof(v))


def join_rank(nts):
    nts = list(nts)
    if not nts or any(n not in RANK for n in nts):
        return nts[0] if nts and all(n == nts[0] for n in nts) else None
    return max(nts, key=lambda n: RANK[n])


def stack(I, items, axis, fx, node):
    """np.array([...]) of items"""
    if not items:
        return from_const(np.array([])).rep(fx=fx)
    parts = [A(I, x, node) for x in items]
    if any(p is None or p.shape is None for p in parts):
        return Arr(shape=None, fx=fx)
    if any(p.nt == 'object' for p in parts):
        return Arr(shape=(pc(len(items)),), nt='object', fx=fx)
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        return Arr(shape=None, fx=fx)
    inner = parts[0].shape
    for p in parts[1:]:
        inner = tuple(a if a == b else (a if b is None else b if a is None else None) for a, b in zip(inner, p.shape))
    if axis < 0:
        axis += nd + 1
    shape = inner[:axis] + (pc(len(items)),) + inner[axis:]
    nt = join_rank([p.nt for p in parts])
    fx = fx_lincomb([fx] + [p.fx for p in parts], [True] + [isz(p) for p in parts]) if True else fx
    if all(p.const is not None for p in parts):
        try:
            c = np.stack([p.const for p in parts], axis)
            if c.size <= MAXTAB:
                return from_const(c).rep(fx=fx)
        except ValueError:
            pass

    def e(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        c = k.cint()
        if c is not None:
            if not -len(parts) <= c < len(parts) or parts[c].elem is None:
                return None
            return parts[c].elem(rest)
        if len(parts) > 32:
            return None
        es = [p.elem(rest) if p.elem else None for p in parts]
        if any(x is None for x in es):
            return None
        if all(x == es[0] for x in es):
            return es[0]
        if all(x.cval() is not None for x in es):
            return P.tab(tuple(int(x.cval()) if x.cval().denominator == 1 else x.cval() for x in es), k)
        r = es[-1]
        for j in range(len(es) - 2, -1, -1):
            r = P.pite(P.pcmp('==', k, pc(j)), es[j], r)
        return r
    los = [p.lo for p in parts]
    his = [p.hi for p in parts]
    return Arr(shape=shape, nt=nt, elem=memo(e), fx=fx, lo=min(los) if None not in los else None, hi=max(his) if None not in his else None)


def out(I, a, node, scalar=True):
    """allocate the result; 0-d results become numpy scalars"""
    if a.shape == () and scalar:
        p = a.elem(()) if a.elem is not None else None
        return V('num', p=p, nt=a.nt if a.nt in RANK else None, fx=a.fx, np_=True)
    if a.elem is not None and a.const is None and a.shape is not None and a.nt in ('int', 'bool', 'float') and len(a.shape) <= 2:
        ds = [d.cint() if d is not None else None for d in a.shape]
        if all(d is not None for d in ds) and 0 < int(np.prod(ds)) <= 64:
            # fold small fully known arrays back to constants
            vals = []
            ok = True
            for ix in np.ndindex(*ds):
                p = a.elem(tuple(pc(i) for i in ix))
                c = p.cval() if p is not None else None
                if c is None:
                    ok = False
                    break
                vals.append(c)
            if ok:
                try:
                    dt = {'int': np.int64, 'bool': np.bool_, 'float': np.float64}[a.nt]
                    c = np.array([int(x) if a.nt != 'float' else float(x) for x in vals], dtype=dt).reshape(ds)
                    if a.w is not None:
                        c = c.astype(a.w)
                    f = from_const(c)
                    a = a.rep(const=c, elem=f.elem, lo=f.lo, hi=f.hi)
                except (OverflowError, ValueError):
                    pass
    return I.alloc(a, node)


def constify(a, most=5000):
    """the constant array a stands for, or None"""
    if a.const is not None or a.elem is None or a.shape is None:
        return a.const
    ds = [d.cint() if d is not None else None for d in a.shape]
    if any(d is None for d in ds) or int(np.prod(ds)) > most or a.nt not in ('bool', 'int', 'float'):
        return None
    vals = []
    for ix in np.ndindex(*ds):
        p = a.elem(tuple(pc(i) for i in ix))
        v = p.cval() if p is not None else None
        if v is None:
            return None
        vals.append(v)
    return np.array([float(v) if a.nt == 'float' else int(v) for v in vals], dtype={'bool': bool, 'int': np.int64, 'float': float}[a.nt]).reshape(ds)


def fresh(a, **kw):
    return a.rep(bufs={}, contig=True, **kw)


# ---------------------------------------------------------------------------------------------------
# operators
# ---------------------------------------------------------------------------------------------------
def bshape(I, shapes, node, what='operands'):
    if any(s is None for s in shapes):
        return None
    n = max(len(s) for s in shapes)
    outd = []
    for k in range(n):
        cur = ONE
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is None:
                cur = None if cur is None or cur == ONE else cur
                # an unknown extent: keep a known non-unit extent
                continue
            if cur is None:
                cur = d if d != ONE else None
                continue
            if d == cur or d == ONE:
                continue
            if cur == ONE:
                cur = d
                continue
            if cmp0(d - cur, '!=') is True and cmp0(d - 1, '!=') is True and cmp0(cur - 1, '!=') is True:
                I.fail('ValueError', node, '%s could not be broadcast together: %r and %r' % (what, cur, d))
            if d.cval() is not None and cur.cval() is None:
                # symbolic against constant: only the constant can be the result unless it is 1
                cur = d
                continue
            if cur.cval() is not None:
                continue
            cur = None
        outd.append(cur)
    return tuple(outd)


def bcast(a, shape):
    """element function of a broadcast to `shape`"""
    if a.elem is None or a.shape is None or shape is None:
        return None
    off = len(shape) - len(a.shape)
    one = [d == ONE for d in a.shape]
    e = a.elem

    def g(idx):
        return e(tuple(ZERO if o else i for i, o in zip(idx[off:], one)))
    return g


ELEMOPS = {
    'Add': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mult': lambda p, q: p * q,
    'Div': lambda p, q: P.pdiv(p, q), 'Mod': lambda p, q: P.pmod(p, q), 'FloorDiv': lambda p, q: P.pfdiv(p, q),
    'Pow': lambda p, q: P.ppow(p, q),
    'BitXor': lambda p, q: _bit('xor', p, q), 'BitAnd': lambda p, q: _bit('and', p, q), 'BitOr': lambda p, q: _bit('or', p, q),
    'LShift': lambda p, q: p * P.ppow(pc(2), q), 'RShift': lambda p, q: P.pfdiv(p, P.ppow(pc(2), q)),
}
CMPS = ('==', '!=', '<', '<=', '>', '>=')
NPOP = {
    'Add': np.add, 'Sub': np.subtract, 'Mult': np.multiply, 'Div': np.true_divide, 'Mod': np.mod, 'FloorDiv': np.floor_divide,
    'Pow': np.power, 'BitXor': np.bitwise_xor, 'BitAnd': np.bitwise_and, 'BitOr': np.bitwise_or, 'LShift': np.left_shift,
    'RShift': np.right_shift, '==': np.equal, '!=': np.not_equal, '<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
    'MatMult': np.matmul,
}


def _bit(n, p, q):
    a, b = p.cint(), q.cint()
    if a is not None and b is not None:
        return pc({'xor': a ^ b, 'and': a & b, 'or': a | b}[n])
    if n == 'xor' and P.is_bit(p) and P.is_bit(q):
        return P.pmod(p + q, pc(2))
    if n == 'and' and (a == 1 or b == 1) and P.is_int(p) and P.is_int(q):
        return P.pmod(q if a == 1 else p, pc(2))
    if n in ('and', 'or', 'xor') and repr(p) > repr(q):
        p, q = q, p
    return F(n, p, q)


def op_nt(op, a, b, arr):
    if op in CMPS:
        return 'bool'
    x, y = a, b
    if x not in RANK or y not in RANK:
        if 'complex' in (x, y):
            return 'complex'
        if op == 'Div':
            return 'float' if {x, y} <= {None, 'float', 'int', 'bool'} and 'float' in (x, y) else None
        return x if x == y else None
    r = max((x, y), key=lambda n: RANK[n])
    if op == 'Div':
        return 'complex' if r == 'complex' else 'float'
    if r == 'bool' and op in ('Add', 'Sub', 'Mult', 'Pow', 'Mod', 'FloorDiv', 'LShift', 'RShift'):
        if op in ('Add', 'Mult') and arr:
            return 'bool'
        return 'int'
    return r


def op_fx(op, a, b, bexp=None):
    if op in ('Add', 'Sub'):
        return fx_lincomb([a.fx, b.fx], [isz(a), isz(b)])
    if op in ('Mult', 'MatMult'):
        return fx_mul(a.fx, b.fx, isz(a) or isz(b))
    if op == 'Div':
        return fx_div(a.fx, b.fx, isz(a))
    if op == 'Mod':
        return fx_nonlin([a.fx, b.fx], 'same')
    if op == 'FloorDiv':
        return fx_nonlin([a.fx, b.fx], 'zero')
    if op == 'Pow':
        if b.fx.lin or b.fx.deg:
            return fx_unknown([a.fx, b.fx])
        return fx_pow(a.fx, bexp).with_deps(b.fx.deps)
    if op in CMPS:
        if isz(a):
            return fx_nonlin([b.fx], 'zero').with_deps(a.fx.deps)
        if isz(b):
            return fx_nonlin([a.fx], 'zero').with_deps(b.fx.deps)
        return fx_nonlin([a.fx, b.fx], 'zero')
    return fx_nonlin([a.fx, b.fx], 'X')


def op_range(op, a, b):
    if op in CMPS:
        return Fraction(0), Fraction(1)
    if op == 'Mod' and b.lo is not None and b.lo == b.hi and b.lo > 0:
        m = b.lo
        if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < m:
            return a.lo, a.hi
        if a.nt in ('int', 'bool') and m.denominator == 1:
            return Fraction(0), m - 1
        return Fraction(0), m
    if None in (a.lo, a.hi, b.lo, b.hi):
        return None, None
    if op == 'Add':
        return a.lo + b.lo, a.hi + b.hi
    if op == 'Sub':
        return a.lo - b.hi, a.hi - b.lo
    if op == 'Mult':
        xs = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return min(xs), max(xs)
    if op == 'BitXor' and a.lo >= 0 and b.lo >= 0 and a.hi <= 1 and b.hi <= 1:
        return Fraction(0), Fraction(1)
    if op in ('BitAnd', 'BitOr') and a.lo >= 0 and b.lo >= 0 and a.hi <= 1 and b.hi <= 1:
        return Fraction(0), Fraction(1)
    return None, None


J = ('s', '1j')        # the imaginary unit in element summaries of complex arrays


def csplit(p):
    """(real part, imaginary part) of a summary that is a polynomial in the imaginary unit, else None"""
    if p is None:
        return None
    parts = [{}, {}]
    for k, c in p.m.items():
        e = 0
        rest = []
        for a, n in k:
            if a == J:
                e = n
            elif a[0] in ('f', 'ps') and any(isinstance(x, Poly) and J in x.all_atoms() for x in a):
                return None
            else:
                rest.append((a, n))
        if e < 0 or e != int(e):
            return None
        d, t = parts[int(e) % 2], tuple(rest)
        d[t] = d.get(t, 0) + (-c if int(e) % 4 in (2, 3) else c)
    return tuple(Poly({k: c for k, c in d.items() if c != 0}) for d in parts)


def creduce(p):
    s = csplit(p)
    return None if s is None else s[0] + s[1] * Poly.atom(J)


def cpart(f):
    """element function of a real-valued function of real and imaginary part"""
    def g(p):
        s = csplit(p)
        return None if s is None else f(*s)
    return g


def csqrt(r, i):
    m = P.psqrt(r * r + i * i)
    h = pc(Fraction(1, 2))
    return P.psqrt((m + r) * h) + _sign(i) * P.psqrt((m - r) * h) * Poly.atom(J)


def cdiv(p, q):
    s = csplit(q)
    if s is None:
        return None
    if not s[1].m:
        return creduce(P.pdiv(p, s[0]))
    return creduce(p * (s[0] - s[1] * Poly.atom(J)) * P.pinv(s[0] * s[0] + s[1] * s[1]))


CPLX = {'conj': cpart(lambda r, i: r - i * Poly.atom(J)), 'abs': cpart(lambda r, i: P.psqrt(r * r + i * i)), 'square': lambda p: creduce(p * p), 'negative': lambda p: -p, 'positive': lambda p: p,
        'sqrt': cpart(lambda r, i: P.psqrt(r) if not i.m else csqrt(r, i)), 'real': cpart(lambda r, i: r), 'imag': cpart(lambda r, i: i),
        'isreal': cpart(lambda r, i: P.pcmp('==', i, ZERO)), 'iscomplex': cpart(lambda r, i: P.pcmp('!=', i, ZERO))}


def elementwise(I, f, arrs, node, nt, fx, lo=None, hi=None, what='operands'):
    if nt == 'complex' and f in [ELEMOPS[k] for k in ('Add', 'Sub', 'Mult', 'Div', 'Pow')]:
        r = elementwise(I, cdiv if f is ELEMOPS['Div'] else lambda *ps: creduce(f(*ps)), arrs, node, '', fx, lo, hi, what)
        return r.rep(nt='complex')
    shape = bshape(I, [a.shape for a in arrs], node, what)
    elem = None
    if shape is not None and all(a.elem is not None for a in arrs) and nt != 'complex':
        es = [bcast(a, shape) for a in arrs]

        def elem(idx):
            ps = [e(idx) for e in es]
            if any(p is None for p in ps):
                return None
            return f(*ps)
        elem = memo(elem)
    return Arr(shape=shape, nt=nt, elem=elem, fx=fx, lo=lo, hi=hi)


def is_seq(I, v):
    return v.k == 'tuple' or isinstance(I.obj(v), (Lst, Itr))


def binary(I, op, a, b, node):
    oa, ob = I.obj(a), I.obj(b)
    # user classes
    for x, y, nm in ((a, b, ''), (b, a, 'r')):
        ox = I.obj(x)
        if isinstance(ox, Inst) and ox.cls is not None and op not in CMPS:
            d = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Mod': 'mod', 'Pow': 'pow', 'BitXor': 'xor', 'BitAnd': 'and', 'BitOr': 'or'}.get(op)
            r = ox.cls.lookup('__%s%s__' % (nm, d)) if d else None
            if r is not None and r[0].k == 'func':
                return I.call(V('bound', c=r[0].c, x=x), [y], {}, node)
    isarr = isinstance(oa, Arr) or isinstance(ob, Arr)
    if not isarr:
        if a.k == 'str' and op in ('Add', 'Mod', 'Mult'):
            if op == 'Add' and b.k not in ('str', 'top'):
                I.fail('TypeError', node, 'can only concatenate str to str')
            if op == 'Add' and b.k == 'str' and a.c is not None and b.c is not None:
                return vstr(a.c + b.c, a.fx.with_deps(b.fx.deps))
            return vstr(None, a.fx.with_deps(I.fxof(b).deps))
        if op == 'Add' and a.k == 'tuple' and b.k == 'tuple' and a.x is not None and b.x is not None:
            return vtuple(a.x + b.x)
        if op == 'Add' and isinstance(oa, Lst) and isinstance(ob, Lst):
            if oa.items is not None and ob.items is not None:
                return I.alloc(Lst(list(oa.items) + list(ob.items)), node)
            ev = I.join_vals(list(oa.items or []) + list(ob.items or []) + [x for x in (oa.ev, ob.ev) if x is not None])
            return I.alloc(Lst(None, ev), node)
        if op == 'Mult' and (is_seq(I, a) or is_seq(I, b)):
            s, n = (a, b) if is_seq(I, a) else (b, a)
            if n.k == 'num':
                its = s.x if s.k == 'tuple' else I.obj(s).items
                k = n.cint()
                if its is not None and k is not None and len(its) * max(k, 0) <= 4096:
                    r = list(its) * k
                    r = [x.adddeps(n.fx.deps) for x in r] if n.fx.deps else r
                    return vtuple(r) if s.k == 'tuple' else I.alloc(Lst(r), node)
                ev = I.join_vals(list(its)) if its else (I.obj(s).ev if s.k != 'tuple' else None)
                if its is not None and len(its) == 1 and n.p is not None and s.k != 'tuple':
                    from .interp import GenLst
                    sym = I.newsym('i', 0)
                    v = I.alloc(Lst(None, ev), node)
                    I.heap[v.x] = GenLst(I.heap[v.x], next(iter(sym.atoms())), n.p)
                    return v
                return I.alloc(Lst(None, ev), node)
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(oa, (Lst, Dct)):
            return I.alloc(Lst(None, I.join_vals([x for x in [oa.ev] + list(oa.items or []) if isinstance(x, V)]), kind='set'), node) if isinstance(oa, Lst) else I.alloc(Dct(None, top(I.fxof(a))), node)
        if 'none' in (a.k, b.k) and a.k in ('none', 'num', 'str', 'tuple') and b.k in ('none', 'num', 'str', 'tuple'):
            I.fail('TypeError', node, 'unsupported operand None for %s' % op)
        if ('none' in (a.k, b.k)) and (isinstance(oa, (Lst, Dct)) or isinstance(ob, (Lst, Dct))):
            I.fail('TypeError', node, 'unsupported operand None for %s' % op)
        if a.k == 'num' and b.k == 'num':
            return scalar_op(I, op, a, b, node)
        if a.k in ('num', 'top') and b.k in ('num', 'top'):
            x, y = A(I, a), A(I, b)
            c = b.cnum()
            bufs = None
            return top(op_fx(op, x, y, Fraction(c) if isinstance(c, (int, float)) and b.k == 'num' else None))
        if (a.k in ('num',) and b.k in ('enum', 'str', 'func', 'cls')) or (b.k == 'num' and a.k in ('enum', 'func', 'cls')):
            I.fail('TypeError', node, 'unsupported operand types for %s' % op)
        return top(fx_unknown([I.fxof(a), I.fxof(b)]))
    # array operation
    if 'none' in (a.k, b.k):
        if op in ('==', '!='):
            o = oa if isinstance(oa, Arr) else ob
            return out(I, fresh(o, nt='bool', elem=lambda idx: ZERO if op == '==' else ONE, const=None, fx=Fx(o.fx.deps), lo=Fraction(0), hi=Fraction(1)), node)
        I.fail('TypeError', node, 'unsupported operand None for array %s' % op)
    for x in (a, b):
        if x.k in ('str', 'enum', 'func', 'cls') or isinstance(I.obj(x), Dct):
            if op in ('==', '!='):
                return V('num', p=None, nt='bool', fx=fx_nonlin([I.fxof(a), I.fxof(b)], 'zero'))
            I.fail('TypeError', node, 'unsupported operand for array %s' % op)
    if any(isinstance(I.obj(x), Inst) or x.k == 'top' and False for x in (a, b)):
        return top(fx_unknown([I.fxof(a), I.fxof(b)]))
    x, y = A(I, a, node), A(I, b, node)
    if op == 'MatMult':
        return matmul(I, a, b, node)
    return out(I, arr_op(I, op, x, y, node), node)


def arr_op(I, op, x, y, node):
    bexp = None
    if op == 'Pow' and y.lo is not None and y.lo == y.hi:
        bexp = y.lo
    fx = op_fx(op, x, y, bexp)
    if x.const is not None and y.const is not None and op in NPOP:
        try:
            with np.errstate(all='ignore'):
                xs = [c if c.ndim or 'scalar' not in z.flags else c.item() for c, z in ((x.const, x), (y.const, y))]
                r = NPOP[op](*xs)
            return from_const(r).rep(fx=fx)
        except (ValueError, TypeError) as e:
            I.fail(type(e).__name__, node, str(e))
    if op in ('BitXor', 'BitAnd', 'BitOr', 'LShift', 'RShift') and ('float' in (x.nt, y.nt)) and x.nt in RANK and y.nt in RANK:
        I.fail('TypeError', node, 'bitwise operation on a floating point array')
    if op == 'Sub' and x.nt == 'bool' and y.nt == 'bool':
        I.fail('TypeError', node, 'boolean subtract')
    if op == 'Pow' and x.nt == 'int' and y.nt == 'int' and y.hi is not None and y.hi < 0:
        I.fail('ValueError', node, 'integers to negative integer powers')
    nt = op_nt(op, x.nt, y.nt, True)
    lo, hi = op_range(op, x, y)
    f = ELEMOPS.get(op)
    if op in CMPS:
        f = lambda p, q: P.pcmp(op, p, q)
    if nt == 'bool' and op in ('Add', 'Mult'):
        f = (lambda p, q: _bit('or', p, q)) if op == 'Add' else (lambda p, q: p * q)
        lo, hi = Fraction(0), Fraction(1)
    r = elementwise(I, f, [x, y], node, nt, fx, lo, hi)
    if nt == 'int' and op not in CMPS:
        w = result_w(x, y)
        if w is not None and NARROW[w] is not None:
            r = narrow(r, w)
    return r


def scalar_op(I, op, a, b, node):
    x, y = A(I, a), A(I, b)
    np_ = a.np or b.np
    nt = op_nt(op, a.nt, b.nt, False)
    if op in ('Div', 'Mod', 'FloorDiv') and b.cnum() == 0 and not np_:
        I.fail('ZeroDivisionError', node, 'division by zero')
    bexp = y.lo if op == 'Pow' and y.lo is not None and y.lo == y.hi else None
    fx = op_fx(op, x, y, bexp)
    if op == 'Pow' and nt == 'int' and y.hi is not None and y.hi < 0:
        nt = 'float'
    if op in ('BitXor', 'BitAnd', 'BitOr', 'LShift', 'RShift') and 'float' in (a.nt, b.nt):
        I.fail('TypeError', node, 'unsupported operand type(s) for %s: float' % op)
    if nt == 'complex' and a.p is not None and b.p is not None and op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
        try:
            return V('num', p=cdiv(a.p, b.p) if op == 'Div' else creduce(ELEMOPS[op](a.p, b.p)), nt=nt, fx=fx, np_=np_)
        except TooBig:
            pass
    if a.p is not None and b.p is not None and op in ELEMOPS and nt != 'complex':
        try:
            if op == 'Pow' and a.p.cval() is not None and b.p.cval() is not None and b.p.cval().denominator != 1:
                try:
                    r = float(a.p.cval()) ** float(b.p.cval())
                    if isinstance(r, float):
                        return num(r, 'float', fx, np_)
                except (OverflowError, ZeroDivisionError):
                    pass
            p = ELEMOPS[op](a.p, b.p)
            if op == 'LShift' and b.nt == 'int' and P.sign(b.p) == '-':
                I.fail('ValueError', node, 'negative shift count')
            return V('num', p=p, nt=nt, fx=fx, np_=np_)
        except TooBig:
            pass
    return V('num', p=None, nt=nt, fx=fx, np_=np_)


def unary(I, op, v, node):
    n = type(op).__name__
    if v.k == 'num':
        if n == 'USub':
            return V('num', p=-v.p if v.p is not None else None, nt='int' if v.nt == 'bool' else v.nt, fx=v.fx, np_=v.np)
        if n == 'UAdd':
            return v
        if n == 'Invert':
            if v.nt == 'bool' and v.np:
                return V('num', p=ONE - v.p if v.p is not None else None, nt='bool', fx=v.fx, np_=True)
            return V('num', p=-v.p - 1 if v.p is not None else None, nt='int', fx=v.fx, np_=v.np)
    o = I.obj(v)
    if isinstance(o, Arr):
        a = A(I, v)
        if n == 'UAdd':
            return out(I, fresh(a), node)
        if n == 'USub':
            if a.nt == 'bool':
                I.fail('TypeError', node, 'boolean negative')
            f = lambda p: -p
            fx, nt = a.fx, a.nt
            lo, hi = (-a.hi if a.hi is not None else None), (-a.lo if a.lo is not None else None)
        else:
            if a.nt == 'float':
                I.fail('TypeError', node, 'invert on a floating point array')
            f = (lambda p: ONE - p) if a.nt == 'bool' else (lambda p: -p - 1)
            nt = a.nt
            if nt not in ('bool', 'int'):
                return out(I, fresh(a, elem=None, const=None, lo=None, hi=None), node)
            fx = fx_nonlin([a.fx], 'zero' if nt == 'bool' else 'X') if a.fx.lin or a.fx.deg else a.fx
            lo, hi = (Fraction(0), Fraction(1)) if nt == 'bool' else (None, None)
        if a.const is not None:
            c = -a.const if n == 'USub' else ~a.const
            return out(I, from_const(c).rep(fx=fx), node)
        e = a.elem
        r = fresh(a, nt=nt, fx=fx, lo=lo, hi=hi, elem=memo(lambda idx: None if e(idx) is None else f(e(idx))) if e else None)
        return out(I, r, node)
    if v.k == 'none' or v.k == 'str' or isinstance(o, (Lst, Dct)):
        I.fail('TypeError', node, 'bad operand for unary %s' % n)
    return top(I.fxof(v))


def arr_contains(I, a, arr, node):
    if arr.const is not None and a.k == 'num' and a.cnum() is not None:
        return bool((arr.const == a.cnum()).any())
    return None


# ---------------------------------------------------------------------------------------------------
# indexing
# ---------------------------------------------------------------------------------------------------
def norm_ix(p, d):
    """index -> non-negative index"""
    c = p.cval()
    if c is not None:
        if c >= 0:
            return p
        return None if d is None else d + p
    s = P.sign(p)
    if s in ('+', '>=', '0'):
        return p
    if s == '-':
        return None if d is None else d + p
    if d is None:
        return None
    return P.pite(P.pcmp('<', p, ZERO), p + d, p)


def slice_dims(sl, d):
    """(start, step, length) Polys of a slice over an axis of extent d; entries None when unknown"""
    lo, hi, st = sl.x
    step = 1 if st.k == 'none' else st.cint()
    if step is None:
        if st.k == 'num' and st.p is not None and P.sign(st.p) == '+' and lo.k == 'none' and hi.k == 'none' and d is not None:
            return ZERO, st.p, P.pceil(P.pdiv(d, st.p))
        if st.k == 'num' and st.p is not None and P.sign(st.p) == '+' and lo.k == 'num' and lo.p is not None and P.sign(lo.p) in ('+', '>=', '0') and hi.k == 'none' and d is not None:
            return lo.p, st.p, P.pmax(P.pceil(P.pdiv(d - lo.p, st.p)), ZERO)
        return None, None, None
    if step == 0:
        return None, None, None

    def clamp(v, neg_default, up, low):
        p = v.p
        if p is None:
            return None
        s = P.sign(p)
        if s in ('+', '>=', '0'):
            return p if up is None and False else (None if up is None else P.pmin(p, up))
        if s == '-':
            if d is None:
                return None
            return P.pmax(p + d, low)
        return None
    if step > 0:
        s = ZERO if lo.k == 'none' else (clamp(lo, None, d, ZERO) if lo.k == 'num' else None)
        if lo.k == 'num' and d is None and lo.p is not None and P.sign(lo.p) in ('+', '>=', '0'):
            s = lo.p
        e = d if hi.k == 'none' else (clamp(hi, None, d, ZERO) if hi.k == 'num' else None)
        if s is None or e is None:
            return s, pc(step), None
        ln = e - s
    else:
        if d is None:
            return None, pc(step), None
        s = d - 1 if lo.k == 'none' else (clamp(lo, None, d - 1, pc(-1)) if lo.k == 'num' else None)
        e = pc(-1) if hi.k == 'none' else (clamp(hi, None, d - 1, pc(-1)) if hi.k == 'num' else None)
        if s is None or e is None:
            return s, pc(step), None
        ln = s - e
    if abs(step) != 1:
        ln = P.pceil(P.pdiv(ln, pc(abs(step))))
    if cmp0(ln, '>=') is not True:
        ln = P.pmax(ln, ZERO)
    return s, pc(step), ln


def getitem(I, b, ix, node, inbounds=False):
    o = I.obj(b)
    if b.k == 'tuple' or (isinstance(o, Lst)):
        return seq_getitem(I, b, o, ix, node)
    if isinstance(o, Dct):
        k = I.hashkey(ix)
        if o.items is not None and k is not None:
            if k in o.items:
                return o.items[k].adddeps(I.fxof(ix).deps)
            if k[0] in ('n', 's', 'e', 'none') and all(x[0] in ('n', 's', 'e', 'none') for x in o.items):
                I.fail('KeyError', node, 'key %r not in mapping' % (k,))
        if o.items is not None and o.items:
            if ix.k == 'enum' and ix.c is None or ix.k in ('num', 'str', 'top', 'enum'):
                vals = list(o.items.values())
                j = I.join_vals(vals)
                return j.adddeps(I.fxof(ix).deps)
        return (o.ev if o.ev is not None else top(o.fx)).adddeps(I.fxof(ix).deps)
    if b.k == 'str':
        if b.c is not None and ix.cint() is not None and -len(b.c) <= ix.cint() < len(b.c):
            return vstr(b.c[ix.cint()])
        return vstr(None)
    if isinstance(o, Arr):
        return arr_getitem(I, b, A(I, b), ix, node, inbounds)
    if isinstance(o, Itr):
        I.fail('TypeError', node, 'iterator is not subscriptable')
    if isinstance(o, Inst) and o.cls is not None:
        r = o.cls.lookup('__getitem__')
        if r is not None and r[0].k == 'func':
            return I.call(V('bound', c=r[0].c, x=b), [ix], {}, node)
    if b.k == 'cls' and b.c.enum and ix.k == 'str' and ix.c is not None:
        r = b.c.env.get(ix.c)
        if r is None or r.k != 'enum':
            I.fail('KeyError', node, 'no enum member %r' % ix.c)
        return r.adddeps(ix.fx.deps)
    if b.k in ('none', 'num', 'func', 'enum'):
        I.fail('TypeError', node, '%s object is not subscriptable' % b.k)
    if b.k == 'range':
        n = I.range_len(b)
        if ix.k == 'num' and ix.p is not None and n is not None and b.x[0].p is not None:
            p = norm_ix(ix.p, n)
            if p is not None:
                return num(b.x[0].p + b.x[2].p * p, 'int', b.fx)
        return V('num', nt='int', fx=b.fx)
    if b.k in ('type', 'ext'):
        return b
    return top(fx_select(I.fxof(b), I.fxof(ix)), x=b.x if b.k == 'top' and isinstance(b.x, dict) else None)


def seq_getitem(I, b, o, ix, node):
    items = b.x if b.k == 'tuple' else o.items
    dep = I.fxof(ix).deps
    if o is not None and o.kind == 'set':
        I.fail('TypeError', node, 'set is not subscriptable')
    if ix.k == 'slice':
        if items is not None:
            try:
                r = list(items)[cval(I, ix)]
                return vtuple(r) if b.k == 'tuple' else I.alloc(Lst(r), node)
            except ValueError as e:
                I.fail('ValueError', node, str(e))
            except NotConst:
                pass
            return I.alloc(Lst(None, I.join_vals(list(items))), node)
        return I.alloc(Lst(None, o.ev), node)
    if ix.k == 'num':
        if ix.nt == 'float':
            I.fail('TypeError', node, 'list indices must be integers')
        c = ix.cint()
        if items is not None:
            if c is not None:
                if not -len(items) <= c < len(items):
                    I.fail('IndexError', node, 'index %d out of range for a sequence of %d' % (c, len(items)))
                return items[c].adddeps(dep)
            if items:
                if ix.p is not None and len(items) <= 32 and all(x.k == 'num' and x.p is not None for x in items):
                    a = stack(I, list(items), 0, NOFX, node)
                    return V('num', p=a.elem((ix.p,)), nt=join_rank([x.nt for x in items]), fx=fx_select(fx_join([x.fx for x in items]), ix.fx))
                return I.join_vals(list(items)).adddeps(dep)
            return top()
        from .interp import GenLst
        if isinstance(o, GenLst) and ix.p is not None and o.ev is not None and o.ev.k == 'num' and o.ev.p is not None:
            p = norm_ix(ix.p, o.n)
            if p is not None:
                return num(o.ev.p.subs({o.sym: p}), o.ev.nt, o.ev.fx).adddeps(dep)
        return (o.ev if o.ev is not None else top(o.fx)).adddeps(dep)
    if ix.k in ('str', 'none', 'tuple') or isinstance(I.obj(ix), (Lst,)):
        I.fail('TypeError', node, 'list indices must be integers or slices')
    if isinstance(I.obj(ix), Arr):
        a = I.obj(ix)
        if a.ndim is not None and a.ndim >= 1 and (size_poly(a) is None or size_poly(a).cint() != 1):
            if a.ndim >= 1 and size_poly(a) is not None and cmp0(size_poly(a) - 1, '>') is True:
                I.fail('TypeError', node, 'only integer scalar arrays can be converted to a scalar index')
    return (I.join_vals(list(items)) if items else (o.ev if o is not None and o.ev is not None else top())).adddeps(dep)


def ix_list(ix):
    return list(ix.x) if ix.k == 'tuple' else [ix]


def plan_index(I, a, ix, node, inbounds=False):
    """per-axis plan: list of ('int',p) ('slice',start,step,len) ('new',) ('arr',Arr) ('mask',Arr,k) or None"""
    if a.shape is None:
        return None
    parts = ix_list(ix)
    conv = []
    for p in parts:
        if p.k in ('num', 'slice', 'none', 'ellipsis'):
            if p.k == 'num' and p.nt == 'bool':
                conv.append(('mask0', p))
            elif p.k == 'num':
                if p.nt == 'float' :
                    I.fail('IndexError', node, 'only integers, slices and integer or boolean arrays are valid indices')
                conv.append(('int', p))
            else:
                conv.append((p.k, p))
        else:
            o = I.obj(p)
            if isinstance(o, Arr) or is_seq(I, p) or p.k == 'range':
                ar = A(I, p, node)
                if ar.nt == 'float' and not (ar.const is not None and ar.const.size == 0):
                    I.fail('IndexError', node, 'arrays used as indices must be of integer (or boolean) type')
                if ar.shape is None or ar.nt not in ('int', 'bool') and not (ar.const is not None and ar.const.size == 0):
                    return None
                conv.append(('mask' if ar.nt == 'bool' else 'arr', ar))
            elif p.k == 'str':
                I.fail('IndexError', node, 'only integers, slices and integer or boolean arrays are valid indices')
            else:
                return None
    used = 0
    for k, p in conv:
        if k in ('int', 'slice', 'arr'):
            used += 1
        elif k == 'mask':
            used += p.ndim
    nd = a.ndim
    if used > nd:
        I.fail('IndexError', node, 'too many indices for array: array is %d-dimensional, but %d were indexed' % (nd, used))
    if not any(k == 'ellipsis' for k, _ in conv):
        conv.append(('ellipsis', None))
    plan = []
    ax = 0
    for k, p in conv:
        if k == 'ellipsis':
            for _ in range(nd - used):
                plan.append(('slice', ax, ZERO, ONE, a.shape[ax], True))
                ax += 1
        elif k == 'none':
            plan.append(('new',))
        elif k == 'int':
            d = a.shape[ax]
            if p.p is not None and d is not None and not inbounds:
                if cmp0(p.p - d, '>=') is True or cmp0(p.p + d, '<') is True:
                    I.fail('IndexError', node, 'index %r is out of bounds for axis %d with size %r' % (p.p, ax, d))
            plan.append(('int', ax, norm_ix(p.p, d) if p.p is not None else None, p))
            ax += 1
        elif k == 'slice':
            for q in p.x:
                if q.k == 'num' and q.nt == 'float':
                    I.fail('TypeError', node, 'slice indices must be integers')
            if p.x[2].k == 'num' and p.x[2].p is not None and p.x[2].p.cval() == 0:
                I.fail('ValueError', node, 'slice step cannot be zero')
            s, st, ln = slice_dims(p, a.shape[ax])
            full = all(q.k == 'none' for q in p.x)
            plan.append(('slice', ax, s, st, ln, full))
            ax += 1
        elif k == 'arr':
            d = a.shape[ax]
            if p.lo is not None and d is not None and not inbounds:
                for bound in (p.lo, p.hi):
                    q = pc(bound)
                    if cmp0(q - d, '>=') is True or cmp0(q + d, '<') is True:
                        if p.const is not None and p.const.size:
                            I.fail('IndexError', node, 'index %r is out of bounds for axis %d with size %r' % (q, ax, d))
            plan.append(('arr', ax, p))
            ax += 1
        elif k == 'mask':
            for j in range(p.ndim):
                dm, da = p.shape[j], a.shape[ax + j]
                if dm is not None and da is not None and cmp0(dm - da, '!=') is True:
                    I.fail('IndexError', node, 'boolean index did not match indexed array along axis %d' % (ax + j))
            plan.append(('mask', ax, p))
            ax += p.ndim
        else:
            return None
    return plan


def sel_fx(plan_ix, I, ix):
    fs = []
    for p in ix_list(ix):
        f = I.fxof(p)
        if p.k == 'slice':
            f = fx_shape([I.fxof(q) for q in p.x])
        fs.append(f)
    r = NOFX
    for f in fs:
        r = Fx(r.deps | f.deps, {**r.lin, **f.lin}, {**r.deg, **f.deg})
    return r


def arr_getitem(I, b, a, ix, node, inbounds=False):
    fx = fx_select(a.fx, sel_fx(None, I, ix))
    bufs = I.obj(b).bufs
    if a.const is not None:
        try:
            c = cval(I, ix)
            try:
                r = a.const[c]
            except (IndexError, ValueError) as e:
                I.fail(type(e).__name__, node, str(e))
            if isinstance(r, np.ndarray) and r.ndim > 0:
                view = r.base is not None
                ra = from_const(r.copy()).rep(fx=fx)
                if view and np.shares_memory(r, a.const):
                    ra = ra.rep(bufs=dict(bufs), contig=a.contig and r.flags['C_CONTIGUOUS'])
                    return I.view_of(I.alloc(ra, node), b, lambda l: l[c])
                return I.alloc(ra, node)
            return wrap_const(I, r, node, fx)
        except NotConst:
            pass
    plan = plan_index(I, a, ix, node, inbounds)
    if plan is None:
        if a.shape is None:
            # unknown rank: basic indexing may view
            basic = all(p.k in ('num', 'slice', 'none', 'ellipsis') for p in ix_list(ix))
            return I.alloc(Arr(shape=None, nt=a.nt, fx=fx, bufs={k: False for k in bufs} if basic else None, lo=a.lo, hi=a.hi), node)
        return top(fx, x={k: False for k in bufs})
    fancy = [p for p in plan if p[0] in ('arr', 'mask')]
    if not fancy:
        shape = []
        src = []   # per source axis: function of output idx
        contig = a.contig
        seen_partial = False
        nout = 0
        for p in plan:
            if p[0] == 'new':
                shape.append(ONE)
                nout += 1
            elif p[0] == 'int':
                src.append(('c', p[2]))
                if nout:
                    contig = False
            else:
                _, ax, s, st, ln, full = p
                src.append(('s', nout, s, st))
                if not full:
                    if nout or st != ONE:
                        contig = False
                    elif any(q[0] == 'slice' for q in plan[:plan.index(p)]):
                        contig = False
                nout += 1
                shape.append(ln)
        e = a.elem

        def elem(idx):
            si = []
            for s in src:
                if s[0] == 'c':
                    if s[1] is None:
                        return None
                    si.append(s[1])
                else:
                    if s[2] is None or s[3] is None:
                        return None
                    si.append(s[2] + s[3] * idx[s[1]])
            return e(tuple(si))
        r = Arr(shape=tuple(shape), nt=a.nt, elem=memo(elem) if e is not None else None, fx=fx, bufs=dict(bufs), contig=contig, lo=a.lo, hi=a.hi)
        if not shape:
            p = r.elem(()) if r.elem is not None else None
            return V('num', p=p, nt=r.nt if r.nt in RANK else None, fx=fx, np_=True) if r.nt != 'object' else top(fx)
        r = out(I, r, node)
        try:
            return I.view_of(r, b, lambda l: l[cval(I, ix)])
        except NotConst:
            return r
    # advanced indexing: result is a copy
    if len(fancy) > 1 or any(p[0] == 'int' for p in plan):
        r = fancy_get(I, a, plan, fx, node)
        if r is not None:
            return out(I, r, node)
    if len(fancy) == 1:
        f = fancy[0]
        pos = plan.index(f)
        if f[0] == 'mask':
            m = f[2]
            cnt = I.newsym('cnt', 0)
            mc = m.const if m.const is not None else split_mask(I, m)
            if mc is not None:
                cnt = pc(int(mc.sum()))
                nz = np.nonzero(mc)
                mid = (cnt,)
                tabs = [from_const(z).elem for z in nz]
                pick = lambda idx: [t(idx) for t in tabs]
            else:
                mid = (cnt,)
                pick = None
            nsrc = m.ndim
        else:
            ar = f[2]
            mid = ar.shape
            dd = a.shape[f[1]]

            def pick(idx):
                if ar.elem is None:
                    return [None]
                p = ar.elem(idx)
                if p is None:
                    return [None]
                if a.const is not None:
                    return [p]
                return [norm_ix(p, dd)]
            nsrc = 1
        before, after = plan[:pos], plan[pos + 1:]
        shape, outpos = [], []
        for p in before:
            if p[0] == 'new':
                shape.append(ONE)
            elif p[0] == 'slice':
                shape.append(p[4])
        nb = len(shape)
        shape += list(mid)
        for p in after:
            if p[0] == 'new':
                shape.append(ONE)
            elif p[0] == 'slice':
                shape.append(p[4])
        e = a.elem
        if any(p[0] == 'int' for p in plan) and pos != 0 and any(p[0] == 'int' for p in plan):
            # mixed integer + array indices move axes only when separated by slices; keep it simple
            return I.alloc(Arr(shape=None if len(shape) > 1 else tuple(shape), nt=a.nt, fx=fx, lo=a.lo, hi=a.hi), node)

        def elem(idx):
            if pick is None:
                return None
            k = 0
            si = []
            for p in before:
                if p[0] == 'new':
                    k += 1
                elif p[0] == 'int':
                    si.append(p[2])
                else:
                    si.append(p[2] + p[3] * idx[k] if p[2] is not None and p[3] is not None else None)
                    k += 1
            si += pick(idx[k:k + len(mid)])
            k += len(mid)
            for p in after:
                if p[0] == 'new':
                    k += 1
                elif p[0] == 'int':
                    si.append(p[2])
                else:
                    si.append(p[2] + p[3] * idx[k] if p[2] is not None and p[3] is not None else None)
                    k += 1
            if any(x is None for x in si):
                return None
            return select(a, e, si)
        r = Arr(shape=tuple(shape), nt=a.nt, elem=memo(elem) if e is not None else None, fx=fx, lo=a.lo, hi=a.hi)
        return out(I, r, node)
    # several advanced indices, all adjacent from the first axis: broadcast together
    if all(p[0] == 'arr' for p in fancy) and [p for p in plan if p[0] != 'slice' or not p[5]] == plan[:len(fancy)] == fancy:
        shp = bshape(I, [p[2].shape for p in fancy], node, 'index arrays')
        if shp is not None:
            rest = plan[len(fancy):]
            e = a.elem
            es = [bcast(p[2], shp) for p in fancy]
            dims = [a.shape[p[1]] for p in fancy]

            def elem(idx):
                si = []
                for g, d in zip(es, dims):
                    q = g(idx[:len(shp)]) if g is not None else None
                    if q is None:
                        return None
                    q = q if a.const is not None else norm_ix(q, d)
                    if q is None:
                        return None
                    si.append(q)
                si += list(idx[len(shp):])
                return e(tuple(si))
            return out(I, Arr(shape=tuple(shp) + tuple(p[4] for p in rest), nt=a.nt, elem=memo(elem) if e is not None else None, fx=fx, lo=a.lo, hi=a.hi), node)
    return I.alloc(Arr(shape=None, nt=a.nt, fx=fx, lo=a.lo, hi=a.hi), node)


def is_data(p):
    """mentions array contents"""
    return any(b[0] in ('e', 'ps') for b in p.all_atoms())


def select(a, e, si):
    """element at data-dependent position of a small array: case table over the positions"""
    if a.const is not None or a.shape is None:
        return e(tuple(si))
    for k, p in enumerate(si):
        if is_data(p):
            d = a.shape[k].cint() if a.shape[k] is not None else None
            if d is None or d > 16:
                return e(tuple(si))
            r = None
            for j in range(d):
                v = select(a, e, si[:k] + [pc(j)] + si[k + 1:])
                if v is None:
                    return None
                r = v if r is None else P.pite(P.pcmp('==', p, pc(j)), v, r)
            return r
    return e(tuple(si))


def explicit_plan(I, plan):
    """index plan with masks resolved to index lists and integers as 0-d lists"""
    res = []
    for p in plan:
        if p[0] == 'mask':
            m = p[2]
            if m.ndim != 1:
                return None
            mc = m.const if m.const is not None else split_mask(I, m)
            if mc is None:
                return None
            res.append(('arr', p[1], from_const(np.nonzero(mc)[0])))
        elif p[0] == 'int':
            if p[2] is None:
                return None
            res.append(('arr', p[1], Arr(shape=(), nt='int', elem=lambda idx, q=p[2]: q, fx=NOFX)))
        else:
            res.append(p)
    return res


def fancy_get(I, a, plan, fx, node):
    plan = explicit_plan(I, plan)
    if plan is None:
        return None
    adv = [k for k, p in enumerate(plan) if p[0] == 'arr']
    shp = bshape(I, [plan[k][2].shape for k in adv], node, 'index arrays')
    if shp is None:
        return None
    at = adv[0] if adv == list(range(adv[0], adv[0] + len(adv))) else 0
    at = sum(1 for p in plan[:at] if p[0] in ('new', 'slice'))
    shape = [ONE if p[0] == 'new' else p[4] for p in plan if p[0] != 'arr']
    shape[at:at] = list(shp)
    es = {k: bcast(plan[k][2], shp) for k in adv}
    if any(g is None for g in es.values()) or a.elem is None:
        return Arr(shape=tuple(shape), nt=a.nt, fx=fx, lo=a.lo, hi=a.hi)
    e = a.elem

    def elem(idx):
        mid = tuple(idx[at:at + len(shp)])
        rest = list(idx[:at]) + list(idx[at + len(shp):])
        si = []
        for k, p in enumerate(plan):
            if p[0] == 'new':
                rest.pop(0)
            elif p[0] == 'arr':
                q = es[k](mid)
                if q is None:
                    return None
                q = q if a.const is not None else norm_ix(q, a.shape[p[1]])
                if q is None:
                    return None
                si.append(q)
            else:
                j = rest.pop(0)
                if p[2] is None or p[3] is None:
                    return None
                si.append(p[2] + p[3] * j)
        return select(a, e, si)
    return Arr(shape=tuple(shape), nt=a.nt, elem=memo(elem), fx=fx, lo=a.lo, hi=a.hi)


def fancy_set(I, a, plan, val, trunc):
    """element function after a store through index lists of known small extent, or None"""
    plan = explicit_plan(I, plan)
    if plan is None or a.elem is None or val.elem is None or val.shape is None or a.shape is None:
        return None
    if any(p[0] == 'new' for p in plan):
        return None
    adv = [k for k, p in enumerate(plan) if p[0] == 'arr']
    shp = bshape(I, [plan[k][2].shape for k in adv], None, 'index arrays')
    if shp is None or any(d is None or d.cint() is None for d in shp):
        return None
    tot = 1
    for d in shp:
        tot *= d.cint()
    if tot > 24:
        return None
    at = adv[0] if adv == list(range(adv[0], adv[0] + len(adv))) else 0
    at = sum(1 for p in plan[:at] if p[0] == 'slice')
    tshape = [p[4] for p in plan if p[0] == 'slice']
    tshape[at:at] = list(shp)
    if len(val.shape) > len(tshape):
        return None
    ve = bcast(val, tuple(tshape))
    es = {k: bcast(plan[k][2], shp) for k in adv}
    if ve is None or any(g is None for g in es.values()):
        return None
    old = a.elem
    cells = list(np.ndindex(*[d.cint() for d in shp]))

    def g(idx):
        r = old(idx)
        for j in cells:
            mid = tuple(pc(t) for t in j)
            cond, rest = ONE, []
            for k, p in enumerate(plan):
                x = idx[p[1]]
                if p[0] == 'arr':
                    q = es[k](mid)
                    q = norm_ix(q, a.shape[p[1]]) if q is not None else None
                    if q is None:
                        return None
                    cond = cond * P.pcmp('==', x, q)
                else:
                    _, ax, st0, st, ln, full = p
                    if full:
                        rest.append(x)
                        continue
                    if st0 is None or st is None or ln is None or st.cint() != 1:
                        return None
                    cond = cond * P.pcmp('>=', x - st0, ZERO) * P.pcmp('<', x - st0, ln)
                    rest.append(x - st0)
                if cond.cval() == 0:
                    break
            if cond.cval() == 0:
                continue
            ti = rest[:]
            ti[at:at] = list(mid)
            nv = ve(tuple(ti))
            if nv is None or (r is None and cond.cval() != 1):
                return None
            if trunc is True:
                nv = P.ptrunc(nv)
            elif trunc == 'bool':
                nv = P.pcmp('!=', nv, ZERO)
            r = nv if cond.cval() == 1 else P.pite(cond, nv, r)
        return r
    return memo(g)


def setitem(I, b, ix, v, node):
    o = I.obj(b)
    if isinstance(o, Lst):
        I.write_effect(o.bufs, node, 'list item assignment')
        c = ix.cint() if ix.k == 'num' else None
        if o.items is not None and c is not None:
            if not -len(o.items) <= c < len(o.items):
                I.fail('IndexError', node, 'list assignment index out of range')
            it = list(o.items)
            it[c] = v
            I.heap[b.x] = o.rep(items=it)
        else:
            I.heap[b.x] = o.rep(items=None, ev=I.join_vals(list(o.items or []) + [x for x in (o.ev, v) if x is not None]))
        return
    if isinstance(o, Dct):
        I.write_effect(o.bufs, node, 'dict item assignment')
        k = I.hashkey(ix)
        if o.items is not None and k is not None:
            d = dict(o.items)
            d[k] = v
            I.heap[b.x] = o.rep(items=d)
        else:
            I.heap[b.x] = o.rep(items=None, ev=I.join_vals(list((o.items or {}).values()) + [x for x in (o.ev, v) if x is not None]))
        return
    if isinstance(o, Inst):
        if o.cls is not None:
            r = o.cls.lookup('__setitem__')
            if r is not None and r[0].k == 'func':
                I.call(V('bound', c=r[0].c, x=b), [ix, v], {}, node)
                return
        I.write_effect(o.bufs, node, 'item assignment')
        return
    if b.k in ('tuple', 'str'):
        I.fail('TypeError', node, '%s does not support item assignment' % b.k)
    if b.k in ('none', 'num', 'func', 'enum'):
        I.fail('TypeError', node, '%s object does not support item assignment' % b.k)
    if not isinstance(o, Arr):
        if b.k == 'top' and isinstance(b.x, dict):
            I.write_effect({k: False for k in b.x}, node, 'item assignment')
        return
    a = o
    val = A(I, v, node)
    if a.w is not None and val.w != a.w:
        val = narrow(cast(val, 'int') if a.nt == 'int' and val.nt == 'float' else val, a.w)
    sfx = sel_fx(None, I, ix)
    nfx = fx_lincomb([a.fx, val.fx], [isz(a), isz(val)])
    if sfx is not NOFX:
        lin = dict(nfx.lin)
        for s in sfx.lin:
            lin[s] = 'U' if sfx.lin[s] == 'U' or lin.get(s) == 'U' else 'N'
        deg = dict(nfx.deg)
        for s, d in sfx.deg.items():
            deg[s] = 'U' if d == 'U' else 'X'
        nfx = Fx(nfx.deps | sfx.deps, lin, deg)
    # 1. constant store
    if v.k == 'none' and a.nt in RANK:
        if a.nt in ('int', 'bool'):
            I.fail('TypeError', node, 'None stored into an integer array')
    if a.const is not None and val.const is not None:
        try:
            c = cval(I, ix)
            new = a.const.copy()
            try:
                one = val.const.size == 1 and val.const.ndim and np.ndim(new[c]) == 0
                new[c] = val.const.reshape(()) if one else val.const
            except IndexError as e:
                I.fail('IndexError', node, str(e))
            except (ValueError, TypeError) as e:
                I.fail(type(e).__name__, node, str(e))
            na = from_const(new)
            I.written(b.x, a.rep(const=new, elem=na.elem, lo=na.lo, hi=na.hi, fx=nfx), node, 'item assignment')
            return
        except NotConst:
            pass
    lo = hi = None
    trunc = a.nt == 'int' and val.nt not in ('int', 'bool')
    if a.nt == 'bool' and val.nt != 'bool':
        trunc = 'bool'
    if a.lo is not None and val.lo is not None and not trunc:
        lo, hi = min(a.lo, val.lo), max(a.hi, val.hi)
    if trunc is True and (nfx.lin or nfx.deg):
        nfx = fx_nonlin([nfx], 'X')
    newelem = None
    try:
        plan = plan_index(I, a, ix, node)
    except TooBig:
        plan = None
    if plan is not None and not any(p[0] in ('arr', 'mask') for p in plan) and val.shape is not None:
        tshape = tuple(p[4] if p[0] == 'slice' else ONE for p in plan if p[0] != 'int')
        vs = val.shape
        # broadcastability of the value (leading unit axes may be dropped)
        tv = tshape
        while len(vs) > len(tv) and vs[0] == ONE:
            vs = vs[1:]
        if len(vs) > len(tv):
            if all(d is not None and cmp0(d - 1, '!=') is True for d in vs[:len(vs) - len(tv)]):
                I.fail('ValueError', node, 'could not broadcast input array into the assigned slice')
        else:
            for d, t in zip(vs[::-1], tv[::-1]):
                if d is not None and t is not None and d != ONE and cmp0(d - t, '!=') is True and cmp0(d - 1, '!=') is True:
                    I.fail('ValueError', node, 'could not broadcast input array from extent %r into extent %r' % (d, t))
        if a.elem is not None and val.elem is not None and len(vs) <= len(tshape):
            if len(vs) < len(val.shape):
                e0, drop = val.elem, len(val.shape) - len(vs)
                val = val.rep(shape=vs, elem=lambda idx: e0((ZERO,) * drop + tuple(idx)), const=None)
            old, ve = a.elem, bcast(val, tshape)

            def newelem(idx):
                cond = ONE
                outi = []
                for p in plan:
                    if p[0] == 'new':
                        outi.append(ZERO)
                        continue
                    k = idx[p[1]]
                    if p[0] == 'int':
                        if p[2] is None:
                            return None
                        cond = cond * P.pcmp('==', k, p[2])
                    else:
                        _, ax, s, st, ln, full = p
                        if full:
                            outi.append(k)
                            continue
                        if s is None or st is None or ln is None:
                            return None
                        off = k - s
                        c = st.cint()
                        if c == 1:
                            q = off
                        elif c == -1:
                            q = -off
                        else:
                            cond = cond * P.pcmp('==', P.pmod(off, st), ZERO)
                            q = P.pfdiv(off, st)
                        cond = cond * P.pcmp('>=', q, ZERO) * P.pcmp('<', q, ln)
                        outi.append(q)
                if cond.cval() == 0:
                    return old(idx)
                nv = ve(tuple(outi))
                if nv is None:
                    return None
                if trunc is True:
                    nv = P.ptrunc(nv)
                elif trunc == 'bool':
                    nv = P.pcmp('!=', nv, ZERO)
                ov = old(idx) if cond.cval() != 1 else nv
                if ov is None:
                    return None
                return P.pite(cond, nv, ov)
            newelem = memo(newelem)
        if all(p[0] == 'slice' and p[5] for p in plan) and val.fx is not None:
            # full overwrite
            nfx2 = fx_select(val.fx, sfx)
            if trunc is not True:
                nfx = nfx2
            lo, hi = (val.lo, val.hi) if not trunc else (None, None)
    elif plan is not None and len(plan) == 1 and plan[0][0] == 'mask' and val.shape == () and a.elem is not None and val.elem is not None and plan[0][2].elem is not None:
        m = plan[0][2].elem
        old = a.elem
        vp = val.elem(())

        def newelem(idx):
            c = m(idx)
            ov = old(idx)
            if c is None or ov is None or vp is None:
                return None
            nv = P.ptrunc(vp) if trunc is True else vp
            return P.pite(c, nv, ov)
        newelem = memo(newelem)
    elif plan is not None and plan[0][0] == 'arr' and plan[0][2].const is not None and plan[0][2].ndim == 1 and all(p[0] == 'slice' and p[5] for p in plan[1:]) \
            and a.elem is not None and val.elem is not None and val.shape is not None and len(val.shape) <= len(plan):
        ids = [int(z) for z in plan[0][2].const]
        d0 = a.shape[0]
        tshape = (pc(len(ids)),) + tuple(p[4] for p in plan[1:])
        old, ve = a.elem, bcast(val, tshape)

        def newelem(idx):
            r = old(idx)
            for j, z in enumerate(ids):
                q = norm_ix(pc(z), d0)
                nv = ve((pc(j),) + tuple(idx[1:]))
                if q is None or nv is None or r is None:
                    return None
                r = P.pite(P.pcmp('==', idx[0], q), P.ptrunc(nv) if trunc is True else nv, r)
            return r
        newelem = memo(newelem)
    elif plan is not None and any(p[0] in ('arr', 'mask') for p in plan) and val.shape is not None:
        newelem = fancy_set(I, a, plan, val, trunc)
    if plan is not None and any(p[0] in ('arr', 'mask') for p in plan) and val.shape is not None and a.nt in RANK:
        # definite broadcast failures for index lists
        if len(plan) == 1 and plan[0][0] == 'arr' and len(val.shape) == 1 and plan[0][2].ndim == 1:
            d, t = val.shape[0], plan[0][2].shape[0]
            if d is not None and t is not None and cmp0(d - t, '!=') is True and cmp0(d - 1, '!=') is True:
                I.fail('ValueError', node, 'shape mismatch: value cannot be broadcast to indexing result')
    I.written(b.x, a.rep(const=None, elem=newelem, fx=nfx, lo=lo, hi=hi), node, 'item assignment')


# ---------------------------------------------------------------------------------------------------
# attributes
# ---------------------------------------------------------------------------------------------------
ARR_METHODS = {'reshape', 'astype', 'sum', 'mean', 'min', 'max', 'argmin', 'argmax', 'std', 'var', 'prod', 'cumsum', 'cumprod', 'dot', 'transpose',
               'flatten', 'ravel', 'squeeze', 'copy', 'any', 'all', 'tolist', 'item', 'round', 'conj', 'conjugate', 'fill', 'sort', 'argsort', 'repeat',
               'clip', 'nonzero', 'take', 'swapaxes', 'put', 'resize', 'view', 'tobytes', 'diagonal', 'trace', 'searchsorted', 'ptp', 'partition',
               'setflags', 'byteswap', 'choose', 'compress', 'itemset', 'dumps', 'dump', 'tofile', 'argpartition', '__len__', '__getitem__', 'newbyteorder', 'getfield', 'setfield', 'tostring'}
ARR_ATTRS = {'dtype', 'flags', 'strides', 'itemsize', 'nbytes', 'base', 'data', 'flat', 'ctypes', 'device'}


def attr(I, b, o, name, node):
    if isinstance(o, Arr):
        a = A(I, b)
        if name == 'shape':
            if a.shape is None:
                return top(fx_shape([a.fx]))
            return vtuple([V('num', p=d, nt='int', fx=fx_shape([a.fx])) for d in a.shape])
        if name == 'size':
            return V('num', p=size_poly(a), nt='int', fx=fx_shape([a.fx]))
        if name == 'ndim':
            return V('num', p=pc(a.ndim) if a.ndim is not None else None, nt='int', fx=fx_shape([a.fx]))
        if name == 'T':
            return transpose(I, b, None, node)
        if name == 'real':
            if a.nt != 'complex':
                if a.nt in RANK:
                    return I.alloc(o.rep(), node)
                return I.alloc(a.rep(elem=None, const=None, bufs=dict(o.bufs)), node)
            return I.alloc(Arr(shape=a.shape, nt='float', fx=a.fx, bufs=dict(o.bufs), contig=False, elem=memo(lambda idx: CPLX['real'](a.elem(idx))) if a.elem is not None else None), node)
        if name == 'imag':
            return I.alloc(Arr(shape=a.shape, nt='float' if a.nt == 'complex' else a.nt, fx=a.fx, bufs={k: False for k in o.bufs}, elem=memo(lambda idx: CPLX['imag'](a.elem(idx))) if a.elem is not None and a.nt == 'complex' else (lambda idx: ZERO) if a.nt in RANK and a.nt != 'complex' else None), node)
        if name == 'dtype':
            return V('type', c='?' if a.nt not in RANK else {'int': 'numpy.int64', 'float': 'numpy.float64', 'bool': 'numpy.bool_', 'complex': 'numpy.complex128'}[a.nt], x=a.nt)
        if name == 'flat':
            return I.alloc(Itr(None, None, a.fx), node)
        if name in ARR_METHODS:
            return V('extm', c=name, x=b)
        if name in ARR_ATTRS:
            return top(fx_shape([a.fx]))
        if not hasattr(np.ndarray, name):
            I.emit('unresolved', 'ndarray.' + name, I.where(node), 'array attribute')
            I.fail('AttributeError', node, "numpy.ndarray has no attribute %r" % name)
        return V('extm', c=name, x=b)
    if isinstance(o, Lst):
        if name == 'maxlen':
            return top()
        import collections
        t = {'list': list, 'set': set, 'deque': collections.deque}.get(o.kind, list)
        if not hasattr(t, name):
            I.fail('AttributeError', node, '%s has no attribute %r' % (o.kind, name))
        return V('extm', c=name, x=b)
    if isinstance(o, Dct):
        if not hasattr(dict, name):
            I.fail('AttributeError', node, 'dict has no attribute %r' % name)
        return V('extm', c=name, x=b)
    if isinstance(o, Itr):
        return V('extm', c=name, x=b)
    if b.k == 'num':
        if name in ('real',):
            return b if b.nt != 'complex' else V('num', p=CPLX['real'](b.p), nt='float', fx=b.fx)
        if name == 'imag':
            return num(0, b.nt if b.nt in RANK else 'float', b.fx) if b.nt != 'complex' else V('num', p=CPLX['imag'](b.p), nt='float', fx=b.fx)
        if name in ('shape', 'size', 'ndim', 'dtype', 'T') and b.np:
            return {'shape': vtuple(()), 'size': num(1), 'ndim': num(0), 'T': b}.get(name, V('type', c='?'))
        if not b.np and b.nt in ('int', 'float', 'bool') and not hasattr({'int': int, 'float': float, 'bool': bool}[b.nt], name):
            I.fail('AttributeError', node, '%s has no attribute %r' % (b.nt, name))
        return V('extm', c=name, x=b)
    if b.k in ('str', 'tuple', 'range', 'slice'):
        t = {'str': str, 'tuple': tuple, 'range': range, 'slice': slice}[b.k]
        if not hasattr(t, name):
            I.fail('AttributeError', node, '%s has no attribute %r' % (b.k, name))
        return V('extm', c=name, x=b)
    if b.k in ('bound', 'extm', 'partial', 'exc'):
        return top()
    if b.k == 'top':
        if name in ('shape', 'size', 'ndim', 'dtype'):
            return top(fx_shape([b.fx]))
        return V('extm', c=name, x=b)
    return top(I.fxof(b))


NPCONST = {'pi': math.pi, 'e': math.e, 'inf': math.inf, 'Inf': math.inf, 'nan': math.nan, 'NaN': math.nan, 'infty': math.inf}
LEGACY = {'int', 'float', 'bool', 'object', 'complex', 'in1d', 'trapz', 'row_stack', 'product', 'cumproduct', 'alltrue', 'sometrue', 'float_', 'complex_',
          'unicode_', 'Inf', 'Infinity', 'NaN', 'infty', 'round_', 'asfarray', 'msort', 'find_common_type', 'cast', 'source', 'mat', 'lookfor', 'str_', 'chararray'}


def ext_attr(I, b, name, node):
    if b.c in ('numpy', 'math'):
        if name in NPCONST:
            if name == 'pi':
                return num(pc(math.pi), 'float')
            return num(float(NPCONST[name]), 'float')
        if name == 'newaxis':
            return NONE
        if b.c == 'numpy' and not hasattr(np, name) and name not in LEGACY:
            I.emit('unresolved', 'numpy.' + name, I.where(node), 'library attribute')
            I.fail('AttributeError', node, 'module numpy has no attribute %r' % name)
    return V('ext', c=b.c + '.' + name)


# ---------------------------------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------------------------------
class Cx:
    __slots__ = ('I', 'name', 'orig', 'args', 'kw', 'node')

    def __init__(self, I, name, args, kw, node):
        self.I, self.name, self.orig, self.args, self.kw, self.node = I, name, name, args, kw, node

    def arg(self, pos, *names, default=None):
        if pos is not None and pos < len(self.args):
            return self.args[pos]
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return default

    def allargs(self):
        return list(self.args) + list(self.kw.values())

    def arr(self, pos, *names):
        v = self.arg(pos, *names)
        if v is None:
            self.I.fail('TypeError', self.node, '%s() missing required argument' % self.name)
        if v.k == 'none':
            return Arr(shape=(), nt='object')
        return A(self.I, v, self.node)

    def out(self, a, scalar=True):
        return out(self.I, a, self.node, scalar)

    def unknown(self, may=True):
        I = self.I
        fx = fx_unknown([I.fxof(v) for v in self.allargs()])
        bufs = {}
        if may:
            for v in self.allargs():
                for k in I.bufs_of(v):
                    bufs[k] = False
        return top(fx, x=bufs or None)


CALLS = {}


def ext(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


def nps(*names):
    return ext(*['numpy.' + n for n in names])


FOLD = set('''abs absolute add all allclose amax amin any append arange arccos arcsin arctan arctan2 argmax argmin argsort argwhere around array asarray
asanyarray atleast_1d atleast_2d atleast_3d bincount bitwise_and bitwise_or bitwise_xor invert ceil clip column_stack concatenate conj conjugate convolve
correlate cos cosh count_nonzero cross cumprod cumsum deg2rad degrees diag diff digitize divide dot dstack empty_like exp expand_dims expm1 eye fix flatnonzero flip fliplr
flipud float_power floor floor_divide fmod full full_like gcd geomspace gradient greater greater_equal heaviside histogram hstack hypot identity imag in1d
indices inner interp intersect1d isclose isfinite isin isinf isnan isreal kron lcm left_shift less less_equal linspace log log10 log1p log2 logical_and
logical_not logical_or logical_xor logspace matmul max maximum mean median min minimum mod moveaxis multiply nan_to_num ndim negative nonzero not_equal equal
ones ones_like outer packbits pad percentile poly polyadd polyder polydiv polyfit polyint polymul polysub polyval positive power prod ptp quantile rad2deg radians
ravel real reciprocal remainder repeat reshape resize right_shift rint roll rollaxis roots rot90 round searchsorted setdiff1d shape sign signbit sin sinc sinh size
sort sqrt square squeeze stack std subtract sum swapaxes take tan tanh tensordot tile trace transpose trapezoid tri tril triu true_divide trunc union1d unique unpackbits
unwrap vander var vdot vstack where zeros zeros_like int64 int32 int16 int8 uint8 uint16 uint32 uint64 float64 float32 bool_ intp int_'''.split())
FOLDX = {'scipy.linalg.hankel', 'scipy.linalg.toeplitz', 'numpy.linalg.inv', 'numpy.linalg.pinv', 'numpy.linalg.norm', 'numpy.linalg.det', 'numpy.linalg.matrix_rank',
         'math.sqrt', 'math.log', 'math.log2', 'math.log10', 'math.ceil', 'math.floor', 'math.exp', 'math.sin', 'math.cos', 'math.gcd', 'math.isclose', 'math.pow', 'math.fabs', 'math.trunc', 'math.isqrt'}
VIEWF = {'reshape', 'ravel', 'squeeze', 'transpose', 'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'flip', 'fliplr', 'flipud', 'real', 'imag', 'expand_dims',
         'swapaxes', 'moveaxis', 'rollaxis', 'rot90', 'diag', 'diagonal', 'array_split', 'split', 'hsplit', 'vsplit', 'broadcast_to', 'ascontiguousarray', 'nan_to_num'}


def libfunc(dotted):
    if dotted.startswith('numpy.'):
        o = np
        for p in dotted.split('.')[1:]:
            o = getattr(o, p, None)
            if o is None:
                return None
        return o
    if dotted.startswith('math.'):
        return getattr(math, dotted[5:], None)
    if dotted.startswith('scipy.linalg.'):
        import scipy.linalg
        return getattr(scipy.linalg, dotted[13:], None)
    return None


ALIASES = {'scipy.signal.signaltools.lfilter': 'scipy.signal.lfilter', 'scipy.signal.convolve': 'numpy.convolve', 'scipy.signal.fftconvolve': 'numpy.convolve',
           'scipy.signal.correlate': 'numpy.correlate', 'numpy.absolute': 'numpy.abs', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
           'numpy.conjugate': 'numpy.conj', 'numpy.asanyarray': 'numpy.asarray', 'numpy.round_': 'numpy.round', 'numpy.around': 'numpy.round',
           'numpy.remainder': 'numpy.mod', 'numpy.true_divide': 'numpy.divide', 'numpy.row_stack': 'numpy.vstack', 'numpy.ascontiguousarray': 'numpy.asarray',
           'scipy.linalg.inv': 'numpy.linalg.inv', 'scipy.linalg.pinv': 'numpy.linalg.pinv', 'scipy.linalg.lstsq': 'numpy.linalg.lstsq', 'scipy.linalg.solve': 'numpy.linalg.solve'}


def try_fold(I, dotted, args, kwargs, node):
    base = dotted.split('.', 1)[1] if '.' in dotted else dotted
    if not (dotted.startswith('numpy.') and base in FOLD or dotted in FOLDX):
        return None
    if dotted.startswith('numpy.') and base in VIEWF:
        return None
    try:
        a = [cval(I, x) for x in args]
        k = {n: cval(I, x) for n, x in kwargs.items()}
    except (NotConst, RecursionError):
        return None
    for x in list(a) + list(k.values()):
        if isinstance(x, np.ndarray) and x.size > MAXTAB:
            return None
        if isinstance(x, (int, float)) and not isinstance(x, bool) and abs(x) > MAXTAB and base in ('zeros', 'ones', 'arange', 'full', 'eye', 'tile', 'repeat', 'linspace', 'identity', 'logspace'):
            return None
        if isinstance(x, (tuple, list)) and base in ('zeros', 'ones', 'full') and all(isinstance(y, int) for y in x) and math.prod(x) > MAXTAB:
            return None
    if base in ('outer', 'kron') and np.size(a[0]) * np.size(a[1]) > MAXTAB:
        return None
    if base == 'arange' and all(isinstance(x, (int, float)) for x in a) and a:
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if st == 0 or (hi - lo) / st > MAXTAB:
            return None
    f = libfunc(dotted)
    if f is None:
        return None
    fx = fx_unknown([I.fxof(v) for v in list(args) + list(kwargs.values())])
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = f(*a, **k)
    except (ValueError, TypeError, IndexError, ZeroDivisionError) as e:
        I.fail(type(e).__name__, node, '%s: %s' % (base, e))
    except Exception:
        return None
    if isinstance(r, np.ndarray) and (r.size > MAXTAB or r.dtype.kind not in 'biufc'):
        return None
    v = wrap_const(I, r, node, fx)
    if base in ('zeros', 'zeros_like', 'ones', 'ones_like') and isinstance(r, np.ndarray):
        pass
    return v


def call_ext(I, dotted, args, kwargs, node):
    d = ALIASES.get(dotted, dotted)
    I.emit('ext', dotted, args, kwargs, I.where(node))
    o = kwargs.get('out')
    if o is not None and o.k != 'none' and d.startswith('numpy.'):
        kw = {k: v for k, v in kwargs.items() if k != 'out'}
        r = call_ext(I, dotted, args, kw, node)
        tgt = I.getarr(o)
        if tgt is not None:
            ra = A(I, r, node)
            I.written(o.x, tgt.rep(elem=ra.elem, const=None, fx=ra.fx, lo=ra.lo, hi=ra.hi), node, 'out= argument')
        elif o.k == 'top' and isinstance(o.x, dict):
            I.write_effect({b: False for b in o.x}, node, 'out= argument')
        return o
    r = try_fold(I, d, args, kwargs, node)
    if r is not None:
        return r
    c = Cx(I, d, args, kwargs, node)
    c.orig = dotted
    f = CALLS.get(d)
    if f is not None:
        try:
            return f(c)
        except TooBig:
            return c.unknown()
    root = d.split('.')[0]
    if d.startswith('numpy.random.'):
        return rng_call(c, d.split('.')[-1])
    if root in ('matplotlib',):
        I.emit('plot', d, I.where(node))
        return top(fx_unknown([I.fxof(v) for v in c.allargs()]))
    if root in ('random', 'secrets', 'uuid'):
        I.emit('rng', d, I.where(node), 'foreign')
        return top(Fx(frozenset(['rng'])))
    if root in ('time', 'datetime'):
        I.emit('ambient', d, I.where(node))
        return top()
    if root in ('os', 'sys', 'subprocess', 'shutil', 'pathlib', 'json', 'pickle', 'logging', 'warnings', 'socket', 'tempfile', 'io'):
        I.emit('io', d, I.where(node))
        return c.unknown()
    if root == 'builtins':
        return builtin_other(c, d[9:])
    if root in ('scipy', 'sklearn'):
        return sci_other(c, d)
    if root == 'numpy':
        if d in ('numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.load', 'numpy.loadtxt', 'numpy.fromfile', 'numpy.genfromtxt'):
            I.emit('io', d, I.where(node))
        if d in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis', 'numpy.fill_diagonal', 'numpy.random.shuffle') and args:
            t = I.getarr(args[0])
            if t is not None:
                I.written(args[0].x, t.rep(elem=None, const=None, fx=fx_unknown([t.fx] + [I.fxof(v) for v in args[1:]]), lo=None, hi=None), node, d)
            return NONE
        if d == 'numpy.seterr':
            I.emit('globalwrite', d, I.where(node), d)
        if d in ('numpy.set_printoptions', 'numpy.seterrcall'):
            I.emit('globalwrite', d, I.where(node), d)
        base = d.split('.')[-1]
        return c.unknown(may=base in VIEWF or base not in FOLD)
    if root == 'functools':
        return functools_call(c, d)
    if root == 'copy':
        return copy_call(c, args[0]) if args else top()
    if root == 'itertools':
        return itertools_call(c, d)
    if root == 'collections':
        return collections_call(c, d)
    if root in ('enum', 'typing', 'abc', 'dataclasses'):
        return top()
    if root == 'math':
        v = args[0] if args else NONE
        return V('num', p=None, nt='float', fx=fx_unknown([I.fxof(x) for x in args]))
    I.emit('unknowncall', d, I.where(node))
    return c.unknown()


# -- randomness ------------------------------------------------------------------------------------------
def rng_call(c, base):
    I = c.I
    if base in ('seed', 'set_state'):
        I.emit('seed', c.name, I.where(c.node))
        return NONE
    if base in ('get_state',):
        return top(Fx(frozenset(['rng'])))
    if base in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'):
        I.emit('rngobj', c.name, I.where(c.node))
        return I.alloc(Inst(None, {'__rng__': vstr(base)}, fx=Fx(frozenset(['rng'])), open_=True), c.node)
    if base == 'shuffle' and c.args:
        I.emit('rng', c.name, I.where(c.node), 'numpy')
        t = I.getarr(c.args[0])
        if t is not None:
            I.written(c.args[0].x, t.rep(elem=None, const=None, fx=fx_unknown([t.fx]).with_deps(frozenset(['rng']))), c.node, 'shuffle')
        return NONE
    draw = sum(1 for e in I.log if e[0] == 'rng')
    I.emit('rng', c.name, I.where(c.node), 'numpy')
    fs = [I.fxof(v) for v in c.allargs()]
    size = c.kw.get('size')
    fx = NOFX
    la = sa = None
    if base in ('randn', 'rand', 'random', 'random_sample', 'standard_normal'):
        fx = fx_shape(fs)
        shp = None
        if base in ('randn', 'rand'):
            shp = list(c.args)
        else:
            s = size or (c.args[0] if c.args else None)
            shp = ix_list(s) if s is not None and s.k in ('num', 'tuple') else ([] if s is None or s.k == 'none' else None)
    elif base in ('normal', 'uniform', 'laplace'):
        loc = c.arg(0, 'loc', 'low', default=num(0))
        sc = c.arg(1, 'scale', 'high', default=num(1))
        la, sa = A(I, loc), A(I, sc)
        fx = fx_lincomb([la.fx, sa.fx], [isz(la), isz(sa)])
        s = c.arg(2, 'size')
        shp = ix_list(s) if s is not None and s.k in ('num', 'tuple') else ([] if s is None or s.k == 'none' else None)
        if s is not None:
            fx = fx.with_deps(I.fxof(s).deps)
    else:
        fx = fx_unknown(fs)
        shp = None
        s = c.arg(2 if base in ('randint', 'integers', 'binomial') else None, 'size')
        if s is not None and s.k in ('num', 'tuple'):
            shp = ix_list(s)
    fx = fx.with_deps(frozenset(['rng']))
    nt = 'int' if base in ('randint', 'integers', 'binomial', 'poisson', 'choice', 'permutation') else 'float'
    if shp is None:
        return I.alloc(Arr(shape=None, nt=nt, fx=fx), c.node)
    dims = tuple(x.p if x.k == 'num' else None for x in shp)
    # standard normal deviates are opaque elements of the draw; location and scale act on them
    key = 'normal%d' % draw if base in ('randn', 'standard_normal', 'normal') and not I.in_loop else None
    if base in ('rand', 'random', 'random_sample') and not I.in_loop:
        key = 'uniform%d' % draw
    if I.draws is not None and base in ('rand', 'random', 'random_sample', 'uniform') and dims and all(d is not None and d.cint() is not None for d in dims) and not I.in_loop:
        lo, hi = (0, 1) if la is None else [x.elem(()) if x.shape == () and x.elem is not None else None for x in (la, sa)]      # a check fixed what is drawn
        lo, hi = [float(x.cval()) if isinstance(x, Poly) and x.cval() is not None else x if isinstance(x, int) else None for x in (lo, hi)]
        if lo is not None and hi is not None:
            sh = tuple(d.cint() for d in dims)
            return I.alloc(from_const(lo + (hi - lo) * np.array(I.draws(int(np.prod(sh)))).reshape(sh)).rep(fx=fx), c.node)
    if not dims:
        q = None
        if key:
            z = Poly.atom(('e', key, pc(0)))
            q = z if la is None else None
            if la is not None and la.shape == () and sa.shape == () and la.elem is not None and sa.elem is not None:
                q = la.elem(()) + sa.elem(()) * z if la.elem(()) is not None and sa.elem(()) is not None else None
        return V('num', p=q, nt=nt, fx=fx, np_=True)
    elem = None
    if key:
        def elem(idx):
            z = Poly.atom(('e', key) + tuple(idx))
            if la is None:
                return z
            x, y = (f(idx) if f is not None else None for f in (bcast(la, dims), bcast(sa, dims)))
            return x + y * z if x is not None and y is not None else None
    return I.alloc(Arr(shape=dims, nt=nt, fx=fx, elem=elem), c.node)


# -- creation ----------------------------------------------------------------------------------------------
def dtype_nt(I, v, default=None):
    if v is not None and v.k in ('ext', 'type', 'str') and isinstance(v.c, str):
        w = CODES.get(v.c.split('.')[-1].lstrip('<>=|'))
        if w is not None:
            return 'float' if w.startswith('f') else 'int'
    if v is None or v.k == 'none':
        return default
    if v.k == 'type' and v.x in RANK:
        return v.x
    n = v.c if v.k in ('ext', 'type', 'str') else None
    if n is None:
        return None
    n = n.split('.')[-1].rstrip('_')
    if n.startswith('int') or n.startswith('uint') or n in ('long', 'intp', 'i', 'i4', 'i8', 'u1', 'uint', 'byte', 'short'):
        return 'int'
    if n.startswith('float') or n in ('double', 'single', 'half', 'f', 'f4', 'f8', 'd'):
        return 'float'
    if n.startswith('bool') or n == '?':
        return 'bool' if n != '?' else None
    if n.startswith('complex'):
        return 'complex'
    return None


def shape_of_arg(I, v):
    if v.k == 'num':
        return (v.p,)
    its = I.iter_items(v, None) if v.k == 'tuple' or isinstance(I.obj(v), (Lst, Arr)) else None
    if its is None:
        return None
    return tuple(x.p if x.k == 'num' else None for x in its)


def check_dims(I, v, node):
    for x in ix_list(v):
        if x.k == 'num' and x.nt == 'float':
            I.fail('TypeError', node, "'float' object cannot be interpreted as an integer")
        if x.k == 'none':
            I.fail('TypeError', node, "'NoneType' object cannot be interpreted as an integer")
        if x.k == 'num' and x.p is not None and P.sign(x.p) == '-':
            I.fail('ValueError', node, 'negative dimensions are not allowed')


@nps('zeros', 'ones', 'empty', 'full')
def c_zeros(c):
    I = c.I
    base = c.name.split('.')[-1]
    s = c.arg(0, 'shape')
    if s is None:
        I.fail('TypeError', c.node, '%s() missing required argument' % base)
    check_dims(I, s, c.node)
    shp = shape_of_arg(I, s)
    fx = fx_shape([I.fxof(s)])
    if base == 'full':
        fv = A(I, c.arg(1, 'fill_value', default=num(0)))
        nt = dtype_nt(I, c.arg(2, 'dtype'), fv.nt)
        fx = fv.fx.with_deps(fx.deps)
        e = (lambda idx: fv.elem(())) if fv.elem is not None and fv.shape == () else None
        lo, hi = fv.lo, fv.hi
    else:
        nt = dtype_nt(I, c.arg(1, 'dtype'), 'float')
        k = {'zeros': 0, 'ones': 1}.get(base)
        e = None
        lo = hi = None
        if k is not None:
            e = lambda idx: pc(k)
            lo = hi = Fraction(k)
        else:
            fx = fx.with_deps(frozenset(['uninit']))
    if shp is None:
        return I.alloc(Arr(shape=None, nt=nt, fx=fx, lo=lo, hi=hi), c.node)
    return out(I, narrow(Arr(shape=shp, nt=nt, elem=e, fx=fx, lo=lo, hi=hi), dtype_w(c.arg(2 if base == 'full' else 1, 'dtype'))), c.node, scalar=False)


@nps('zeros_like', 'ones_like', 'empty_like', 'full_like')
def c_zeros_like(c):
    I = c.I
    base = c.name.split('.')[-1]
    a = c.arr(0, 'a', 'prototype')
    fx = fx_shape([a.fx])
    k = {'zeros_like': 0, 'ones_like': 1}.get(base)
    nt = dtype_nt(I, c.arg(1 if base != 'full_like' else 2, 'dtype'), a.nt)
    shp = a.shape
    s = c.kw.get('shape')
    if s is not None and s.k != 'none':
        shp = shape_of_arg(I, s)
    if base == 'full_like':
        fv = A(I, c.arg(1, 'fill_value'))
        return out(I, Arr(shape=shp, nt=nt, elem=(lambda idx: (P.ptrunc(fv.elem(())) if nt == 'int' else fv.elem(()))) if fv.elem and fv.shape == () else None, fx=fv.fx.with_deps(fx.deps), lo=fv.lo, hi=fv.hi), c.node, scalar=False)
    if k is None:
        return out(I, Arr(shape=shp, nt=nt, fx=fx.with_deps(frozenset(['uninit']))), c.node, scalar=False)
    d = c.arg(1, 'dtype')
    w = a.w if d is None or d.k == 'none' else dtype_w(d)
    return out(I, narrow(Arr(shape=shp, nt=nt, elem=lambda idx: pc(k), fx=fx, lo=Fraction(k), hi=Fraction(k)), w), c.node, scalar=False)


@nps('eye', 'identity')
def c_eye(c):
    n = c.arg(0, 'N', 'n')
    m = c.arg(1, 'M', default=n) if c.name.endswith('eye') else n
    if m.k == 'none':
        m = n
    return c.out(Arr(shape=(n.p, m.p), nt=dtype_nt(c.I, c.kw.get('dtype'), 'float'), elem=lambda idx: P.pcmp('==', idx[0], idx[1]), fx=fx_shape([n.fx, m.fx]), lo=Fraction(0), hi=Fraction(1)))


@nps('arange')
def c_arange(c):
    I = c.I
    a = [x for x in c.args]
    if 'start' in c.kw or 'stop' in c.kw or 'step' in c.kw:
        lo, hi, st = c.arg(0, 'start', default=num(0)), c.arg(1, 'stop'), c.arg(2, 'step', default=num(1))
        if hi is None:
            lo, hi = num(0), lo
    elif len(a) == 1:
        lo, hi, st = num(0), a[0], num(1)
    else:
        lo, hi, st = a[0], a[1], a[2] if len(a) > 2 and a[2].k == 'num' else num(1)
    fx = fx_shape([I.fxof(x) for x in (lo, hi, st)])
    if any(x.k != 'num' for x in (lo, hi, st)):
        return I.alloc(Arr(shape=(None,), fx=fx), c.node)
    nt = dtype_nt(I, c.arg(3, 'dtype'), join_rank([x.nt for x in (lo, hi, st)]))
    if nt == 'bool':
        nt = 'int'
    n = None
    if all(x.p is not None for x in (lo, hi, st)):
        d = P.pdiv(hi.p - lo.p, st.p)
        if P.sign(st.p) in ('+', '-') or True:
            n = P.pceil(d)
            if cmp0(n, '>=') is not True:
                n = P.pmax(n, ZERO) if P.sign(n) != '-' else ZERO
    e = None
    if lo.p is not None and st.p is not None:
        e = memo(lambda idx: lo.p + st.p * idx[0])
    l = Fraction(0) if (lo.p is not None and st.p is not None and lo.p.cval() == 0 and P.sign(st.p) == '+') else None
    return c.out(narrow(Arr(shape=(n,), nt=nt, elem=e, fx=fx), dtype_w(c.arg(3, 'dtype'))))


@nps('linspace', 'logspace', 'geomspace')
def c_linspace(c):
    I = c.I
    a, b = c.arr(0, 'start'), c.arr(1, 'stop')
    n = c.arg(2, 'num', default=num(50))
    nfx = fx_shape([I.fxof(n)])
    ep = c.arg(3, 'endpoint')
    epv = True if ep is None else I.truth_known(ep)
    if c.name.endswith('linspace'):
        fx = fx_lincomb([a.fx, b.fx], [isz(a), isz(b)]).with_deps(nfx.deps)
        e = None
        if a.elem is not None and b.elem is not None and a.shape == () and b.shape == () and n.k == 'num' and n.p is not None and epv is not None:
            pa, pb = a.elem(()), b.elem(())
            den = n.p - 1 if epv else n.p
            if pa is not None and pb is not None:
                e = memo(lambda idx: pa + P.pdiv((pb - pa) * idx[0], den))
    else:
        fx = fx_nonlin([a.fx, b.fx], 'X').with_deps(nfx.deps)
        e = None
    r = Arr(shape=(n.p if n.k == 'num' else None,), nt='float', elem=e, fx=fx)
    rs = c.kw.get('retstep')
    if rs is not None and I.truth_known(rs):
        return vtuple([c.out(r), V('num', nt='float', fx=fx)])
    return c.out(r)


@nps('array', 'asarray')
def c_array(c):
    I = c.I
    v = c.arg(0, 'object', 'a')
    if v is None:
        I.fail('TypeError', c.node, 'array() missing required argument')
    nt = dtype_nt(I, c.arg(1, 'dtype'), 'keep')
    cp = c.kw.get('copy')
    view = c.name.endswith('asarray') or (cp is not None and I.truth_known(cp) is False)
    o = I.obj(v)
    if v.k in ('none', 'enum', 'func', 'str', 'cls'):
        return I.alloc(Arr(shape=(), nt='object', fx=I.fxof(v)), c.node)
    if isinstance(o, Dct):
        return I.alloc(Arr(shape=(), nt='object', fx=I.fxof(v)), c.node)
    if v.k == 'num' and c.name.endswith('array'):
        a = A(I, v)
        r = a.rep(bufs={})
        if nt != 'keep':
            r = cast(r, nt)
        return I.alloc(r, c.node)
    a = A(I, v, c.node)
    if isinstance(o, Arr) and view and (nt == 'keep' or nt == a.nt):
        return v if True else v
    if v.k == 'top':
        if view:
            return top(v.fx, x=v.x)
        return I.alloc(Arr(shape=None, fx=v.fx, nt=None if nt == 'keep' else nt), c.node)
    r = fresh(a)
    if isinstance(o, Arr) and view and a.nt not in RANK:
        r = r.rep(bufs={k: False for k in o.bufs})
    if nt != 'keep' and nt is not None:
        r = narrow(cast(r, nt), dtype_w(c.arg(1, 'dtype')))
    elif nt is None:
        r = r.rep(nt=None, elem=None, const=None)
    nd = c.kw.get('ndmin')
    if nd is not None and nd.cint() is not None and r.ndim is not None and r.ndim < nd.cint():
        k = nd.cint() - r.ndim
        e = r.elem
        r = r.rep(shape=(ONE,) * k + r.shape, elem=(lambda idx: e(idx[k:])) if e else None, const=None)
    return out(I, r, c.node, scalar=False)


def cast(a, nt):
    if nt == a.nt or nt is None:
        if nt == a.nt and a.w is not None:
            return from_const(a.const.astype(np.int64 if nt == 'int' else np.float64)).rep(fx=a.fx, bufs=a.bufs, contig=a.contig, flags=a.flags) if a.const is not None else a.rep(w=None)
        return a if nt == a.nt else a.rep(nt=None, elem=None, const=None, lo=None, hi=None)
    e = a.elem
    fx = a.fx
    lo, hi = a.lo, a.hi
    const = None
    if a.const is not None:
        try:
            const = a.const.astype({'int': np.int64, 'float': np.float64, 'bool': np.bool_, 'complex': np.complex128}[nt])
            f = from_const(const)
            return a.rep(nt=nt, const=const, elem=f.elem, lo=f.lo, hi=f.hi)
        except Exception:
            const = None
    ne = e
    if nt == 'int':
        if a.nt not in ('bool', 'int'):
            ne = memo(lambda idx: None if e(idx) is None else P.ptrunc(e(idx))) if e else None
            if a.nt is not None and (fx.lin or fx.deg) and a.nt not in ('bool', 'int'):
                fx = fx_nonlin([fx], 'X')
            elif a.nt is None:
                fx = fx_unknown([fx])
            if lo is not None:
                lo, hi = Fraction(math.trunc(lo)), Fraction(math.trunc(hi))
    elif nt == 'bool':
        ne = memo(lambda idx: None if e(idx) is None else P.pcmp('!=', e(idx), ZERO)) if e else None
        fx = fx_nonlin([fx], 'zero') if fx.lin or fx.deg else fx
        lo, hi = Fraction(0), Fraction(1)
    elif nt == 'complex':
        ne = None
    elif nt == 'float' and a.nt == 'complex':
        ne = None
    return a.rep(nt=nt, elem=ne, const=const, fx=fx, lo=lo, hi=hi)


def copy_call(c, v):
    I = c.I
    o = I.obj(v)
    if isinstance(o, Arr):
        return I.alloc(fresh(A(I, v)), c.node)
    if isinstance(o, Lst):
        if c.name.endswith('deepcopy') and o.items is not None:
            return I.alloc(o.rep(items=[copy_call(c, x) for x in o.items], bufs={}), c.node)
        return I.alloc(o.rep(bufs={}), c.node)
    if isinstance(o, Dct):
        if c.name.endswith('deepcopy') and o.items is not None:
            return I.alloc(o.rep(items={k: copy_call(c, x) for k, x in o.items.items()}, bufs={}), c.node)
        return I.alloc(o.rep(bufs={}), c.node)
    if isinstance(o, Inst):
        if c.name.endswith('deepcopy'):
            return I.alloc(o.rep(attrs={k: copy_call(c, x) for k, x in o.attrs.items()}, bufs={}), c.node)
        return I.alloc(o.rep(bufs={}), c.node)
    if v.k == 'tuple' and v.x is not None and c.name.endswith('deepcopy'):
        return vtuple([copy_call(c, x) for x in v.x])
    if v.k == 'top':
        return top(v.fx)
    return v


@nps('copy')
def c_copy(c):
    return c.I.alloc(fresh(c.arr(0, 'a')), c.node)


# -- views -----------------------------------------------------------------------------------------------------
def view_bufs(I, v, a, contig_needed):
    """buffers of a view of v; a temporary for non-array arguments"""
    o = I.obj(v)
    if not isinstance(o, Arr):
        if v.k == 'top' and isinstance(v.x, dict):
            return {k: False for k in v.x}
        return {}
    if contig_needed and not a.contig:
        return {k: False for k in o.bufs}
    return dict(o.bufs)


def flat_index(idx, shape):
    r = ZERO
    for i, d in zip(idx, shape):
        if d is None:
            return None
        r = r * d + i
    return r


def unflat(p, shape):
    out_ = []
    for d in reversed(shape[1:]):
        if d is None:
            return None
        out_.append(P.pmod(p, d))
        p = P.pfdiv(p, d)
    out_.append(p)
    return tuple(reversed(out_))


def reshape_arr(I, a, shp, node):
    """shp: tuple of Poly|None with possible -1"""
    sz = size_poly(a)
    neg = [k for k, d in enumerate(shp) if d is not None and d.cval() == -1]
    dims = list(shp)
    if len(neg) > 1:
        I.fail('ValueError', node, 'can only specify one unknown dimension')
    if neg:
        rest = ONE
        for k, d in enumerate(shp):
            if k != neg[0]:
                rest = None if rest is None or d is None else rest * d
        if sz is not None and rest is not None:
            if rest == ONE:
                dims[neg[0]] = sz
            else:
                q = P.pdiv(sz, rest)
                if P.is_int(q):
                    dims[neg[0]] = q
                else:
                    m = P.pmod(sz, rest)
                    if m.cval() is not None and m.cval() != 0:
                        I.fail('ValueError', node, 'cannot reshape array of size %r into shape with row size %r' % (sz, rest))
                    dims[neg[0]] = P.pfdiv(sz, rest)
        else:
            dims[neg[0]] = None
    else:
        tot = ONE
        for d in dims:
            tot = None if tot is None or d is None else tot * d
        if tot is not None and sz is not None and cmp0(tot - sz, '!=') is True:
            I.fail('ValueError', node, 'cannot reshape array of size %r into size %r' % (sz, tot))
    dims = tuple(dims)
    if a.const is not None and all(d is not None and d.cint() is not None for d in dims):
        try:
            c = a.const.reshape([d.cint() for d in dims])
            return from_const(c).rep(fx=a.fx)
        except ValueError as e:
            I.fail('ValueError', node, str(e))
    e = a.elem
    elem = None
    if e is not None and a.shape is not None:
        src = a.shape
        # the same shape or adding/removing unit axes keeps indices
        if dims == src:
            elem = e
        else:
            def elem(idx):
                # drop unit axes first
                f = flat_index(idx, dims)
                if f is None:
                    nz = [i for i, d in zip(idx, dims) if d != ONE]
                    nsrc = [d for d in src if d != ONE]
                    if len(nz) == len(nsrc) == 1:
                        f2 = nz[0]
                        return e(tuple(ZERO if d == ONE else f2 for d in src))
                    return None
                if len(src) == 1:
                    return e((f,))
                u = unflat(f, src)
                return None if u is None else e(u)
            elem = memo(elem)
    return Arr(shape=dims, nt=a.nt, elem=elem, fx=a.fx, lo=a.lo, hi=a.hi)


def do_reshape(I, v, a, shape_vals, order, node, copy=False):
    dims = tuple(x.p if x.k == 'num' else None for x in shape_vals)
    for x in shape_vals:
        if x.k == 'num' and x.nt == 'float':
            I.fail('TypeError', node, "'float' object cannot be interpreted as an integer")
    dfx = fx_shape([x.fx for x in shape_vals])
    if a.shape is None:
        ds = tuple(None if d is None or d.cval() == -1 else d for d in dims)
        return I.alloc(Arr(shape=ds, nt=a.nt, fx=a.fx.with_deps(dfx.deps), bufs={k: False for k in view_bufs(I, v, a, True)}, lo=a.lo, hi=a.hi), node)
    if order == 'F':
        t = transp_arr(a, None)
        r = reshape_arr(I, t, dims[::-1], node)
        r = transp_arr(r, None)
        r = r.rep(fx=a.fx.with_deps(dfx.deps), bufs=view_bufs(I, v, a, False) if (a.ndim == 1 and a.contig) else {k: False for k in view_bufs(I, v, a, False)}, contig=len(dims) <= 1)
    else:
        r = reshape_arr(I, a, dims, node)
        r = r.rep(fx=a.fx.with_deps(dfx.deps), bufs=view_bufs(I, v, a, True))
    if copy:
        return out(I, fresh(r), node, scalar=False)
    r = out(I, r, node, scalar=False)
    ds = [d.cint() if d is not None else None for d in I.heap[r.x].shape] if r.k == 'ref' else [None]
    return I.view_of(r, v, lambda l: l.reshape(ds)) if order != 'F' and None not in ds else r


@nps('reshape')
def c_reshape(c):
    I = c.I
    v = c.arg(0, 'a')
    a = c.arr(0, 'a')
    s = c.arg(1, 'newshape', 'shape')
    order = c.arg(2, 'order')
    its = [s] if s.k == 'num' else I.iter_items(s, c.node)
    if its is None:
        return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx.with_deps(I.fxof(s).deps), bufs={k: False for k in view_bufs(I, v, a, True)}), c.node)
    return do_reshape(I, v, a, its, order.c if order is not None and order.k == 'str' else 'C', c.node)


@nps('ravel')
def c_ravel(c):
    v = c.arg(0, 'a')
    o = c.arg(1, 'order')
    return do_reshape(c.I, v, c.arr(0, 'a'), [num(-1)], o.c if o is not None and o.k == 'str' else 'C', c.node)


@nps('squeeze')
def c_squeeze(c):
    I = c.I
    v, a = c.arg(0, 'a'), c.arr(0, 'a')
    ax = c.arg(1, 'axis')
    if a.shape is None:
        return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs={k: False for k in view_bufs(I, v, a, False)}), c.node)
    if ax is not None and ax.k == 'num' and ax.cint() is not None:
        k = ax.cint() % len(a.shape)
        drop = {k}
        d = a.shape[k]
        if d is not None and cmp0(d - 1, '!=') is True:
            I.fail('ValueError', c.node, 'cannot squeeze an axis whose size is not one')
    else:
        drop = {k for k, d in enumerate(a.shape) if d == ONE}
        if any(d is None for d in a.shape):
            return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs=view_bufs(I, v, a, False)), c.node)
        if any(d != ONE and cmp0(d - 1, '!=') is not True for d in a.shape):
            # an axis of generic extent may be one: the result rank is data dependent
            sym = [k for k, d in enumerate(a.shape) if d != ONE and cmp0(d - 1, '!=') is not True]
            I.emit('rank_ambiguous', I.where(c.node), [a.shape[k] for k in sym])
    keep = [k for k in range(len(a.shape)) if k not in drop]
    e = a.elem
    n = len(a.shape)

    def elem(idx):
        full = [ZERO] * n
        for j, k in enumerate(keep):
            full[k] = idx[j]
        return e(tuple(full))
    r = Arr(shape=tuple(a.shape[k] for k in keep), nt=a.nt, elem=memo(elem) if e else None, fx=a.fx, bufs=view_bufs(I, v, a, False), contig=a.contig, lo=a.lo, hi=a.hi)
    if a.const is not None:
        r = r.rep(const=a.const.reshape([a.const.shape[k] for k in keep]))
    return out(I, r, c.node, scalar=False)


@nps('expand_dims')
def c_expand(c):
    I = c.I
    v, a = c.arg(0, 'a'), c.arr(0, 'a')
    ax = c.arg(1, 'axis')
    k = ax.cint() if ax is not None and ax.k == 'num' else None
    if a.shape is None or k is None:
        return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs={z: False for z in view_bufs(I, v, a, False)}), c.node)
    if k < 0:
        k += len(a.shape) + 1
    e = a.elem
    r = Arr(shape=a.shape[:k] + (ONE,) + a.shape[k:], nt=a.nt, elem=memo(lambda idx: e(idx[:k] + idx[k + 1:])) if e else None, fx=a.fx, bufs=view_bufs(I, v, a, False), contig=a.contig, lo=a.lo, hi=a.hi,
            const=np.expand_dims(a.const, k) if a.const is not None else None)
    return out(I, r, c.node)


@nps('atleast_1d', 'atleast_2d')
def c_atleast(c):
    I = c.I
    v, a = c.arg(0), c.arr(0)
    nd = int(c.name[-2])
    if a.shape is None:
        return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs={z: False for z in view_bufs(I, v, a, False)}), c.node)
    if len(a.shape) >= nd:
        if isinstance(I.obj(v), Arr):
            return v
        return out(I, fresh(a), c.node)
    k = nd - len(a.shape)
    e = a.elem
    r = Arr(shape=(ONE,) * k + a.shape, nt=a.nt, elem=memo(lambda idx: e(idx[k:])) if e else None, fx=a.fx, bufs=view_bufs(I, v, a, False) if a.shape else {}, contig=a.contig, lo=a.lo, hi=a.hi,
            const=a.const.reshape((1,) * k + a.const.shape) if a.const is not None else None)
    return out(I, r, c.node, scalar=False)


def transp_arr(a, axes):
    n = len(a.shape)
    axes = list(range(n))[::-1] if axes is None else [x % n for x in axes]
    e = a.elem

    def elem(idx):
        src = [None] * n
        for j, k in enumerate(axes):
            src[k] = idx[j]
        return e(tuple(src))
    return a.rep(shape=tuple(a.shape[k] for k in axes), elem=memo(elem) if e else None, const=a.const.transpose(axes) if a.const is not None else None,
                 contig=a.contig and (axes == sorted(axes) or n <= 1))


def transpose(I, v, axes, node):
    a = A(I, v, node)
    if a.shape is None:
        return I.alloc(a.rep(bufs={k: False for k in view_bufs(I, v, a, False)}, elem=None, const=None), node)
    r = transp_arr(a, axes)
    return I.view_of(I.alloc(r.rep(bufs=view_bufs(I, v, a, False)), node), v, lambda l: l.transpose(axes))


@nps('transpose')
def c_transpose(c):
    ax = c.arg(1, 'axes')
    axes = None
    if ax is not None and ax.k != 'none':
        its = c.I.iter_items(ax, c.node)
        axes = [x.cint() for x in its] if its is not None and all(x.cint() is not None for x in its) else None
        if axes is None:
            return c.unknown()
    return transpose(c.I, c.arg(0, 'a'), axes, c.node)


@nps('swapaxes', 'moveaxis')
def c_swapaxes(c):
    a = c.arr(0)
    i, j = c.arg(1), c.arg(2)
    if a.shape is None or i is None or j is None or i.cint() is None or j.cint() is None:
        return c.unknown()
    axes = list(range(len(a.shape)))
    i, j = i.cint() % len(axes), j.cint() % len(axes)
    if c.name.endswith('swapaxes'):
        axes[i], axes[j] = axes[j], axes[i]
    else:
        x = axes.pop(i)
        axes.insert(j, x)
    return transpose(c.I, c.arg(0), axes, c.node)


@nps('flip', 'fliplr', 'flipud')
def c_flip(c):
    I = c.I
    v, a = c.arg(0, 'm'), c.arr(0, 'm')
    base = c.name.split('.')[-1]
    if a.shape is None:
        return I.alloc(a.rep(bufs={k: False for k in view_bufs(I, v, a, False)}, elem=None, const=None), c.node)
    if base == 'fliplr':
        axes = [1]
        if len(a.shape) < 2:
            I.fail('ValueError', c.node, 'Input must be >= 2-d.')
    elif base == 'flipud':
        axes = [0]
    else:
        ax = c.arg(1, 'axis')
        if ax is None or ax.k == 'none':
            axes = list(range(len(a.shape)))
        elif ax.cint() is not None:
            axes = [ax.cint() % len(a.shape)]
        else:
            return c.unknown()
    e = a.elem

    def elem(idx):
        s = list(idx)
        for k in axes:
            if a.shape[k] is None:
                return None
            s[k] = a.shape[k] - 1 - s[k]
        return e(tuple(s))
    r = a.rep(elem=memo(elem) if e else None, const=np.flip(a.const, axes) if a.const is not None else None, bufs=view_bufs(I, v, a, False), contig=False)
    return I.alloc(r, c.node)


@nps('roll')
def c_roll(c):
    a = c.arr(0, 'a')
    s = c.arg(1, 'shift')
    ax = c.arg(2, 'axis')
    fx = a.fx.with_deps(c.I.fxof(s).deps)
    if c.I.fxof(s).lin:
        fx = fx_select(a.fx, c.I.fxof(s))
    e = a.elem
    elem = None
    if a.shape is not None and e is not None and s.k == 'num' and s.p is not None:
        k = 0 if len(a.shape) == 1 else (ax.cint() if ax is not None and ax.k == 'num' else None)
        if k is not None and a.shape[k] is not None:
            k %= len(a.shape)
            elem = memo(lambda idx: e(tuple(P.pmod(i - s.p, a.shape[k]) if j == k else i for j, i in enumerate(idx))))
    return c.out(fresh(a, elem=elem, const=None, fx=fx))


@nps('broadcast_to')
def c_bto(c):
    a = c.arr(0)
    s = c.arg(1, 'shape')
    shp = shape_of_arg(c.I, s)
    if shp is None:
        return c.unknown()
    return c.out(Arr(shape=shp, nt=a.nt, elem=bcast(a, shp), fx=a.fx, bufs=view_bufs(c.I, c.arg(0), a, False), contig=a.contig and shp == a.shape, lo=a.lo, hi=a.hi))


# -- joining -----------------------------------------------------------------------------------------------------
def seq_arrays(c, v):
    I = c.I
    if v.k == 'tuple' or isinstance(I.obj(v), (Lst, Itr)):
        its = v.x if v.k == 'tuple' else I.obj(v).items
        if its is None:
            return None
        return list(its)
    a = I.getarr(v)
    if a is not None:
        return I.iter_items(v, c.node)
    return None


def concat(I, parts, axis, node, fxs=()):
    if not parts:
        I.fail('ValueError', node, 'need at least one array to concatenate')
    nt = join_rank([p.nt for p in parts if not (p.const is not None and p.const.size == 0 and False)])
    fx = fx_lincomb([p.fx for p in parts], [isz(p) for p in parts])
    los, his = [p.lo for p in parts], [p.hi for p in parts]
    emp = [p.const is not None and p.const.size == 0 for p in parts]
    los = [l for l, e in zip(los, emp) if not e] or [None]
    his = [l for l, e in zip(his, emp) if not e] or [None]
    lo = min(los) if None not in los else None
    hi = max(his) if None not in his else None
    if any(p.shape is None for p in parts):
        return Arr(shape=None, nt=nt, fx=fx, lo=lo, hi=hi)
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts):
        I.fail('ValueError', node, 'all the input arrays must have same number of dimensions')
    if nd == 0:
        I.fail('ValueError', node, 'zero-dimensional arrays cannot be concatenated')
    if axis >= nd or axis < -nd:
        I.fail('ValueError', node, 'axis %d is out of bounds for array of dimension %d' % (axis, nd))
    axis %= nd
    if all(p.const is not None for p in parts):
        try:
            r = np.concatenate([p.const for p in parts], axis)
            if r.size <= MAXTAB:
                return from_const(r).rep(fx=fx)
        except ValueError as e:
            I.fail('ValueError', node, str(e))
    shape = []
    for k in range(nd):
        ds = [p.shape[k] for p in parts]
        if k == axis:
            t = ZERO
            for d in ds:
                t = None if t is None or d is None else t + d
            shape.append(t)
        else:
            kn = [d for d in ds if d is not None]
            for x in kn:
                for y in kn:
                    if cmp0(x - y, '!=') is True:
                        I.fail('ValueError', node, 'all the input array dimensions except for the concatenation axis must match exactly: %r and %r' % (x, y))
            cst = [d for d in kn if d.cval() is not None]
            shape.append(cst[0] if cst else (kn[0] if kn and len(kn) == len(ds) and all(d == kn[0] for d in kn) else None))
    offs = []
    o = ZERO
    for p in parts:
        offs.append(o)
        o = None if o is None or p.shape[axis] is None else o + p.shape[axis]

    def elem(idx):
        k = idx[axis]
        r = None
        for j in range(len(parts) - 1, -1, -1):
            p, off = parts[j], offs[j]
            if off is None:
                # unknown offset of the tail: only usable when an earlier part definitely covers the index
                r = 'unk'
                continue
            d = p.shape[axis]
            if d is not None and d.cval() == 0:
                continue
            # index inside this part?
            inside = P.pcmp('>=', k, off)
            if inside.cval() == 0:
                continue
            if d is not None:
                upper = P.pcmp('<', k, off + d)
            else:
                upper = None
            if r is None:
                cond_hi = ONE    # last part: index in range by contract
            else:
                cond_hi = upper
            if upper is not None and upper.cval() == 0:
                continue
            if cond_hi is None:
                r = 'unk'
                continue
            ev = p.elem(idx[:axis] + (k - off,) + idx[axis + 1:]) if p.elem is not None else None
            if r is None:
                r = ev if ev is not None else 'unk'
                continue
            cd = cond_hi
            if cd.cval() == 1:
                r = ev if ev is not None else 'unk'
            elif isinstance(r, str) or ev is None:
                r = 'unk'
            else:
                r = P.pite(cd, ev, r)
        return None if isinstance(r, str) else r
    return Arr(shape=tuple(shape), nt=nt, elem=memo(elem), fx=fx, lo=lo, hi=hi)


@nps('concatenate')
def c_concat(c):
    I = c.I
    v = c.arg(0, 'arrays')
    ax = c.arg(1, 'axis')
    its = seq_arrays(c, v)
    if its is None:
        fx = I.fxof(v)
        o = I.obj(v)
        nd = None
        if isinstance(o, Lst) and o.ev is not None and isinstance(o.ev, V):
            ea = A(I, o.ev, c.node)
            if ea is not None and ea.shape is not None and len(ea.shape) >= 1:
                return I.alloc(Arr(shape=(None,) + ea.shape[1:], nt=ea.nt, fx=fx, lo=ea.lo, hi=ea.hi), c.node)
        return I.alloc(Arr(shape=None, fx=fx), c.node)
    if ax is not None and ax.k == 'none':
        parts = [reshape_arr(I, A(I, x, c.node), (pc(-1),), c.node) for x in its]
        return c.out(concat(I, parts, 0, c.node))
    axis = 0 if ax is None else ax.cint()
    if axis is None:
        return c.unknown(may=False)
    return c.out(concat(I, [A(I, x, c.node) for x in its], axis, c.node))


@nps('hstack', 'vstack', 'column_stack', 'dstack')
def c_hstack(c):
    I = c.I
    base = c.name.split('.')[-1]
    v = c.arg(0, 'tup')
    its = seq_arrays(c, v)
    if its is None:
        fx = I.fxof(v)
        o = I.obj(v)
        if isinstance(o, (Lst,)) and isinstance(o.ev, V) and base == 'vstack':
            ea = A(I, o.ev, c.node)
            if ea.shape is not None and len(ea.shape) == 1:
                return I.alloc(Arr(shape=(None, ea.shape[0]), nt=ea.nt, fx=fx, lo=ea.lo, hi=ea.hi), c.node)
        return I.alloc(Arr(shape=None, fx=fx), c.node)
    parts = []
    for x in its:
        a = A(I, x, c.node)
        if a.shape is None:
            return I.alloc(Arr(shape=None, fx=I.fxof(v)), c.node)
        if base == 'hstack':
            if a.ndim == 0:
                a = reshape_arr(I, a, (ONE,), c.node)
        elif base == 'vstack':
            if a.ndim < 2:
                a = reshape_arr(I, a, (ONE, a.shape[0] if a.ndim else ONE), c.node)
        elif base == 'column_stack':
            if a.ndim == 1:
                a = reshape_arr(I, a, (a.shape[0], ONE), c.node)
        else:
            return c.unknown(may=False)
        parts.append(a)
    if base == 'hstack':
        axis = 0 if parts and parts[0].ndim == 1 else 1
    else:
        axis = 0 if base == 'vstack' else 1
    return c.out(concat(I, parts, axis, c.node))


@nps('stack')
def c_stack(c):
    its = seq_arrays(c, c.arg(0, 'arrays'))
    ax = c.arg(1, 'axis', default=num(0)).cint()
    if its is None or ax is None:
        return c.unknown(may=False)
    return c.out(stack(c.I, its, ax, NOFX, c.node))


@nps('append')
def c_append(c):
    I = c.I
    a, b = c.arr(0, 'arr'), c.arr(1, 'values')
    ax = c.arg(2, 'axis')
    if ax is None or ax.k == 'none':
        if a.shape is None or b.shape is None:
            return I.alloc(Arr(shape=(None,), nt=join_rank([a.nt, b.nt]), fx=fx_lincomb([a.fx, b.fx], [isz(a), isz(b)])), c.node)
        return c.out(concat(I, [reshape_arr(I, a, (pc(-1),), c.node), reshape_arr(I, b, (pc(-1),), c.node)], 0, c.node))
    k = ax.cint()
    if k is None:
        return c.unknown(may=False)
    return c.out(concat(I, [a, b], k, c.node))


@nps('insert', 'delete')
def c_insert(c):
    a = c.arr(0)
    fs = [c.I.fxof(v) for v in c.args[1:]]
    vals = c.arr(2) if c.name.endswith('insert') and len(c.args) > 2 else None
    fx = fx_select(a.fx, c.I.fxof(c.args[1])) if len(c.args) > 1 else a.fx
    if vals is not None:
        fx = fx_lincomb([fx, vals.fx], [isz(a), isz(vals)])
    shape = None if a.shape is None else tuple(None for _ in a.shape)
    if c.arg(3 if vals is not None else 2, 'axis') is None and shape is not None:
        shape = (None,)
        if c.args[1].k == 'num' and a.ndim == 1 and a.shape[0] is not None:
            if vals is None:
                shape = (a.shape[0] - 1,)
            elif vals.shape == ():
                shape = (a.shape[0] + 1,)
    return c.I.alloc(Arr(shape=shape, nt=a.nt, fx=fx), c.node)


@nps('pad')
def c_pad(c):
    I = c.I
    a = c.arr(0, 'array')
    w = c.arg(1, 'pad_width')
    mode = c.arg(2, 'mode')
    cv = c.kw.get('constant_values')
    if a.shape is None or (mode is not None and mode.c != 'constant'):
        return I.alloc(Arr(shape=None if a.shape is None else (None,) * len(a.shape), nt=a.nt, fx=a.fx.with_deps(I.fxof(w).deps)), c.node)
    fill = A(I, cv) if cv is not None else from_const(np.asarray(0))
    if fill.shape != () or len(a.shape) != 1:
        return I.alloc(Arr(shape=(None,) * len(a.shape), nt=a.nt, fx=fx_lincomb([a.fx, fill.fx], [isz(a), isz(fill)]).with_deps(I.fxof(w).deps)), c.node)
    if w.k == 'num':
        pl = pr = w
    else:
        its = I.iter_items(w, c.node)
        if its is None:
            return c.unknown(may=False)
        if len(its) == 1:
            its = I.iter_items(its[0], c.node) or [its[0]]
        if len(its) == 1:
            pl = pr = its[0]
        else:
            pl, pr = its[0], its[1]
    if pl.k != 'num' or pr.k != 'num':
        return c.unknown(may=False)
    fp = fill.elem(()) if fill.elem else None

    def mk(n):
        return Arr(shape=(n.p,), nt=a.nt, elem=(lambda idx: fp) if fp is not None else None, fx=fill.fx.with_deps(n.fx.deps), lo=fill.lo, hi=fill.hi)
    return c.out(concat(I, [mk(pl), a, mk(pr)], 0, c.node))


@nps('tile')
def c_tile(c):
    I = c.I
    a = c.arr(0, 'A')
    r = c.arg(1, 'reps')
    reps = [r] if r.k == 'num' else I.iter_items(r, c.node)
    fx = a.fx.with_deps(I.fxof(r).deps)
    if a.shape is None or reps is None or any(x.k != 'num' for x in reps):
        return I.alloc(Arr(shape=None, nt=a.nt, fx=fx, lo=a.lo, hi=a.hi), c.node)
    n = max(len(reps), a.ndim)
    rp = [ONE] * (n - len(reps)) + [x.p for x in reps]
    sh = [ONE] * (n - a.ndim) + list(a.shape)
    off = n - a.ndim
    e = a.elem

    def elem(idx):
        s = []
        for k in range(off, n):
            if sh[k] is None:
                return None
            s.append(ZERO if sh[k] == ONE else (idx[k] if rp[k] == ONE else P.pmod(idx[k], sh[k])))
        return e(tuple(s))
    return c.out(Arr(shape=tuple(None if x is None or y is None else x * y for x, y in zip(sh, rp)), nt=a.nt, elem=memo(elem) if e else None, fx=fx, lo=a.lo, hi=a.hi))


@nps('repeat')
def c_repeat(c):
    I = c.I
    a = c.arr(0, 'a')
    r = c.arg(1, 'repeats')
    ax = c.arg(2, 'axis')
    fx = a.fx.with_deps(I.fxof(r).deps)
    if a.shape is None or r.k != 'num' or r.p is None:
        return I.alloc(Arr(shape=None if a.shape is None or ax is not None else (None,), nt=a.nt, fx=fx, lo=a.lo, hi=a.hi), c.node)
    if ax is None or ax.k == 'none':
        a = reshape_arr(I, a, (pc(-1),), c.node) if a.ndim != 1 else a
        k = 0
    else:
        k = ax.cint()
        if k is None:
            return c.unknown(may=False)
        k %= a.ndim
    e = a.elem
    return c.out(Arr(shape=tuple((d * r.p if d is not None else None) if j == k else d for j, d in enumerate(a.shape)), nt=a.nt,
                     elem=memo(lambda idx: e(tuple(P.pfdiv(i, r.p) if j == k else i for j, i in enumerate(idx)))) if e else None, fx=fx, lo=a.lo, hi=a.hi))


@nps('kron', 'outer')
def c_outer(c):
    a, b = c.arr(0), c.arr(1)
    fx = fx_mul(a.fx, b.fx, isz(a) or isz(b))
    if a.shape is None or b.shape is None or a.ndim != 1 or b.ndim != 1:
        return c.I.alloc(Arr(shape=None, nt=op_nt('Mult', a.nt, b.nt, True), fx=fx), c.node)
    ea, eb = a.elem, b.elem
    both = ea is not None and eb is not None
    if c.name.endswith('outer'):
        def elem(idx):
            x, y = ea((idx[0],)), eb((idx[1],))
            return None if x is None or y is None else x * y
        return c.out(Arr(shape=(a.shape[0], b.shape[0]), nt=op_nt('Mult', a.nt, b.nt, True), elem=memo(elem) if both else None, fx=fx))
    d = b.shape[0]

    def elem(idx):
        if d is None:
            return None
        x, y = ea((P.pfdiv(idx[0], d),)), eb((P.pmod(idx[0], d),))
        return None if x is None or y is None else x * y
    return c.out(Arr(shape=(None if a.shape[0] is None or d is None else a.shape[0] * d,), nt=op_nt('Mult', a.nt, b.nt, True), elem=memo(elem) if both else None, fx=fx))


@ext('scipy.linalg.hankel', 'scipy.linalg.toeplitz')
def c_hankel(c):
    a = c.arr(0, 'c')
    r = c.arg(1, 'r')
    b = None if r is None or r.k == 'none' else A(c.I, r, c.node)
    hank = c.name.endswith('hankel')
    if b is None:
        if hank:
            b = fresh(a, elem=lambda idx: ZERO, const=None, fx=NOFX, lo=Fraction(0), hi=Fraction(0))
        else:
            b = a
    fx = fx_lincomb([a.fx, b.fx], [isz(a), isz(b)])
    nt = join_rank([a.nt, b.nt])
    if a.shape is None or b.shape is None or a.ndim != 1 or b.ndim != 1:
        return c.I.alloc(Arr(shape=None, nt=nt, fx=fx), c.node)
    n, m = a.shape[0], b.shape[0]
    ea, eb = a.elem, b.elem

    def elem(idx):
        i, j = idx
        if hank:
            if n is None:
                return None
            cond = P.pcmp('<', i + j, n)
            x = ea((i + j,)) if cond.cval() != 0 else ZERO
            y = eb((i + j - n + 1,)) if cond.cval() != 1 else ZERO
        else:
            cond = P.pcmp('>=', i, j)
            x = ea((i - j,)) if cond.cval() != 0 else ZERO
            y = eb((j - i,)) if cond.cval() != 1 else ZERO
        return None if x is None or y is None else P.pite(cond, x, y)
    lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None
    hi = max(a.hi, b.hi) if None not in (a.hi, b.hi) else None
    return c.out(Arr(shape=(n, m), nt=nt, elem=memo(elem) if ea and eb else None, fx=fx, lo=lo, hi=hi))


# -- element-wise functions ----------------------------------------------------------------------------------------
def uf(f, mode, nt=None, lo=None, hi=None):
    return (f, mode, nt, lo, hi)


UF = {
    'abs': uf(P.pabs, 'same'), 'fabs': uf(P.pabs, 'same', 'float'), 'sqrt': uf(P.psqrt, 'half', 'float'),
    'exp': uf(lambda p: F('exp', p), 'X', 'float'), 'log': uf(lambda p: F('log', p), 'X', 'float'), 'log2': uf(lambda p: F('log2', p), 'X', 'float'),
    'log10': uf(lambda p: F('log10', p), 'X', 'float'), 'log1p': uf(None, 'X', 'float'), 'expm1': uf(None, 'X', 'float'),
    'sin': uf(lambda p: F('sin', p), 'X', 'float'), 'cos': uf(lambda p: F('cos', p), 'X', 'float'), 'tan': uf(lambda p: F('tan', p), 'X', 'float'),
    'sinc': uf(lambda p: F('sinc', p), 'X', 'float'), 'tanh': uf(None, 'X', 'float'), 'arctan': uf(None, 'X', 'float'), 'arcsin': uf(None, 'X', 'float'), 'arccos': uf(None, 'X', 'float'),
    'sinh': uf(None, 'X', 'float'), 'cosh': uf(None, 'X', 'float'),
    'sign': uf(lambda p: _sign(p), 'zero', None, -1, 1), 'floor': uf(P.pfloor, 'X', 'float'), 'ceil': uf(P.pceil, 'X', 'float'), 'trunc': uf(P.ptrunc, 'X', 'float'), 'fix': uf(P.ptrunc, 'X', 'float'),
    'rint': uf(P.pround, 'X', 'float'), 'isnan': uf(None, 'zero', 'bool', 0, 1), 'isfinite': uf(None, 'zero', 'bool', 0, 1), 'isinf': uf(None, 'zero', 'bool', 0, 1),
    'isreal': uf(None, 'zero', 'bool', 0, 1), 'iscomplex': uf(None, 'zero', 'bool', 0, 1), 'logical_not': uf(lambda p: P.pcmp('==', p, ZERO), 'zero', 'bool', 0, 1), 'signbit': uf(None, 'zero', 'bool', 0, 1),
    'angle': uf(None, 'zero', 'float'), 'unwrap': uf(None, 'X', 'float'), 'deg2rad': uf(lambda p: p * pc(math.pi / 180), 'L', 'float'), 'rad2deg': uf(lambda p: p * pc(180 / math.pi), 'L', 'float'),
    'square': uf(lambda p: p * p, 'sq'), 'negative': uf(lambda p: -p, 'L'), 'positive': uf(lambda p: p, 'L'), 'conj': uf(lambda p: p, 'L'), 'reciprocal': uf(P.pinv, 'recip', 'float'),
    'nan_to_num': uf(None, 'U'), 'invert': uf(None, 'X'), 'bitwise_not': uf(None, 'X'),
}


def _sign(p):
    s = P.sign(p)
    if s in ('+', '-', '0'):
        return pc({'+': 1, '-': -1, '0': 0}[s])
    return F('sign', p)


def ufunc1(c):
    I = c.I
    base = c.name.split('.')[-1]
    f, mode, nt, lo, hi = UF[base]
    v = c.arg(0, 'x', 'a')
    if v is None:
        I.fail('TypeError', c.node, '%s() missing argument' % base)
    if v.k in ('none', 'str', 'enum', 'func'):
        I.fail('TypeError', c.node, 'bad operand type for %s' % base)
    a = A(I, v, c.node)
    if base in ('isreal', 'iscomplex') and a.nt in ('int', 'float', 'bool') and a.elem is not None:
        f = (lambda p: ONE) if base == 'isreal' else (lambda p: ZERO)
    if mode == 'L':
        fx = a.fx
    elif mode == 'sq':
        fx = fx_pow(a.fx, Fraction(2))
    elif mode == 'recip':
        fx = fx_recip(a.fx)
    elif mode == 'U':
        fx = fx_unknown([a.fx])
    else:
        fx = fx_nonlin([a.fx], mode)
    onext = nt or a.nt
    if base == 'abs' and a.nt == 'complex':
        onext = 'float'
    if onext == 'float' and a.nt == 'complex':
        onext = 'float' if base == 'angle' else 'complex'
    if base == 'negative' and a.nt == 'bool':
        I.fail('TypeError', c.node, 'boolean negative')
    e = a.elem
    elem = memo(lambda idx: None if e(idx) is None else f(e(idx))) if f is not None and e is not None and a.nt != 'complex' else None
    if a.nt == 'complex' and e is not None and base in CPLX:
        elem = memo(lambda idx: CPLX[base](e(idx)))
    if base == 'abs' and a.lo is not None:
        lo, hi = (max(a.lo, -a.hi, 0), max(abs(a.lo), abs(a.hi)))
    if base in ('conj', 'positive'):
        lo, hi = a.lo, a.hi
    if base in ('floor', 'ceil', 'rint', 'trunc') and a.lo is not None:
        g = {'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc}[base]
        lo, hi = g(a.lo), g(a.hi)
    return c.out(Arr(shape=a.shape, nt=onext, elem=elem, fx=fx, lo=Fraction(lo) if lo is not None else None, hi=Fraction(hi) if hi is not None else None))


for _n in UF:
    CALLS['numpy.' + _n] = ufunc1


@nps('real', 'imag')
def c_real(c):
    v = c.arg(0)
    return attr(c.I, v, c.I.obj(v), c.name.split('.')[-1], c.node)


@nps('round')
def c_round(c):
    I = c.I
    a = c.arr(0, 'a')
    d = c.arg(1, 'decimals')
    fx = fx_nonlin([a.fx], 'X')
    e = a.elem
    ok = (d is None or d.cint() is not None and 0 <= d.cint() < 12) and e is not None and a.nt != 'complex'
    sc = 10 ** d.cint() if ok and d is not None else 1
    if d is not None:
        fx = fx.with_deps(I.fxof(d).deps)
    return c.out(Arr(shape=a.shape, nt=a.nt, elem=memo(lambda idx: None if e(idx) is None else P.pround(e(idx) * sc) * Fraction(1, sc)) if ok else None, fx=fx))


@ext('math.floor', 'math.ceil', 'math.trunc')
def c_mfloor(c):
    v = c.args[0]
    f = {'floor': P.pfloor, 'ceil': P.pceil, 'trunc': P.ptrunc}[c.name[5:]]
    if v.k != 'num':
        return V('num', nt='int', fx=fx_nonlin([c.I.fxof(v)], 'X'))
    return V('num', p=f(v.p) if v.p is not None else None, nt='int', fx=fx_nonlin([v.fx], 'X'))


@ext('math.sqrt', 'math.exp', 'math.log', 'math.log2', 'math.log10', 'math.sin', 'math.cos', 'math.tan', 'math.fabs')
def c_mfun(c):
    v = c.args[0]
    n = c.name[5:]
    if v.k in ('none', 'str', 'tuple'):
        c.I.fail('TypeError', c.node, 'must be real number')
    f, mode = {'sqrt': (P.psqrt, 'half'), 'fabs': (P.pabs, 'same')}.get(n, (lambda p: F(n, p), 'X'))
    return V('num', p=f(v.p) if v.k == 'num' and v.p is not None and len(c.args) == 1 else None, nt='float', fx=fx_nonlin([c.I.fxof(v)], mode))


BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'mod': 'Mod', 'floor_divide': 'FloorDiv', 'power': 'Pow', 'float_power': 'Pow', 'bitwise_xor': 'BitXor',
       'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'left_shift': 'LShift', 'right_shift': 'RShift', 'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=',
       'greater': '>', 'greater_equal': '>='}


def ufunc2(c):
    op = BIN[c.name.split('.')[-1]]
    if len(c.args) < 2:
        return c.unknown(may=False)
    for v in c.args[:2]:
        if v.k in ('none', 'str', 'func'):
            c.I.fail('TypeError', c.node, 'bad operand for %s' % c.name)
        if v.k == 'top' or isinstance(c.I.obj(v), (Inst, Dct)):
            return top(fx_unknown([c.I.fxof(x) for x in c.args]))
    x, y = A(c.I, c.args[0], c.node), A(c.I, c.args[1], c.node)
    return c.out(arr_op(c.I, op, x, y, c.node))


for _n in BIN:
    CALLS['numpy.' + _n] = ufunc2


@nps('logical_and', 'logical_or', 'logical_xor')
def c_logical(c):
    x, y = c.arr(0), c.arr(1)
    n = c.name.split('_')[-1]

    def f(p, q):
        p, q = P.pcmp('!=', p, ZERO), P.pcmp('!=', q, ZERO)
        return p * q if n == 'and' else (p + q - p * q if n == 'or' else p + q - 2 * p * q)
    return c.out(elementwise(c.I, f, [x, y], c.node, 'bool', fx_nonlin([x.fx, y.fx], 'zero'), Fraction(0), Fraction(1)))


@nps('maximum', 'minimum', 'fmax', 'fmin')
def c_maxi(c):
    x, y = c.arr(0), c.arr(1)
    f = P.pmax if 'max' in c.name else P.pmin
    lo = hi = None
    if None not in (x.lo, y.lo, x.hi, y.hi):
        g = max if 'max' in c.name else min
        lo, hi = g(x.lo, y.lo), g(x.hi, y.hi)
    fx = fx_nonlin([x.fx, y.fx], 'same')
    if isz(x):
        fx = fx_nonlin([y.fx], 'same').with_deps(x.fx.deps)
    elif isz(y):
        fx = fx_nonlin([x.fx], 'same').with_deps(y.fx.deps)
    return c.out(elementwise(c.I, f, [x, y], c.node, join_rank([x.nt, y.nt]), fx, lo, hi))


@nps('clip')
def c_clip(c):
    a = c.arr(0, 'a')
    lo, hi = c.arg(1, 'a_min', 'min'), c.arg(2, 'a_max', 'max')
    parts = [a]
    l = A(c.I, lo) if lo is not None and lo.k != 'none' else None
    h = A(c.I, hi) if hi is not None and hi.k != 'none' else None
    parts += [x for x in (l, h) if x is not None]

    def f(p, *r):
        r = list(r)
        if l is not None:
            p = P.pmax(p, r.pop(0))
        if h is not None:
            p = P.pmin(p, r.pop(0))
        return p
    return c.out(elementwise(c.I, f, parts, c.node, join_rank([x.nt for x in parts]), fx_nonlin([x.fx for x in parts], 'same'),
                             l.lo if l is not None else a.lo, h.hi if h is not None else a.hi))


@nps('isclose')
def c_isclose(c):
    x, y = c.arr(0), c.arr(1)
    return c.out(elementwise(c.I, lambda p, q: pc(int(p == q)) if p.is_const() and q.is_const() else F('isclose', p, q), [x, y], c.node, 'bool', fx_nonlin([x.fx, y.fx], 'X'), Fraction(0), Fraction(1)))


@nps('allclose', 'array_equal', 'array_equiv')
def c_allclose(c):
    fs = [c.I.fxof(v) for v in c.args[:2]]
    return V('num', nt='bool', fx=fx_nonlin(fs, 'X' if c.name.endswith('close') else 'zero'))


@nps('where')
def c_where(c):
    I = c.I
    m = c.arr(0, 'condition')
    if len(c.args) < 3:
        fx = fx_nonlin([m.fx], 'zero')
        if m.const is not None:
            return vtuple([wrap_const(I, z, c.node, fx) for z in np.nonzero(m.const)])
        n = I.newsym('cnt', 0)
        k = m.ndim or 1
        return vtuple([I.alloc(Arr(shape=(n,), nt='int', fx=fx), c.node) for _ in range(k)])
    x, y = c.arr(1, 'x'), c.arr(2, 'y')
    fx = fx_select(fx_lincomb([x.fx, y.fx], [isz(x), isz(y)]), fx_nonlin([m.fx], 'zero') if m.fx.lin or m.fx.deg else m.fx)
    lo = min(x.lo, y.lo) if None not in (x.lo, y.lo) else None
    hi = max(x.hi, y.hi) if None not in (x.hi, y.hi) else None
    return c.out(elementwise(I, lambda p, q, r: P.pite(P.pcmp('!=', p, ZERO) if m.nt != 'bool' else p, q, r), [m, x, y], c.node, join_rank([x.nt, y.nt]), fx, lo, hi))


@nps('nonzero', 'argwhere', 'flatnonzero')
def c_nonzero(c):
    m = c.arr(0)
    fx = fx_nonlin([m.fx], 'zero')
    n = c.I.newsym('cnt', 0)
    mk = lambda s: c.I.alloc(Arr(shape=s, nt='int', fx=fx), c.node)
    if c.name.endswith('flatnonzero'):
        return mk((n,))
    if c.name.endswith('argwhere'):
        return mk((n, pc(m.ndim) if m.ndim is not None else None))
    return vtuple([mk((n,)) for _ in range(m.ndim or 1)])


# -- reductions --------------------------------------------------------------------------------------------------------
def red_shape(I, a, ax, keep, node):
    """(output shape, reduced axes) or None"""
    if a.shape is None:
        return None
    n = len(a.shape)
    if ax is None or ax.k == 'none':
        axes = list(range(n))
    elif ax.k == 'num' and ax.cint() is not None:
        k = ax.cint()
        if not -n <= k < n:
            I.fail('ValueError', node, 'axis %d is out of bounds for array of dimension %d' % (k, n))
        axes = [k % n]
    elif ax.k == 'tuple' and all(x.cint() is not None for x in ax.x):
        axes = [x.cint() % n for x in ax.x]
    else:
        return None
    return tuple((ONE if keep else None) if k in axes else d for k, d in enumerate(a.shape) if keep or k not in axes), axes


def reduce(c, a, ax, keepv, comb, nt, fx, lo=None, hi=None, need_nonempty=False, cap=256):
    I = c.I
    keep = bool(keepv is not None and I.truth_known(keepv))
    rs = red_shape(I, a, ax, keep, c.node)
    if rs is None:
        if ax is None or ax.k == 'none':
            return V('num', p=None, nt=nt if nt in RANK else None, fx=fx, np_=True)
        return I.alloc(Arr(shape=None, nt=nt, fx=fx, lo=lo, hi=hi), c.node)
    shape, axes = rs
    e = a.elem
    ext_ = [a.shape[k].cint() if a.shape[k] is not None else None for k in axes]
    if need_nonempty and any(x == 0 for x in ext_):
        I.fail('ValueError', c.node, 'zero-size array to reduction operation which has no identity')
    elem = None
    if e is not None and comb is not None and all(x is not None for x in ext_) and int(np.prod(ext_)) <= cap:
        def elem(idx):
            full = list(idx)
            if not keep:
                full = []
                j = 0
                for k in range(len(a.shape)):
                    if k in axes:
                        full.append(None)
                    else:
                        full.append(idx[j])
                        j += 1
            ps = []
            for t in np.ndindex(*ext_):
                f = list(full)
                for k, q in zip(axes, t):
                    f[k] = pc(int(q))
                p = e(tuple(f))
                if p is None:
                    return None
                ps.append(p)
            return comb(ps)
        elem = memo(elem)
    elif e is not None and comb is not None and all(a.shape[k] is not None for k in axes):
        # a reduction over a symbolic extent of a constant element is still expressible
        def elem(idx):
            full = []
            j = 0
            syms = []
            for k in range(len(a.shape)):
                if k in axes:
                    s = Poly.sym('§r%d' % k)
                    syms.append(s)
                    full.append(s)
                    if keep:
                        j += 1
                else:
                    full.append(idx[j])
                    j += 1
            p = e(tuple(full))
            if p is None:
                return None
            at = p.all_atoms()
            if any(next(iter(s.atoms())) in at for s in syms):
                return None
            if comb is _sum:
                n = ONE
                for k in axes:
                    n = n * a.shape[k]
                return p * n
            if comb is _mean or comb in (_pmaxl, _pminl):
                return p
            return None
        elem = memo(elem)
    return out(I, Arr(shape=shape, nt=nt, elem=elem, fx=fx, lo=lo, hi=hi), c.node)


def _sum(ps):
    r = ZERO
    for p in ps:
        r = r + p
    return r


def _mean(ps):
    return _sum(ps) * pc(Fraction(1, len(ps))) if ps else Poly.const(math.nan)


def _var(ps):
    """variance: a polynomial for few elements, an interpreted operation otherwise"""
    if not ps:
        return None
    if len(ps) <= 6 or all(p.cval() is not None for p in ps):
        m = _mean(ps)
        return _mean([(p - m) * (p - m) for p in ps])
    return Poly.atom(('f', 'var') + tuple(ps))


def _prod(ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def _pmaxl(ps):
    return P.pmax(*ps)


def _pminl(ps):
    return P.pmin(*ps)


def _argmin(ps):
    if all(p.cval() is not None for p in ps):
        cs = [p.cval() for p in ps]
        return pc(cs.index(min(cs)))
    return F('argmin', *ps)


def _argmax(ps):
    if all(p.cval() is not None for p in ps):
        cs = [p.cval() for p in ps]
        return pc(cs.index(max(cs)))
    return F('argmax', *ps)


def _any(ps):
    r = ONE
    for p in ps:
        r = r * (ONE - P.pcmp('!=', p, ZERO))
    return ONE - r


def _all(ps):
    r = ONE
    for p in ps:
        r = r * P.pcmp('!=', p, ZERO)
    return r


def narrow_v(I, v, w, node):
    if w is None or NARROW[w] is None:
        return v
    o = I.obj(v)
    if isinstance(o, Arr):
        return out(I, narrow(o, w), node)
    if v.k == 'num' and v.p is not None and v.nt == 'int':
        lo, hi = NARROW[w]
        return V('num', p=P.pmod(v.p - pc(lo), pc(hi - lo)) + pc(lo), nt='int', fx=v.fx, np_=True)
    return v


def red(c):
    base = c.name.split('.')[-1]
    a = c.arr(0, 'a')
    ax = c.arg(1, 'axis')
    keep = c.kw.get('keepdims')
    if a.nt == 'object':
        c.I.fail('TypeError', c.node, '%s of None' % base)
    up = 'int' if a.nt == 'bool' else a.nt
    n = None
    if a.shape is not None:
        n = size_poly(a)
    if base == 'sum' or base == 'nansum':
        lo = hi = None
        if a.lo is not None and a.lo >= 0:
            lo = Fraction(0) if a.hi is not None else None
            hi = None
        fx = a.fx
        if isz(a):
            return reduce(c, a, ax, keep, _sum, up, fx, Fraction(0), Fraction(0))
        d = c.arg(2, 'dtype')
        if d is not None and d.k != 'none':
            nt = dtype_nt(c.I, d)
            return narrow_v(c.I, reduce(c, cast(a, nt) if nt in ('int', 'float') and a.nt in ('bool', 'int', 'float') else a, ax, keep, _sum, nt if a.nt != 'complex' else None, fx), dtype_w(d), c.node)
        return reduce(c, a, ax, keep, _sum, up, fx)
    if base == 'mean' or base == 'nanmean' or base == 'average':
        w = c.kw.get('weights')
        fx = a.fx
        if w is not None and w.k != 'none':
            return reduce(c, a, ax, keep, None, 'float', fx_unknown([a.fx, c.I.fxof(w)]))
        return reduce(c, a, ax, keep, _mean, 'complex' if a.nt == 'complex' else 'float', fx, a.lo, a.hi)
    if base == 'prod':
        return reduce(c, a, ax, keep, _prod, up, fx_unknown([a.fx]))
    if base in ('max', 'min', 'nanmax', 'nanmin'):
        return reduce(c, a, ax, keep, _pmaxl if 'max' in base else _pminl, a.nt, fx_nonlin([a.fx], 'same'), a.lo, a.hi, True)
    if base in ('argmin', 'argmax'):
        rs = red_shape(c.I, a, ax, False, c.node)
        hi = None
        if rs and len(rs[1]) == 1 and a.shape[rs[1][0]] is not None and a.shape[rs[1][0]].cint():
            hi = Fraction(a.shape[rs[1][0]].cint() - 1)
        return reduce(c, a, ax, keep, _argmin if base == 'argmin' else _argmax, 'int', fx_nonlin([a.fx], 'zero'), Fraction(0) if hi is not None else None, hi, True)
    if base == 'any':
        return reduce(c, a, ax, keep, _any, 'bool', fx_nonlin([a.fx], 'zero'), Fraction(0), Fraction(1), cap=24)
    if base == 'all':
        return reduce(c, a, ax, keep, _all, 'bool', fx_nonlin([a.fx], 'zero'), Fraction(0), Fraction(1), cap=24)
    ddof = c.arg(4, 'ddof')
    plain = not a.nt == 'complex' and (ddof is None or (ddof.k == 'num' and ddof.p is not None and ddof.p.cint() == 0))
    if ddof is not None and ddof.k == 'num' and ddof.p is not None and ddof.p.cint() == 1 and base in ('var', 'std') and a.nt != 'complex':
        v1 = lambda ps: _var(ps) * pc(Fraction(len(ps), len(ps) - 1)) if len(ps) > 1 else None
        return reduce(c, a, ax, keep, v1 if base == 'var' else (lambda ps: P.psqrt(v1(ps)) if len(ps) > 1 else None), 'float', fx_nonlin([fx_pow(a.fx, Fraction(2))], 'same') if base == 'var' else fx_nonlin([a.fx], 'same'))
    if base == 'std' and plain:
        return reduce(c, a, ax, keep, lambda ps: P.psqrt(_var(ps)) if ps else None, 'float', fx_nonlin([a.fx], 'same'))
    if base == 'var' and plain:
        return reduce(c, a, ax, keep, _var, 'float', fx_nonlin([fx_pow(a.fx, Fraction(2))], 'same'))
    if base in ('std', 'nanstd', 'ptp', 'median', 'nanmedian'):
        return reduce(c, a, ax, keep, None, 'float' if base != 'ptp' else a.nt, fx_nonlin([a.fx], 'same'))
    if base in ('var', 'nanvar'):
        return reduce(c, a, ax, keep, None, 'float', fx_nonlin([fx_pow(a.fx, Fraction(2))], 'same'))
    if base == 'count_nonzero':
        return reduce(c, a, ax, keep, lambda ps: _sum([P.pcmp('!=', p, ZERO) for p in ps]), 'int', fx_nonlin([a.fx], 'zero'))
    return c.unknown(may=False)


for _n in ('sum', 'mean', 'prod', 'max', 'min', 'argmin', 'argmax', 'any', 'all', 'std', 'var', 'ptp', 'median', 'count_nonzero', 'average', 'nansum', 'nanmean', 'nanmax', 'nanmin'):
    CALLS['numpy.' + _n] = red


@nps('percentile', 'quantile')
def c_pct(c):
    a = c.arr(0)
    ax = c.arg(2, 'axis')
    fx = fx_nonlin([a.fx], 'same').with_deps(c.I.fxof(c.args[1]).deps if len(c.args) > 1 else EMPTY)
    return reduce(c, a, ax, None, None, 'float', fx)


def split_mask(I, m):
    """case split over the contents of a short boolean mask"""
    if m.elem is None or m.shape is None or len(m.shape) != 1 or m.shape[0] is None:
        return None
    n = m.shape[0].cint()
    if n is None or n > 6 or n == 0:
        return None
    ps = [m.elem((pc(j),)) for j in range(n)]
    if any(p is None for p in ps):
        return None
    return np.array([bool(I.truth(num(p, 'bool', m.fx), None)) for p in ps])


ACC = {}


def prefix_elem(e, isint=True, off=0):
    """running sum of e over a 1-D index"""
    P.INT_SYMS.add('§k')
    P.BOUNDS[('s', '§k')] = 0
    probe = e((Poly.sym('§k'),))
    if probe is None:
        return None
    isint = isint or P.is_int(probe)
    key = probe
    if key not in ACC:
        ACC[key] = (len(ACC) + 1, e, isint)
    aid = ACC[key][0]
    if probe.cval() == 0:
        return lambda idx: ZERO

    def g(idx):
        k = idx[0].cint()
        if k is not None:
            if k < 0:
                return ZERO
            if k <= 40:
                r = ZERO
                for j in range(k + 1):
                    p = e((pc(j),))
                    if p is None:
                        return None
                    r = r + p
                return r
            if k <= MAXTAB and not stop:
                while len(cum) <= k:
                    p = e((pc(len(cum)),))
                    v = p.cval() if p is not None else None
                    if v is None or v != v:
                        stop.append(1)
                        break
                    cum.append((cum[-1] if cum else 0) + v)
                if k < len(cum):
                    return pc(cum[k])
        return Poly.atom(('ps', aid, idx[0], isint))
    cum, stop = [], []
    return memo(g)


@nps('cumsum')
def c_cumsum(c):
    I = c.I
    a = c.arr(0, 'a')
    ax = c.arg(1, 'axis')
    nt = dtype_nt(I, c.arg(2, 'dtype'), 'int' if a.nt == 'bool' else a.nt)
    if a.shape is None:
        return I.alloc(Arr(shape=None if ax is not None else (None,), nt=nt, fx=a.fx), c.node)
    if (ax is None or ax.k == 'none') and a.ndim != 1:
        a = reshape_arr(I, a, (pc(-1),), c.node)
    elem = None
    if a.ndim == 1 and a.elem is not None and a.nt in ('int', 'bool', 'float'):
        elem = prefix_elem(a.elem, a.nt != 'float')
    elif ax is not None and ax.cint() is not None and a.elem is not None:
        k = ax.cint() % a.ndim
        n = a.shape[k].cint() if a.shape[k] is not None else None
        e = a.elem
        if n is not None and n <= 64:
            def elem(idx):
                m = idx[k].cint()
                if m is None:
                    return None
                r = ZERO
                for j in range(m + 1):
                    p = e(idx[:k] + (pc(j),) + idx[k + 1:])
                    if p is None:
                        return None
                    r = r + p
                return r
            elem = memo(elem)
    return c.out(Arr(shape=a.shape, nt=nt, elem=elem, fx=a.fx))


@nps('cumprod')
def c_cumprod(c):
    a = c.arr(0, 'a')
    return c.out(Arr(shape=a.shape if a.ndim == 1 else None, nt=a.nt, fx=fx_unknown([a.fx])))


@nps('diff')
def c_diff(c):
    I = c.I
    a = c.arr(0, 'a')
    n = c.arg(1, 'n', default=num(1)).cint()
    axv = c.arg(2, 'axis', default=num(-1))
    pre, app = c.kw.get('prepend'), c.kw.get('append')
    k = axv.cint()
    if a.shape is None or n != 1 or k is None:
        return I.alloc(Arr(shape=None if a.shape is None else (None,) * len(a.shape), nt=a.nt, fx=a.fx), c.node)
    if len(a.shape) == 0:
        I.fail('ValueError', c.node, 'diff requires input that is at least one dimensional')
    k %= len(a.shape)
    if (pre is not None or app is not None) and len(a.shape) == 1:
        parts = []
        for w in (pre, 'x', app):
            if w is None:
                continue
            if w == 'x':
                parts.append(a)
            else:
                b = A(I, w)
                parts.append(reshape_arr(I, b, (ONE,), c.node) if b.shape == () else b)
        a = concat(I, parts, 0, c.node)
    e = a.elem
    shape = tuple(d if j != k else (None if d is None else (d - 1 if cmp0(d - 1, '>=') is True else P.pmax(d - 1, ZERO))) for j, d in enumerate(a.shape))

    def elem(idx):
        x = e(tuple(i + 1 if j == k else i for j, i in enumerate(idx)))
        y = e(idx)
        if x is None or y is None:
            return None
        if a.nt == 'bool':
            return P.pcmp('!=', x, y)
        return x - y
    lo = hi = None
    if a.lo is not None and a.hi is not None:
        lo, hi = a.lo - a.hi, a.hi - a.lo
    return c.out(Arr(shape=shape, nt=a.nt, elem=memo(elem) if e is not None and a.nt != 'complex' else None, fx=a.fx if a.nt != 'bool' else fx_nonlin([a.fx], 'zero'), lo=lo, hi=hi))


# -- products / filters ----------------------------------------------------------------------------------------------------
def matmul(I, va, vb, node):
    a, b = A(I, va, node), A(I, vb, node)
    w = result_w(a, b) if a.nt == b.nt == 'int' and not (a.const is not None and b.const is not None) else None
    if w is not None:
        return narrow_v(I, matmul0(I, a, b, node), w, node)
    return matmul0(I, a, b, node)


def matmul0(I, a, b, node):
    fx = fx_mul(a.fx, b.fx, isz(a) or isz(b))
    nt = op_nt('Mult', a.nt, b.nt, False) if a.nt in RANK and b.nt in RANK else None
    if a.const is not None and b.const is not None:
        try:
            return wrap_const(I, np.dot(a.const, b.const), node, fx)
        except ValueError as e:
            I.fail('ValueError', node, str(e))
    if a.shape is None or b.shape is None:
        return I.alloc(Arr(shape=None, nt=nt, fx=fx), node)
    if a.ndim == 0 or b.ndim == 0:
        return out(I, arr_op(I, 'Mult', a, b, node), node)
    ka, kb = a.shape[-1], b.shape[-2] if b.ndim >= 2 else b.shape[0]
    if ka is not None and kb is not None and cmp0(ka - kb, '!=') is True:
        I.fail('ValueError', node, 'shapes not aligned: inner extents %r and %r' % (ka, kb))
    if b.ndim > 2:
        return I.alloc(Arr(shape=None, nt=nt, fx=fx), node)
    shape = (a.shape[:-1]) + (b.shape[1:] if b.ndim == 2 else ())
    n = (ka.cint() if ka is not None else None)
    if n is None:
        n = kb.cint() if kb is not None else None
    ea, eb = a.elem, b.elem
    elem = None
    if n is not None and n <= 64 and ea is not None and eb is not None:
        na = a.ndim - 1

        def elem(idx):
            r = ZERO
            for k in range(n):
                y = eb((pc(k),) + tuple(idx[na:]))
                if y is not None and not y.m:
                    continue
                x = ea(tuple(idx[:na]) + (pc(k),))
                if x is None or y is None:
                    return None
                r = r + x * y
            return creduce(r) if nt == 'complex' else r
        elem = memo(elem)
    return out(I, Arr(shape=shape, nt=nt, elem=elem, fx=fx), node)


@nps('dot', 'matmul', 'inner', 'vdot')
def c_dot(c):
    if len(c.args) < 2:
        return c.unknown(may=False)
    for v in c.args[:2]:
        if v.k == 'none':
            c.I.fail('TypeError', c.node, 'unsupported operand None for dot')
    if c.name.endswith('inner') or c.name.endswith('vdot'):
        a, b = c.arr(0), c.arr(1)
        if a.ndim != 1 or b.ndim != 1:
            return c.I.alloc(Arr(shape=None, fx=fx_mul(a.fx, b.fx)), c.node)
    if c.name.endswith('vdot') and c.arr(0).nt == 'complex':
        return matmul(c.I, CALLS['numpy.conj'](Cx(c.I, 'numpy.conj', [c.args[0]], {}, c.node)), c.args[1], c.node)
    return matmul(c.I, c.args[0], c.args[1], c.node)


@nps('convolve', 'correlate')
def c_convolve(c):
    I = c.I
    a, b = c.arr(0, 'a', 'in1'), c.arr(1, 'v', 'in2')
    m = c.arg(2, 'mode')
    scipy, corr = c.orig.startswith('scipy'), c.name.endswith('correlate')
    if m is not None and m.k == 'str':
        mode = m.c
    elif m is None:
        mode = 'valid' if corr and not scipy else 'full'
    else:
        mode = None
    fx = fx_mul(a.fx, b.fx, isz(a) or isz(b))
    nt = op_nt('Mult', a.nt, b.nt, False) if a.nt in RANK and b.nt in RANK else None
    if a.shape is None or b.shape is None or a.ndim != 1 or b.ndim != 1 or a.shape[0] is None or b.shape[0] is None or mode not in ('full', 'same', 'valid'):
        return I.alloc(Arr(shape=a.shape and tuple(None for _ in a.shape), nt=nt, fx=fx), c.node)
    n, k = a.shape[0], b.shape[0]
    elem = None
    if mode == 'full':
        L, off = n + k - 1, ZERO
    elif mode == 'same':
        L = n if scipy else P.pmax(n, k)
        off = P.pfdiv((k if scipy else P.pmin(n, k)) - 1, pc(2))
    else:
        L, off = P.pmax(n, k) - P.pmin(n, k) + 1, P.pmin(n, k) - 1
    ea, eb_ = a.elem or (const_elem(a.const) if a.const is not None else None), b.elem or (const_elem(b.const) if b.const is not None else None)
    if ea and eb_ and not (corr and b.nt == 'complex'):
        if corr:
            e0 = eb_
            eb_ = lambda idx: e0((k - 1 - idx[0],))
        ns, es, el_, lb = (k.cint(), eb_, ea, n) if k.cint() is not None and (n.cint() is None or k.cint() <= n.cint()) else (n.cint(), ea, eb_, k)
        if ns is not None and ns <= 64:
            def elem(idx):
                r = ZERO
                for j in range(ns):
                    q = idx[0] + off - j
                    cond = P.pcmp('>=', q, ZERO) * P.pcmp('<', q, lb)
                    if cond.cval() == 0:
                        continue
                    x, y = es((pc(j),)), el_((q,))
                    if x is None or y is None:
                        return None
                    r = r + P.pite(cond, x * y, ZERO)
                return r
            elem = memo(elem)
    return c.out(Arr(shape=(L,), nt=nt, elem=elem, fx=fx))


def coef_polys(a, cap):
    """coefficients of a short vector of known length as summaries, or None"""
    if a.shape == ():
        n = None
        ids = [()]
    elif a.shape is not None and len(a.shape) == 1 and a.shape[0] is not None and a.shape[0].cint() is not None:
        n = a.shape[0].cint()
        if n == 0 or n > cap:
            return None
        ids = [(pc(j),) for j in range(n)]
    else:
        return None
    e = a.elem
    if e is None and a.const is not None:
        e = const_elem(a.const)
    if e is None or a.nt == 'complex':
        return None
    try:
        r = [e(i) for i in ids]
    except (TooBig, IndexError):
        return None
    return None if any(p is None for p in r) else r


@ext('scipy.signal.lfilter')
def c_lfilter(c):
    I = c.I
    b, a, x = c.arr(0, 'b'), c.arr(1, 'a'), c.arr(2, 'x')
    axv = c.arg(3, 'axis', default=num(-1))
    ziv = c.arg(4, 'zi')
    for v in (c.arg(0, 'b'), c.arg(1, 'a'), c.arg(2, 'x')):
        if v.k == 'none':
            I.fail('TypeError', c.node, 'lfilter argument is None')
    haszi = ziv is not None and ziv.k != 'none'
    zi = A(I, ziv, c.node) if haszi else None
    fx = fx_mul(fx_div(b.fx, a.fx), x.fx, isz(b) or isz(x))
    # recursive coefficients that follow the signal are not linear in it
    if haszi:
        fx = fx_lincomb([fx, fx_select(zi.fx, NOFX)], [isz(x) or isz(b), isz(zi)])
    nt = join_rank([n for n in (b.nt, a.nt, x.nt, 'float') if n]) if all(n in RANK for n in (b.nt, a.nt, x.nt)) else None
    if nt in ('int', 'bool'):
        nt = 'float'
    lb = b.shape[0] if b.shape is not None and b.ndim == 1 else (ONE if b.shape == () else None)
    la = a.shape[0] if a.shape is not None and a.ndim == 1 else (ONE if a.shape == () else None)
    order = None
    if lb is not None and la is not None:
        order = P.pmax(lb, la) - 1
    if haszi and zi.shape is not None and x.ndim == 1 and order is not None:
        d = zi.shape[0] if zi.ndim == 1 else None
        if zi.ndim != 1 and zi.ndim is not None:
            I.fail('ValueError', c.node, 'Unexpected shape for zi')
        if d is not None and cmp0(d - order, '!=') is True:
            I.fail('ValueError', c.node, 'Unexpected shape for zi: expected %r, found %r' % (order, d))
    if not haszi and x.nt in ('bool', 'int', 'float') and la is not None and la.cint() and la.cint() > 1:
        cs = [constify(z) for z in (b, a, x)]
        if all(z is not None for z in cs) and cs[2].ndim == 1:
            with np.errstate(all='ignore'):
                from scipy.signal import lfilter
                r = lfilter(cs[0], cs[1], cs[2].astype(float))
            return out(I, from_const(r).rep(fx=fx), c.node)
    if x.shape == ():
        I.fail('ValueError', c.node, 'object of too small depth for desired array')
    elem = zfe = None
    ax = axv.cint() if axv.k == 'num' else None
    bc, ac = coef_polys(b, 40), coef_polys(a, 40)
    if x.shape is not None and ax is not None and bc and ac and x.elem is not None and nt != 'complex' and (not haszi or (zi.ndim == 1 and len(x.shape) == 1)):
        while len(ac) > 1 and ac[-1].cval() == 0:
            ac.pop()
        if ac[0].cval() != 1:
            try:
                inv = P.pinv(ac[0])
                bc, ac = [t * inv for t in bc], [ONE] + [t * inv for t in ac[1:]]
            except (ZeroDivisionError, TooBig):
                bc = None
    if bc and ac and x.shape is not None and ax is not None and x.elem is not None and nt != 'complex' and (not haszi or (zi.ndim == 1 and len(x.shape) == 1)):
        k = ax % len(x.shape)
        e = x.elem
        n = x.shape[k]
        nc = n.cint() if n is not None else None
        ordc = max(int(lb.cint()), int(la.cint())) - 1 if lb is not None and la is not None and lb.cint() is not None and la.cint() is not None else None
        zie = (zi.elem if not isz(zi) else (lambda idx: ZERO)) if haszi else None

        def zval(q):
            """initial condition entering output q (0 beyond the memory)"""
            if not haszi:
                return ZERO
            if zie is None or zi.shape[0] is None:
                return None
            if ordc is not None and q.cint() is not None:
                return zie((q,)) if q.cint() < ordc else ZERO
            cond = P.pcmp('<', q, zi.shape[0])
            if cond.cval() == 0:
                return ZERO
            z = zie((q,))
            return None if z is None else P.pite(cond, z, ZERO)

        def fir(idx):
            r = ZERO
            for j, w in enumerate(bc):
                if w.cval() == 0:
                    continue
                q = idx[k] - j
                cond = P.pcmp('>=', q, ZERO)
                if cond.cval() == 0:
                    continue
                p = e(idx[:k] + (q,) + idx[k + 1:])
                if p is None:
                    return None
                r = r + P.pite(cond, p * w, ZERO)
            z = zval(idx[k])
            return None if z is None else r + z

        def firz(idx):
            m = idx[0].cint()
            if m is None or n is None:
                return None
            r = ZERO
            for j in range(m + 1, len(bc)):
                q = n - 1 - (j - 1 - m)
                cond = P.pcmp('>=', q, ZERO)
                if bc[j].cval() == 0 or cond.cval() == 0:
                    continue
                p = e((q,))
                if p is None:
                    return None
                r = r + P.pite(cond, p * bc[j], ZERO)
            z = zval(n + m)
            return None if z is None else r + z
        if len(ac) == 1:
            elem = memo(fir)
            zfe = memo(firz)
        elif [t.cval() for t in ac] == [1, -1] and len(x.shape) == 1:
            elem = prefix_elem(memo(fir), x.nt in ('int', 'bool') and all(w.cval() is not None and w.cval().denominator == 1 for w in bc))
        if len(ac) > 1 and nc is not None and nc <= (24 if any(constify(z) is None for z in (b, a, x) + ((zi,) if haszi else ())) else 2400) and ordc is not None and (elem is None or haszi):
            runs = {}

            def recur(rest):
                if rest in runs:
                    return runs[rest]
                z = [zie((pc(j),)) if haszi and zie is not None else ZERO for j in range(ordc)] + [ZERO]
                B_ = bc + [ZERO] * (ordc + 1 - len(bc))
                A_ = ac + [ZERO] * (ordc + 1 - len(ac))
                ys = []
                try:
                    for t in range(nc):
                        p = e(rest[:k] + (pc(t),) + rest[k:])
                        if p is None or z[0] is None:
                            runs[rest] = None
                            return None
                        y = B_[0] * p + z[0]
                        ys.append(y)
                        z = [B_[j + 1] * p + z[j + 1] - A_[j + 1] * y for j in range(ordc)] + [ZERO]
                        if sum(len(q.m) for q in z) > 4000:
                            runs[rest] = None
                            return None
                except (TooBig, TypeError):
                    runs[rest] = None
                    return None
                runs[rest] = (ys, z[:ordc])
                return runs[rest]

            def elem(idx):
                t = idx[k].cint()
                r = recur(tuple(idx[:k]) + tuple(idx[k + 1:])) if t is not None else None
                return r[0][t] if r is not None and 0 <= t < nc else None

            def zfe(idx):
                m = idx[0].cint()
                r = recur(()) if m is not None else None
                return r[1][m] if r is not None and 0 <= m < ordc else None
    r = Arr(shape=x.shape, nt=nt, elem=elem, fx=fx)
    y = out(I, r, c.node)
    if not haszi:
        return y
    zf = out(I, Arr(shape=(order,) if x.ndim == 1 else None, nt=nt, elem=zfe, fx=fx.with_deps(zi.fx.deps)), c.node)
    return vtuple([y, zf])


def small_shape(sh, cap):
    return sh is not None and all(d is not None and d.cint() is not None for d in sh) and math.prod(d.cint() for d in sh) <= cap


def poly_bounds(p):
    """(lower, upper) of a summary, from the bounds of its atoms"""
    c = p.cval()
    if c is not None:
        return c, c
    at = list(p.m.items())
    if len(at) == 1 and at[0][1] == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1:
        a = at[0][0][0][0]
        lo, hi = P._lower(a), P._upper(a)
        if a[0] == 'f' and a[1] == 'mod' and a[3].cint() is not None and P.is_int(a[2]):
            hi = a[3].cint() - 1
        return lo, hi
    return None, None


@nps('unique')
def c_unique(c):
    I = c.I
    a = c.arr(0, 'ar')
    fx = fx_nonlin([a.fx], 'same')
    n = I.newsym('uniq', 1)
    if a.lo is not None and a.hi is not None and a.nt in ('int', 'bool') and a.lo == a.hi:
        n = ONE
    ax = c.arg(None, 'axis')
    rest = ()
    if a.nt in ('int', 'bool') and a.lo is not None and a.hi is not None and 0 < a.hi - a.lo <= 3 and not c.kw and len(c.args) == 1 and I.in_loop == 0 and a.elem is not None and small_shape(a.shape, 16):
        # a small set of integer values: which of them occur
        xs = tuple(a.elem(tuple(pc(j) for j in ix)) for ix in np.ndindex(*[d.cint() for d in a.shape]))
        if xs and all(x is not None for x in xs):
            lo, hi = int(a.lo), int(a.hi)
            xs = tuple(dict.fromkeys(xs))
            ub = [poly_bounds(x) for x in xs]
            lo = max(lo, min(lo if u[0] is None else math.ceil(u[0]) for u in ub))
            hi = min(hi, max(hi if u[1] is None else math.floor(u[1]) for u in ub))
            kk = ('uniqv', xs, lo, hi)
            k = I.facts.get(kk)
            if k is None:
                sub = sorted((s for s in range(1, 1 << (hi - lo + 1)) if bin(s).count('1') <= len(xs)), reverse=True)
                k = sub[0] if len(sub) == 1 else sub[I.choose(len(sub), info=('values', a.fx.deps))]
                I.facts[kk] = k
            return I.alloc(from_const(np.array([v for v in range(lo, hi + 1) if k >> (v - lo) & 1])).rep(fx=fx), c.node)
    if a.nt in ('int', 'bool') and a.lo == 0 and a.hi == 1 and not c.kw and len(c.args) == 1 and I.in_loop == 0 and a.shape is not None:
        # values of a binary array: only zeros, only ones, or both
        key = None
        if a.elem is not None:
            key = a.elem(tuple(Poly.sym('?%d' % i) for i in range(len(a.shape))))
        k = I.facts.get(('uniq', key, a.shape)) if key is not None else None
        if k is None:
            k = I.choose(3, info=('values', a.fx.deps))
            if key is not None:
                I.facts[('uniq', key, a.shape)] = k
        return I.alloc(from_const(np.array([[0, 1], [0], [1]][k])).rep(fx=fx), c.node)
    if ax is not None and ax.k != 'none':
        rest = a.shape[1:] if a.shape is not None and ax.cint() == 0 else None
    u = I.alloc(Arr(shape=(n,) + rest if rest is not None else None, nt=a.nt, fx=fx, lo=a.lo, hi=a.hi), c.node)
    extra = [k for k in ('return_index', 'return_inverse', 'return_counts') if k in c.kw and I.truth_known(c.kw[k])]
    if len(c.args) > 1 and I.truth_known(c.args[1]):
        extra.append('return_index')
    if extra:
        return vtuple([u] + [I.alloc(Arr(shape=(n,) if k != 'return_inverse' else None, nt='int', fx=fx_nonlin([a.fx], 'zero')), c.node) for k in extra])
    return u


@nps('sort', 'argsort')
def c_sort(c):
    a = c.arr(0)
    s = c.name.endswith('argsort')
    return c.out(fresh(a, elem=None, const=None, nt='int' if s else a.nt, fx=fx_nonlin([a.fx], 'zero' if s else 'same'), lo=None if s else a.lo, hi=None if s else a.hi))


@nps('take')
def c_take(c):
    v, ix = c.arg(0), c.arg(1, 'indices')
    ax = c.arg(2, 'axis')
    a = c.arr(0)
    if (ax is None or ax.k == 'none') and a.ndim == 1 or ax is not None and ax.cint() == 0:
        if isinstance(c.I.obj(v), Arr):
            r = getitem(c.I, v, ix, c.node)
            return r
        tmp = c.I.alloc(fresh(a), c.node)
        return getitem(c.I, tmp, ix, c.node)
    if ax is not None and ax.cint() is not None and a.shape is not None and isinstance(c.I.obj(v), Arr):
        k = ax.cint() % len(a.shape)
        full = V('slice', x=(NONE, NONE, NONE))
        return getitem(c.I, v, vtuple([full] * k + [ix]), c.node)
    return c.I.alloc(Arr(shape=None, nt=a.nt, fx=fx_select(a.fx, c.I.fxof(ix))), c.node)


def gauss(m, rhs):
    """exact solution columns of m x = rhs, or None when singular"""
    n = len(m)
    a = [list(r) + list(q) for r, q in zip(m, rhs)]
    for i in range(n):
        p = next((r for r in range(i, n) if a[r][i] != 0), None)
        if p is None:
            return None
        a[i], a[p] = a[p], a[i]
        a[i] = [v / a[i][i] for v in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]
                a[r] = [u - f * v for u, v in zip(a[r], a[i])]
    return [r[n:] for r in a]


def linear(kind, r, q, i, j):
    """entry of an inverse, pseudo-inverse (full rank) or solution, as a function of the entries of an r by q matrix (and right-hand side)"""
    def fn(*v):
        v = [Fraction(t) if not isinstance(t, float) or math.isfinite(t) else t for t in v]
        m = [v[k * q:(k + 1) * q] for k in range(r)]
        if kind == 'solve':
            s = gauss(m, [[t] for t in v[r * q:]])
            return float('nan') if s is None else s[i][0]
        t = [list(x) for x in zip(*m)]
        eye = lambda n: [[Fraction(int(x == y)) for y in range(n)] for x in range(n)]
        mul = lambda x, y: [[sum(p * w for p, w in zip(row, col)) for col in zip(*y)] for row in x]
        if kind == 'inv':
            s = gauss(m, eye(r))
        elif r >= q:
            s = gauss(mul(t, m), eye(q))
            s = s and mul(s, t)
        else:
            s = gauss(mul(m, t), eye(r))
            s = s and mul(t, s)
        return float('nan') if s is None else s[i][j]
    return fn


def entries(a, lim=64):
    """all entries of an array of known shape, or None"""
    if a.shape is None or a.elem is None or a.nt == 'complex' or any(d is None or d.cint() is None for d in a.shape):
        return None
    sh = [d.cint() for d in a.shape]
    if int(np.prod(sh)) > lim:
        return None
    es = [a.elem(tuple(pc(int(t)) for t in ix)) for ix in np.ndindex(*sh)]
    return None if any(e is None for e in es) else es


def linear_elem(kind, a, rhs=()):
    from . import eqv
    es = entries(a)
    if es is None or len(a.shape) != 2:
        return None
    r, q = a.shape[0].cint(), a.shape[1].cint()

    def elem(idx):
        i, j = idx[0].cint(), idx[1].cint() if len(idx) > 1 else 0
        if i is None or j is None:
            return None
        return eqv.spec('%s %d %d %d %d' % (kind, r, q, i, j), linear(kind, r, q, i, j), *(es + list(rhs)))
    return memo(elem)


@nps('linalg.inv', 'linalg.pinv')
def c_inv(c):
    a = c.arr(0)
    sh = a.shape[::-1] if a.shape is not None and len(a.shape) == 2 else None
    if sh is not None and c.name.endswith('.inv') and sh[0] is not None and sh[1] is not None and cmp0(sh[0] - sh[1], '!=') is True:
        c.I.fail('LinAlgError', c.node, 'last 2 dimensions of the array must be square')
    fx = fx_recip(a.fx)
    el = linear_elem('pinv' if c.name.endswith('pinv') else 'inv', a) if len(c.args) == 1 and not c.kw else None
    return c.out(Arr(shape=sh, elem=el, nt='float' if a.nt in ('int', 'float', 'bool') else a.nt, fx=Fx(fx.deps, {s: 'U' if k == 'U' else 'N' for s, k in fx.lin.items()}, fx.deg)))


@nps('linalg.solve')
def c_solve(c):
    a, b = c.arr(0), c.arr(1)
    fx = fx_mul(fx_recip(a.fx), b.fx)
    rhs = entries(b) if b.shape is not None and len(b.shape) == 1 else None
    return c.out(Arr(shape=b.shape, nt='float', elem=linear_elem('solve', a, rhs) if rhs else None, fx=Fx(fx.deps, fx.lin, fx.deg)))


def solution(I, kind, a, b, params, node):
    """name of the solution vector of a least-squares problem; the problem itself is recorded as an event"""
    k = sum(1 for e in I.log if e[0] == 'solve')
    I.emit('solve', kind, a, b, params, I.where(node))
    return 'ls%d' % k


@nps('linalg.lstsq')
def c_lstsq(c):
    a, b = c.arr(0), c.arr(1)
    fx = fx_mul(fx_recip(a.fx), b.fx)
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == 2:
        d0, e0 = a.shape[0], b.shape[0] if b.shape else None
        if d0 is not None and e0 is not None and cmp0(d0 - e0, '!=') is True:
            c.I.fail('LinAlgError', c.node, 'Incompatible dimensions')
        sh = (a.shape[1],) + b.shape[1:]
    rc = c.arg(2, 'rcond')
    key = solution(c.I, 'ols', a, b, {'rcond': rc} if rc is not None and rc.k != 'none' else {}, c.node)
    r = c.out(Arr(shape=sh, nt='float', fx=fx, elem=(lambda idx: Poly.atom(('e', key, idx[0]))) if sh is not None and len(sh) == 1 else None))
    return vtuple([r, c.I.alloc(Arr(shape=(None,), nt='float', fx=fx_unknown([a.fx, b.fx]), elem=lambda idx: Poly.atom(('e', key + '.res', idx[0]))), c.node), V('num', p=Poly.atom(('e', key + '.rank', pc(0))), nt='int', fx=fx_unknown([a.fx]), np_=True), c.I.alloc(Arr(shape=(None,), nt='float', fx=fx_unknown([a.fx]), elem=lambda idx: Poly.atom(('e', key + '.sv', idx[0]))), c.node)])


@nps('linalg.norm')
def c_norm(c):
    a = c.arr(0)
    o, ax = c.arg(1, 'ord'), c.arg(2, 'axis')
    if a.elem is not None and (o is None or o.k == 'none') and a.shape is not None and a.nt in RANK:
        e = a.elem
        sq = (lambda idx: None if e(idx) is None else CPLX['abs'](e(idx)) * CPLX['abs'](e(idx))) if a.nt == 'complex' else (lambda idx: None if e(idx) is None else e(idx) * e(idx))
        b = a.rep(elem=memo(sq), nt='float', const=None, lo=None, hi=None)
        return reduce(c, b, ax, c.kw.get('keepdims'), lambda ps: P.psqrt(_sum(ps)), 'float', fx_nonlin([a.fx], 'same'))
    return reduce(c, a, c.arg(2, 'axis'), c.kw.get('keepdims'), None, 'float', fx_nonlin([a.fx], 'same'))


@nps('histogram')
def c_hist(c):
    a = c.arr(0, 'a')
    I = c.I
    fs = fx_unknown([I.fxof(v) for v in c.allargs()])
    bins = c.arg(1, 'bins', default=num(10))
    n = bins.p if bins.k == 'num' else None
    ba = I.getarr(bins)
    if ba is not None and ba.shape is not None and len(ba.shape) == 1 and ba.shape[0] is not None:
        n = ba.shape[0] - 1
    rg = c.arg(2, 'range')
    helem = None
    if n is not None and n.cint() is not None and ba is None and rg is not None and not (set(c.kw) - {'bins', 'range', 'a'}) and len(c.args) <= 3 and a.elem is not None and a.shape is not None:
        lim = I.iter_items(rg, c.node, limit=4) if rg.k != 'none' else None
        cnt = [d.cint() if d is not None else None for d in a.shape]
        if lim is not None and len(lim) == 2 and all(x.k == 'num' and x.p is not None for x in lim) and all(x is not None for x in cnt) and int(np.prod(cnt)) <= 64:
            l0, h0, nb = lim[0].p, lim[1].p, n.cint()

            def helem(idx):
                q = idx[0].cint()
                if q is None:
                    return None
                lo_, hi_ = l0 + (h0 - l0) * pc(Fraction(q, nb)), l0 + (h0 - l0) * pc(Fraction(q + 1, nb))
                r = ZERO
                for t in np.ndindex(*cnt):
                    x = a.elem(tuple(pc(int(j)) for j in t))
                    if x is None:
                        return None
                    r = r + P.pcmp('>=', x, lo_) * P.pcmp('<' if q < nb - 1 else '<=', x, hi_)
                return r
            helem = memo(helem)
    return vtuple([I.alloc(Arr(shape=(n,), nt='int' if helem else None, fx=fs, elem=helem), c.node), I.alloc(Arr(shape=(n + 1 if n is not None else None,), nt='float', fx=fs), c.node)])


@nps('shape')
def c_shape(c):
    v = c.args[0]
    a = c.arr(0)
    if a.shape is None:
        return top(fx_shape([a.fx]))
    return vtuple([V('num', p=d, nt='int', fx=fx_shape([a.fx])) for d in a.shape])


@nps('size', 'ndim')
def c_size(c):
    a = c.arr(0)
    if c.name.endswith('ndim'):
        return V('num', p=pc(a.ndim) if a.ndim is not None else None, nt='int', fx=fx_shape([a.fx]))
    if len(c.args) > 1 and c.args[1].cint() is not None and a.shape is not None:
        return V('num', p=a.shape[c.args[1].cint()], nt='int', fx=fx_shape([a.fx]))
    return V('num', p=size_poly(a), nt='int', fx=fx_shape([a.fx]))


@nps('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'int_', 'intp', 'float64', 'float32', 'float16', 'bool_', 'complex128', 'complex64')
def c_npcast(c):
    nt = dtype_nt(c.I, V('ext', c=c.name))
    a = narrow(cast(c.arr(0), nt), dtype_w(V('ext', c=c.name)))
    if a.shape == ():
        return V('num', p=a.elem(()) if a.elem else None, nt=nt, fx=a.fx, np_=True)
    return c.out(fresh(a))


@nps('isscalar')
def c_isscalar(c):
    v = c.args[0]
    if v.k in ('num', 'str'):
        return vbool(True)
    if v.k in ('ref', 'tuple', 'none'):
        return vbool(False)
    return V('num', nt='bool')


@nps('iscomplexobj', 'isrealobj')
def c_iscx(c):
    a = c.arr(0)
    if a.nt in RANK:
        return vbool((a.nt == 'complex') == c.name.endswith('iscomplexobj'))
    return V('num', nt='bool')


@nps('vectorize', 'frompyfunc')
def c_vectorize(c):
    return V('partial', x=(V('ext', c='§vectorized'), [c.args[0]], {}))


@ext('§vectorized', 'numpy.apply_along_axis')
def c_vec(c):
    return top(fx_unknown([c.I.fxof(v) for v in c.args]))


@nps('polyval')
def c_polyval(c):
    return c.unknown(may=False)


@nps('meshgrid')
def c_mesh(c):
    I = c.I
    return I.alloc(Lst([I.alloc(Arr(shape=None, nt=A(I, v).nt, fx=A(I, v).fx), c.node) for v in c.args]), c.node)


@nps('errstate')
def c_errstate(c):
    return top()


@nps('ix_', 'indices', 'unravel_index', 'ravel_multi_index')
def c_ix(c):
    return c.unknown(may=False)


@nps('split', 'array_split', 'hsplit', 'vsplit')
def c_split(c):
    I = c.I
    v, a = c.arg(0), c.arr(0)
    k = c.arg(1).cint() if c.arg(1) is not None and c.arg(1).k == 'num' else None
    ax = c.arg(2, 'axis')
    axis = 0 if ax is None else ax.cint()
    bufs = view_bufs(I, v, a, False)
    if k is not None and a.shape is not None and axis is not None and a.shape[axis] is not None and k <= UNR:
        n = P.pdiv(a.shape[axis], pc(k))
        if P.is_int(n):
            outl = []
            for j in range(k):
                e = a.elem
                off = n * j

                def elem(idx, off=off, e=e):
                    return e(tuple(i + off if q == axis else i for q, i in enumerate(idx)))
                outl.append(I.alloc(Arr(shape=tuple(n if q == axis else d for q, d in enumerate(a.shape)), nt=a.nt, elem=memo(elem) if e else None, fx=a.fx, bufs=dict(bufs), contig=False, lo=a.lo, hi=a.hi), c.node))
            return I.alloc(Lst(outl), c.node)
    return I.alloc(Lst(None, I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs=bufs, contig=False), c.node)), c.node)


UNR = 72


def unr():
    """rounds of a zip or enumerate that are followed one by one"""
    from . import interp
    return UNR if interp.UNROLL <= 160 else interp.UNROLL


def sci_other(c, d):
    I = c.I
    fx = fx_unknown([I.fxof(v) for v in c.allargs()])
    base = d.split('.')[-1]
    mk = lambda shape=None, nt='float': I.alloc(Arr(shape=shape, nt=nt, fx=fx), c.node)
    if base in ('bilinear',):
        return vtuple([mk((None,)), mk((None,))])
    if base in ('freqs', 'freqz'):
        return vtuple([mk((None,)), mk((None,), 'complex')])
    if base == 'welch':
        k = sum(1 for e in I.log if e[0] == 'welch')
        x = A(I, c.args[0]) if c.args else None
        I.emit('welch', x, {**{'arg:%d' % j: v for j, v in enumerate(c.args)}, **c.kw}, dict(I.heap), I.where(c.node))
        if x is not None:
            e = lambda w: (lambda idx: Poly.atom(('e', 'welch%d.%s' % (k, w)) + tuple(idx)))
            return vtuple([I.alloc(Arr(shape=(None,), nt='float', fx=fx, elem=e('f')), c.node), I.alloc(Arr(shape=(None,), nt='float', fx=fx, elem=e('p')), c.node)])
        return vtuple([mk((None,)), mk(None)])
    if base == 'get_window':
        n = c.arg(1, 'Nx')
        w = c.arg(0, 'window')
        key = 'window:%s:%s' % (w.c, n.p) if w is not None and w.k == 'str' and w.c is not None and n is not None and n.k == 'num' and n.p is not None and len(c.args) + len(c.kw) <= 2 else None
        return I.alloc(Arr(shape=(n.p if n is not None and n.k == 'num' else None,), nt='float', fx=fx, elem=(lambda idx: Poly.atom(('e', key, idx[0]))) if key else None), c.node)
    if base in ('lfilter_zi', 'lfiltic'):
        return mk((None,))
    if base[:1].isupper() or base in ('interp1d',):
        attrs = {'__ext__': vstr(d)}
        for k, v in c.kw.items():
            attrs['kw:' + k] = v
        for k, v in enumerate(c.args):
            attrs['arg:%d' % k] = v
        I.emit('extobj', d, dict(c.kw), I.where(c.node))
        return I.alloc(Inst(None, attrs, fx=fx, open_=True), c.node)
    return c.unknown(may=False)


# -- builtins -----------------------------------------------------------------------------------------------------------------
def b(*names):
    return ext(*['builtins.' + n for n in names])


@b('len')
def b_len(c):
    I = c.I
    v = c.args[0]
    o = I.obj(v)
    fx = fx_shape([I.fxof(v)])
    if isinstance(o, Arr):
        if o.shape == ():
            I.fail('TypeError', c.node, 'len() of unsized object')
        return V('num', p=o.shape[0] if o.shape else None, nt='int', fx=fx)
    if v.k == 'tuple' and v.x is not None:
        return num(len(v.x), 'int', fx)
    if v.k == 'str':
        return num(len(v.c), 'int', fx) if v.c is not None else V('num', nt='int', fx=fx)
    if isinstance(o, (Lst, Dct)):
        if isinstance(o, Lst) and o.kind == 'set':
            return V('num', nt='int', fx=fx)
        if o.items is not None:
            return num(len(o.items), 'int', fx)
        n = getattr(o, 'n', None)
        return V('num', p=n, nt='int', fx=fx)
    if v.k == 'range':
        return V('num', p=I.range_len(v), nt='int', fx=fx)
    if v.k == 'cls' and v.c.enum:
        return num(len(v.c.members))
    if isinstance(o, Inst) and o.cls is not None:
        r = o.cls.lookup('__len__')
        if r is not None:
            return I.call(V('bound', c=r[0].c, x=v), [], {}, c.node)
    if v.k in ('num', 'none', 'func', 'enum'):
        I.fail('TypeError', c.node, 'object of type %s has no len()' % v.k)
    return V('num', nt='int', fx=fx)


@b('range')
def b_range(c):
    a = c.args
    for x in a:
        if x.k == 'num' and x.nt == 'float':
            c.I.fail('TypeError', c.node, "'float' object cannot be interpreted as an integer")
        if x.k in ('none', 'str'):
            c.I.fail('TypeError', c.node, "object cannot be interpreted as an integer")
        o = c.I.obj(x)
        if isinstance(o, Arr) and o.shape is not None and len(o.shape) >= 1:
            s = size_poly(o)
            if s is not None and cmp0(s - 1, '!=') is True:
                c.I.fail('TypeError', c.node, 'only integer scalar arrays can be converted to a scalar index')
    n = [x if x.k == 'num' else V('num', nt='int', fx=c.I.fxof(x)) for x in a]
    z, o = num(0), num(1)
    lo, hi, st = (z, n[0], o) if len(n) == 1 else (n[0], n[1], n[2] if len(n) > 2 else o)
    return V('range', x=(lo, hi, st), fx=fx_shape([x.fx for x in n]))


@b('int')
def b_int(c):
    I = c.I
    if not c.args:
        return num(0)
    v = c.args[0]
    if v.k == 'num':
        return V('num', p=P.ptrunc(v.p) if v.p is not None else None, nt='int', fx=v.fx if v.nt in ('int', 'bool') else fx_nonlin([v.fx], 'X'))
    a = I.getarr(v)
    if a is not None:
        s = size_poly(a)
        if s is not None and cmp0(s - 1, '!=') is True:
            I.fail('TypeError', c.node, 'only length-1 arrays can be converted to Python scalars')
        p = a.elem(tuple(ZERO for _ in a.shape)) if a.elem is not None and a.shape is not None else None
        return V('num', p=P.ptrunc(p) if p is not None else None, nt='int', fx=fx_nonlin([a.fx], 'X'))
    if v.k == 'none' or isinstance(I.obj(v), (Lst, Dct)) or v.k in ('tuple', 'enum'):
        I.fail('TypeError', c.node, 'int() argument must be a string or a number')
    return V('num', nt='int', fx=fx_nonlin([I.fxof(v)], 'X'))


@b('float')
def b_float(c):
    I = c.I
    if not c.args:
        return num(0.0)
    v = c.args[0]
    if v.k == 'num':
        return V('num', p=v.p, nt='float', fx=v.fx)
    if v.k == 'str' and v.c is not None:
        try:
            return num(float(v.c), 'float')
        except ValueError:
            I.fail('ValueError', c.node, 'could not convert string to float')
    if v.k == 'none' or isinstance(I.obj(v), (Lst, Dct)) or v.k in ('tuple', 'enum'):
        I.fail('TypeError', c.node, 'float() argument must be a string or a number')
    a = I.getarr(v)
    if a is not None and a.elem is not None and a.shape is not None and size_poly(a) == ONE:
        return V('num', p=a.elem(tuple(ZERO for _ in a.shape)), nt='float', fx=a.fx)
    return V('num', nt='float', fx=I.fxof(v))


@b('bool')
def b_bool(c):
    I = c.I
    if not c.args:
        return vbool(False)
    v = c.args[0]
    t = I.truth_known(v)
    fx = fx_nonlin([I.fxof(v)], 'zero')
    if t is not None:
        return vbool(t, fx)
    if v.k == 'num' and v.p is not None:
        return num(P.pcmp('!=', v.p, ZERO), 'bool', fx)
    return V('num', nt='bool', fx=fx)


@b('str', 'repr', 'format', 'ascii', 'chr', 'hex', 'bin', 'oct')
def b_str(c):
    v = c.args[0] if c.args else vstr('')
    if v.k == 'str':
        return v
    return vstr(None, Fx(c.I.fxof(v).deps))


@b('abs')
def b_abs(c):
    v = c.args[0]
    if v.k == 'num':
        return V('num', p=P.pabs(v.p) if v.p is not None and v.nt != 'complex' else None, nt='int' if v.nt == 'bool' else ('float' if v.nt == 'complex' else v.nt), fx=fx_nonlin([v.fx], 'same'), np_=v.np)
    return call_ext(c.I, 'numpy.abs', c.args, {}, c.node)


@b('round')
def b_round(c):
    v = c.args[0]
    if v.k == 'num':
        nd = c.arg(1, 'ndigits')
        if nd is None or nd.k == 'none':
            return V('num', p=P.pround(v.p) if v.p is not None else None, nt='int', fx=fx_nonlin([v.fx], 'X'))
        d = nd.cint()
        sc = Fraction(10) ** d if d is not None and -12 < d < 13 else None
        return V('num', p=P.pround(v.p * sc) * (1 / sc) if v.p is not None and sc is not None and v.nt != 'complex' else None, nt=v.nt, fx=fx_nonlin([v.fx], 'X').with_deps(c.I.fxof(nd).deps))
    return top(fx_nonlin([c.I.fxof(v)], 'X'))


@b('min', 'max')
def b_min(c):
    I = c.I
    ismax = c.name.endswith('max')
    if len(c.args) == 1:
        its = I.iter_items(c.args[0], c.node)
        if its is None:
            a = A(I, c.args[0], c.node)
            return V('num', nt=a.nt if a.nt in RANK else None, fx=fx_nonlin([a.fx], 'same'), np_=True)
        if not its:
            if 'default' in c.kw:
                return c.kw['default']
            I.fail('ValueError', c.node, '%s() arg is an empty sequence' % c.name[9:])
    else:
        its = c.args
    fx = fx_nonlin([I.fxof(x) for x in its], 'same')
    if 'key' in c.kw:
        return I.join_vals(list(its)).adddeps(fx.deps)
    if any(x.k == 'none' for x in its) and len(its) > 1:
        I.fail('TypeError', c.node, 'ordering comparison with None')
    if all(x.k == 'num' and x.p is not None for x in its):
        f = P.pmax if ismax else P.pmin
        return V('num', p=f(*[x.p for x in its]), nt=join_rank([x.nt for x in its]), fx=fx)
    if all(x.k == 'num' for x in its):
        return V('num', nt=join_rank([x.nt for x in its]), fx=fx)
    for x in its:
        o = I.getarr(x)
        if o is not None and len(its) > 1:
            s = size_poly(o)
            if s is not None and cmp0(s - 1, '>') is True:
                I.fail('ValueError', c.node, 'truth value of an array with more than one element is ambiguous')
    return top(fx)


@b('sum')
def b_sum(c):
    I = c.I
    v = c.args[0]
    st = c.arg(1, 'start')
    its = I.iter_items(v, c.node)
    if its is not None:
        r = st if st is not None else num(0)
        for x in its:
            r = binary(I, 'Add', r, x, c.node)
        return r
    o = I.obj(v)
    if isinstance(o, (Lst, Itr)) and isinstance(o.ev, V) and o.ev.k == 'num':
        return V('num', nt=o.ev.nt if o.ev.nt != 'bool' else 'int', fx=I.fxof(v))
    a = A(I, v, c.node)
    if a.shape is not None and len(a.shape) == 1:
        return V('num', nt=a.nt if a.nt in RANK and a.nt != 'bool' else None, fx=a.fx, np_=True)
    if a.shape is not None and len(a.shape) > 1:
        return I.alloc(Arr(shape=a.shape[1:], nt=a.nt, fx=a.fx), c.node)
    return top(I.fxof(v))


@b('any', 'all')
def b_any(c):
    I = c.I
    its = I.iter_items(c.args[0], c.node)
    isany = c.name.endswith('any')
    fx = fx_nonlin([I.fxof(c.args[0])], 'zero')
    if its is None:
        return V('num', nt='bool', fx=fx)
    ks = []
    for x in its:
        t = I.truth_known(x)
        if t is isany:
            return vbool(isany, fx)
        ks.append((t, x))
    if all(t is not None for t, _ in ks):
        return vbool(not isany, fx)
    if all(x.k == 'num' and x.p is not None for _, x in ks) and len(ks) <= 24:
        return num((_any if isany else _all)([x.p for _, x in ks]), 'bool', fx)
    for x in its:
        I.truth(x, c.node) if False else None
    return V('num', nt='bool', fx=fx)


@b('type')
def b_type(c):
    I = c.I
    v = c.args[0]
    o = I.obj(v)
    if v.k == 'num':
        if v.np:
            return V('type', c={'int': 'numpy.int64', 'float': 'numpy.float64', 'bool': 'numpy.bool_', 'complex': 'numpy.complex128'}.get(v.nt, '?'), x=v.nt)
        return V('type', c=v.nt or '?', x=v.nt)
    if isinstance(o, Arr):
        return V('type', c='numpy.ndarray')
    if isinstance(o, Lst):
        return V('type', c={'deque': 'collections.deque'}.get(o.kind, o.kind))
    if isinstance(o, Dct):
        return V('type', c='dict')
    if isinstance(o, Inst) and o.cls is not None:
        return V('cls', c=o.cls)
    if v.k in ('str', 'tuple', 'range', 'slice'):
        return V('type', c=v.k)
    if v.k == 'none':
        return V('type', c='NoneType')
    if v.k == 'enum' and v.c:
        m = I.resolve_enum(v.c)
        mod, cls = v.c[0].rsplit('.', 1)
        return I.project.modules[mod].env.get(cls, top())
    return V('type', c='?')


PYT = {'int': 'int', 'float': 'float', 'bool': 'bool', 'complex': 'complex'}


@b('isinstance')
def b_isinstance(c):
    I = c.I
    v, t = c.args[0], c.args[1]
    ts = t.x if t.k == 'tuple' else [t]
    rs = [_isinst(I, v, x) for x in ts]
    fx = Fx(I.fxof(v).deps)
    if any(r is True for r in rs):
        return vbool(True, fx)
    if all(r is False for r in rs):
        return vbool(False, fx)
    return V('num', nt='bool', fx=fx)


def _isinst(I, v, t):
    n = I.type_name(t)
    if n is None:
        return None
    o = I.obj(v)
    if v.k == 'top' or v.k == 'maybe_unbound':
        return None
    if v.k == 'num':
        if v.nt is None:
            return None if n in ('int', 'float', 'complex', 'bool', 'numbers.Number') or n.startswith('numpy.') else False
        if n in ('numbers.Number', 'numbers.Real'):
            return True
        if n == v.nt:
            return True if not v.np or n == 'float' else False
        if n == 'int' and v.nt == 'bool' and not v.np:
            return True
        if n.startswith('numpy.'):
            b_ = n[6:]
            if b_ == 'ndarray':
                return False
            if not v.np:
                return False
            if b_ in ('generic', 'number'):
                return True
            if b_ == 'integer':
                return v.nt == 'int'
            if b_ == 'floating':
                return v.nt == 'float'
            if b_ in ('bool_', 'bool'):
                return v.nt == 'bool'
            if b_ in ('int64', 'int_'):
                return True if v.nt == 'int' else False
            if b_ == 'float64':
                return v.nt == 'float'
            return None
        if n in ('numbers.Integral',):
            return v.nt in ('int', 'bool')
        return False
    if isinstance(o, Arr):
        return n == 'numpy.ndarray' or n == 'collections.abc.Iterable'
    if isinstance(o, Lst):
        return n == {'deque': 'collections.deque'}.get(o.kind, o.kind) or n.startswith('collections.abc.') and n.split('.')[-1] in ('Iterable', 'Sequence', 'Collection') or None if n.startswith('collections.abc') else n == {'deque': 'collections.deque'}.get(o.kind, o.kind)
    if isinstance(o, Dct):
        return n == 'dict'
    if isinstance(o, Inst):
        if o.cls is None:
            return None
        if t.k == 'cls':
            def sub(c):
                return c is t.c or any(x.k == 'cls' and sub(x.c) for x in c.bases)
            return sub(o.cls)
        return None if o.cls.has_ext_base() else False
    if v.k == 'enum':
        if t.k == 'cls':
            if v.c is None:
                return None
            return v.c[0] == t.c.module.name + '.' + t.c.name
        return False if n in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'numpy.ndarray', 'bool') else None
    if v.k in ('str', 'tuple', 'range', 'slice'):
        return n == v.k if not n.startswith('collections') else None
    if v.k == 'none':
        return n == 'NoneType'
    return None


@b('hasattr')
def b_hasattr(c):
    I = c.I
    v, nm = c.args[0], c.args[1]
    o = I.obj(v)
    if nm.k == 'str' and nm.c is not None:
        if isinstance(o, Arr):
            return vbool(hasattr(np.ndarray, nm.c), Fx(o.fx.deps))
        if isinstance(o, Inst) and o.cls is not None and not o.open:
            if nm.c in o.attrs:
                return vbool(True) if o.attrs[nm.c].k != 'maybe_unbound' else V('num', nt='bool')
            return vbool(o.cls.lookup(nm.c) is not None)
        if isinstance(o, (Lst, Dct)) or v.k in ('tuple', 'str'):
            t = list if isinstance(o, Lst) else dict if isinstance(o, Dct) else tuple if v.k == 'tuple' else str
            return vbool(hasattr(t, nm.c))
        if v.k == 'num' and v.nt in RANK:
            return vbool(hasattr({'int': int, 'float': float, 'bool': bool, 'complex': complex}[v.nt], nm.c) or (v.np and hasattr(np.float64, nm.c)))
        if v.k == 'func':
            I.emit('funcattr_read', v.c.qual, nm.c, I.where(c.node))
    return V('num', nt='bool')


@b('getattr')
def b_getattr(c):
    I = c.I
    v, nm = c.args[0], c.args[1]
    if nm.k == 'str' and nm.c is not None:
        if len(c.args) > 2:
            h = b_hasattr(Cx(I, 'builtins.hasattr', c.args[:2], {}, c.node))
            t = I.truth_known(h)
            if t is False:
                return c.args[2]
            if v.k in ('mod', 'ext', 'cls'):
                if v.k == 'mod' and I.peek_attr(v, nm.c) is None:
                    return c.args[2]
        return I.getattr(v, nm.c, c.node)
    return top(I.fxof(v))


@b('setattr')
def b_setattr(c):
    if c.args[1].k == 'str' and c.args[1].c is not None:
        c.I.setattr(c.args[0], c.args[1].c, c.args[2], c.node)
    return NONE


@b('enumerate')
def b_enum(c):
    I = c.I
    v = c.args[0]
    st = c.arg(1, 'start', default=num(0))
    its = I.iter_items(v, c.node, limit=unr())
    if its is not None:
        return I.alloc(Itr([vtuple([num(st.p + k if st.p is not None else None, 'int'), x]) for k, x in enumerate(its)], None, I.fxof(v)), c.node)
    n = I.iter_len(v, c.node)

    def ev(isym):
        if isym is None:
            return vtuple([V('num', nt='int'), I.iter_elem(v, c.node)])
        return vtuple([V('num', p=st.p + isym if st.p is not None else None, nt='int'), I.iter_elem(v, c.node, isym)])
    return I.alloc(Itr(None, ev, I.fxof(v), n), c.node)


@b('zip')
def b_zip(c):
    I = c.I
    cols = [I.iter_items(v, c.node, limit=unr()) for v in c.args]
    fx = fx_join([I.fxof(v) for v in c.args]) if c.args else NOFX
    if all(x is not None for x in cols):
        return I.alloc(Itr([vtuple(r) for r in zip(*cols)], None, NOFX), c.node)
    args = list(c.args)
    ns = [I.iter_len(v, c.node) for v in args]
    n = P.pmin(*ns) if all(x is not None for x in ns) else None

    def ev(isym):
        return vtuple([I.iter_elem(v, c.node, isym) for v in args])
    return I.alloc(Itr(None, ev, fx, n), c.node)


@b('map')
def b_map(c):
    I = c.I
    f = c.args[0]
    cols = [I.iter_items(v, c.node, limit=unr()) for v in c.args[1:]]
    if all(x is not None for x in cols):
        return I.alloc(Itr([I.call(f, list(r), {}, c.node) for r in zip(*cols)], None), c.node)
    r = I.call(f, [I.iter_elem(v, c.node) for v in c.args[1:]], {}, c.node)
    return I.alloc(Itr(None, r, I.fxof(r)), c.node)


@b('filter')
def b_filter(c):
    I = c.I
    return I.alloc(Itr(None, I.iter_elem(c.args[1], c.node), I.fxof(c.args[1])), c.node)


@b('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter')
def b_list(c):
    I = c.I
    base = c.name[9:]
    if not c.args:
        return vtuple(()) if base == 'tuple' else I.alloc(Lst([], kind='set' if 'set' in base else 'list'), c.node)
    v = c.args[0]
    if base == 'iter' and isinstance(I.obj(v), Inst) and I.obj(v).cls is not None:
        r = I.obj(v).cls.lookup('__iter__')
        if r is not None:
            return I.call(V('bound', c=r[0].c, x=v), [], {}, c.node)
    its = I.iter_items(v, c.node)
    kind = 'set' if 'set' in base else 'list'
    if its is not None:
        if base == 'tuple':
            return vtuple(its)
        if base == 'reversed':
            return I.alloc(Itr(list(reversed(its))), c.node)
        if base == 'iter':
            return I.alloc(Itr(list(its)), c.node)
        if base == 'sorted':
            if all(x.k == 'num' and x.p is not None and x.p.cval() is not None for x in its) and 'key' not in c.kw:
                its = sorted(its, key=lambda x: x.p.cval(), reverse=bool('reverse' in c.kw and I.truth_known(c.kw['reverse'])))
                return I.alloc(Lst(its), c.node)
            return I.alloc(Lst(None, I.join_vals(its)), c.node) if its else I.alloc(Lst([]), c.node)
        if kind == 'set':
            ded = {}
            ok = True
            for x in its:
                k = I.hashkey(x)
                if k is None or k[0] == 'p':
                    ok = False
                ded[k] = x
            return I.alloc(Lst(list(ded.values()) if ok else None, None if ok else I.join_vals(its), kind='set'), c.node)
        return I.alloc(Lst(list(its)), c.node)
    if v.k in ('num', 'none', 'func'):
        I.fail('TypeError', c.node, 'object is not iterable')
    n = I.iter_len(v, c.node)
    if n is not None and base in ('list',):
        from .interp import GenLst
        sym = I.newsym('i', 0)
        at = next(iter(sym.atoms()))
        P.RESID[at] = n
        ev = I.iter_elem(v, c.node, sym)
        r = I.alloc(Lst(None, ev), c.node)
        I.heap[r.x] = GenLst(I.heap[r.x], at, n)
        return r
    ev = I.iter_elem(v, c.node)
    if base in ('reversed', 'iter'):
        return I.alloc(Itr(None, ev, I.fxof(v), n), c.node)
    if base == 'tuple':
        return top(I.fxof(v))
    return I.alloc(Lst(None, ev, kind=kind), c.node)


@b('dict')
def b_dict(c):
    I = c.I
    d = {('s', k): v for k, v in c.kw.items()}
    if c.args:
        o = I.obj(c.args[0])
        if isinstance(o, Dct) and o.items is not None:
            return I.alloc(Dct({**o.items, **d}), c.node)
        its = I.iter_items(c.args[0], c.node) if not isinstance(o, Dct) else None
        if its is not None and all(x.k == 'tuple' and x.x is not None and len(x.x) == 2 for x in its):
            ks = [I.hashkey(x.x[0]) for x in its]
            if all(k is not None for k in ks):
                return I.alloc(Dct({**dict(zip(ks, [x.x[1] for x in its])), **d}), c.node)
        return I.alloc(Dct(None, top(I.fxof(c.args[0]))), c.node)
    return I.alloc(Dct(d), c.node)


@b('next')
def b_next(c):
    I = c.I
    v = c.args[0]
    o = I.obj(v)
    if isinstance(o, Itr):
        if o.items is not None:
            if not o.items:
                if len(c.args) > 1:
                    return c.args[1]
                I.fail('StopIteration', c.node)
            I.heap[v.x] = o.rep(items=list(o.items)[1:])
            return o.items[0]
        return I.iter_elem(v, c.node)
    if isinstance(o, Inst) and o.cls is not None:
        r = o.cls.lookup('__next__')
        if r is not None:
            return I.call(V('bound', c=r[0].c, x=v), [], {}, c.node)
    return top(I.fxof(v))


@b('print')
def b_print(c):
    c.I.emit('io', 'print', c.I.where(c.node))
    return NONE


@b('open', 'input')
def b_open(c):
    c.I.emit('io', c.name[9:], c.I.where(c.node))
    return top()


@b('divmod')
def b_divmod(c):
    return vtuple([binary(c.I, 'FloorDiv', c.args[0], c.args[1], c.node), binary(c.I, 'Mod', c.args[0], c.args[1], c.node)])


@b('pow')
def b_pow(c):
    r = binary(c.I, 'Pow', c.args[0], c.args[1], c.node)
    if len(c.args) > 2:
        r = binary(c.I, 'Mod', r, c.args[2], c.node)
    return r


@b('callable')
def b_callable(c):
    v = c.args[0]
    if v.k in ('func', 'cls', 'bound', 'ext', 'extm', 'partial', 'type'):
        return vbool(True)
    if v.k in ('num', 'none', 'str', 'tuple'):
        return vbool(False)
    return V('num', nt='bool')


@b('slice')
def b_slice(c):
    a = list(c.args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    return V('slice', x=tuple((a + [NONE] * 3)[:3]))


@b('complex')
def b_complex(c):
    return V('num', nt='complex', fx=fx_lincomb([c.I.fxof(v) for v in c.args]) if c.args else NOFX)


@b('globals', 'vars', 'locals')
def b_globals(c):
    c.I.emit('unsupported', c.name, c.I.where(c.node))
    return c.I.alloc(Dct(None, top()), c.node)


@b('object')
def b_object(c):
    return top()


def builtin_other(c, n):
    I = c.I
    import builtins
    t = getattr(builtins, n.split('.')[0], None)
    if isinstance(t, type) and issubclass(t, BaseException):
        if issubclass(t, Warning):
            return top()
        return V('exc', c=n)
    if n in ('eval', 'exec', 'compile', '__import__'):
        I.emit('unsupported', n, I.where(c.node))
    if n.startswith('object.'):
        return NONE
    if '.' in n:
        # unbound builtin methods such as list.append(x, 1), dict.fromkeys
        base, m = n.split('.', 1)
        if n == 'dict.fromkeys' and c.args:
            its = I.iter_items(c.args[0], c.node)
            if its is not None:
                ks = [I.hashkey(x) for x in its]
                if all(k is not None for k in ks):
                    return I.alloc(Dct({k: c.args[1] if len(c.args) > 1 else NONE for k in ks}), c.node)
            return I.alloc(Dct(None, c.args[1] if len(c.args) > 1 else NONE), c.node)
        if c.args:
            return call_method(I, c.args[0], m, c.args[1:], c.kw, c.node)
    return c.unknown()


def functools_call(c, d):
    I = c.I
    n = d.split('.')[-1]
    if n == 'partial' and c.args:
        return V('partial', x=(c.args[0], list(c.args[1:]), dict(c.kw)))
    if n == 'reduce' and len(c.args) >= 2:
        its = I.iter_items(c.args[1], c.node)
        if its is not None and len(its) <= UNR:
            r = c.args[2] if len(c.args) > 2 else None
            for x in its:
                r = x if r is None else I.call(c.args[0], [r, x], {}, c.node)
            if r is not None:
                return r
        return c.unknown()
    if n in ('lru_cache', 'cache', 'wraps'):
        if c.args and c.args[0].k == 'func' and n in ('lru_cache', 'cache'):
            c.args[0].c.cached = n
            return c.args[0]
        return V('ext', c=d)
    return top()


def itertools_call(c, d):
    I = c.I
    n = d.split('.')[-1]
    if n == 'chain' or n == 'chain.from_iterable':
        cols = [I.iter_items(v, c.node) for v in c.args]
        if all(x is not None for x in cols):
            return I.alloc(Itr([y for x in cols for y in x]), c.node)
    if n == 'product':
        cols = [I.iter_items(v, c.node) for v in c.args]
        r = c.kw.get('repeat')
        if all(x is not None for x in cols):
            if r is not None and r.cint() is not None:
                cols = cols * r.cint()
            if r is None or r.cint() is not None:
                tot = 1
                for x in cols:
                    tot *= len(x)
                if tot <= 1024:
                    import itertools
                    return I.alloc(Itr([vtuple(t) for t in itertools.product(*cols)]), c.node)
    return I.alloc(Itr(None, top(fx_unknown([I.fxof(v) for v in c.allargs()]))), c.node)


class BoundedKind(str):
    """container kind of a deque with a maximal length"""


def collections_call(c, d):
    I = c.I
    n = d.split('.')[-1]
    if n == 'deque':
        kind = 'deque'
        ml = c.arg(1, 'maxlen')
        src = c.arg(0, 'iterable')
        if ml is not None and ml.k != 'none':
            kind = BoundedKind('deque')
            kind.maxlen = ml.cint() if ml.k == 'num' and ml.cint() is not None else -1
        its = I.iter_items(src, c.node) if src is not None else []
        if its is not None and getattr(kind, 'maxlen', None) != -1:
            its = list(its)
            if getattr(kind, 'maxlen', None) is not None:
                its = its[len(its) - kind.maxlen:] if len(its) > kind.maxlen else its
            return I.alloc(Lst(its, kind=kind), c.node)
        return I.alloc(Lst(None, I.iter_elem(src, c.node), kind=kind), c.node)
    if n in ('OrderedDict', 'defaultdict', 'Counter'):
        return I.alloc(Dct(None, top()) if n != 'OrderedDict' else Dct({}), c.node)
    return top()


# ---------------------------------------------------------------------------------------------------
# methods
# ---------------------------------------------------------------------------------------------------
def extobj_call(I, recv, o, name, args, kw, node):
    """calls on objects of external classes whose behaviour is summarised: interpolators and linear-model estimators"""
    d = o.attrs['__ext__'].c or ''
    fx = fx_unknown([o.fx] + [I.fxof(x) for x in list(args) + list(kw.values())])
    if name == '__call__' and d.startswith('scipy.interpolate') and args:
        a = A(I, args[0])
        k = sum(1 for e in I.log if e[0] == 'interp')
        I.emit('interp', d, dict(o.attrs), a, dict(I.heap), I.where(node))
        return I.alloc(Arr(shape=a.shape, nt='float', fx=fx, elem=lambda idx: Poly.atom(('e', 'interp%d' % k) + tuple(idx))), node)
    if d.startswith('sklearn.') and name in ('fit', 'predict'):
        x = args[0] if args else kw.get('X')
        a = A(I, x) if x is not None else None
        sh = a.shape if a is not None else None
        if name == 'predict':
            return I.alloc(Arr(shape=(sh[0],) if sh else None, nt='float', fx=fx), node)
        at = dict(o.attrs)
        y = args[1] if len(args) > 1 else kw.get('y')
        key = solution(I, d.split('.')[-1], a, A(I, y) if y is not None else None, dict(o.attrs), node)
        at['coef_'] = I.alloc(Arr(shape=(sh[1],) if sh is not None and len(sh) == 2 else None, nt='float', fx=fx, elem=lambda idx: Poly.atom(('e', key, idx[0]))), node)
        fi = at.get('kw:fit_intercept')
        if fi is not None and fi.k == 'num' and fi.p is not None and fi.p.cint() == 0:
            at['intercept_'] = num(0, 'float')
        I.heap[recv.x] = o.rep(attrs=at, fx=fx)
        I.emit('fit', d, {k: v for k, v in o.attrs.items() if k != '__ext__'}, args, dict(kw), I.where(node))
        return recv
    return None


def call_method(I, recv, name, args, kw, node):
    o = I.obj(recv)
    if isinstance(o, Arr):
        return arr_method(I, recv, o, name, args, kw, node)
    if isinstance(o, Lst):
        return lst_method(I, recv, o, name, args, kw, node)
    if isinstance(o, Dct):
        return dct_method(I, recv, o, name, args, kw, node)
    if isinstance(o, Inst) and '__ext__' in o.attrs:
        r = extobj_call(I, recv, o, name, args, kw, node)
        if r is not None:
            return r
        I.emit('unknowncall', '%s.%s' % (o.attrs['__ext__'].c, name), I.where(node))
        return top(fx_unknown([o.fx] + [I.fxof(x) for x in args]))
    if isinstance(o, Itr):
        if name == '__next__':
            return CALLS['builtins.next'](Cx(I, 'builtins.next', [recv], {}, node))
        return top(o.fx)
    if recv.k == 'str':
        return str_method(I, recv, name, args, kw, node)
    if recv.k == 'tuple':
        if name == 'index' or name == 'count':
            its = list(recv.x or [])
            if name == 'index' and args:
                for j, x in enumerate(its):
                    t = I.eq(x, args[0])
                    if t is True:
                        return num(j)
                    if t is None:
                        return V('num', nt='int', fx=Fx(I.fxof(args[0]).deps))
                I.fail('ValueError', node, 'value is not in tuple')
            return V('num', nt='int')
        return top()
    if recv.k == 'num':
        if name in ('astype',):
            d = args[0] if args else kw.get('dtype')
            a = narrow(cast(A(I, recv), dtype_nt(I, d)), dtype_w(d))
            return V('num', p=a.elem(()) if a.elem else None, nt=a.nt, fx=a.fx, np_=True)
        if name in ('conj', 'conjugate') and recv.nt == 'complex':
            return V('num', p=CPLX['conj'](recv.p), nt='complex', fx=recv.fx, np_=recv.np)
        if name in ('item', 'conj', 'conjugate', 'copy', 'squeeze'):
            return recv
        if name in ('sum', 'mean', 'min', 'max') and recv.np:
            return recv
        if name in ('reshape', 'flatten', 'ravel', 'tolist', 'any', 'all', 'round', 'dot', 'std', 'var'):
            t = I.alloc(A(I, recv).rep(bufs={}), node)
            return arr_method(I, t, I.obj(t), name, args, kw, node)
        if name == 'bit_length':
            c = recv.cint()
            return num(c.bit_length(), 'int', recv.fx) if c is not None else V('num', nt='int', fx=fx_nonlin([recv.fx], 'X'))
        return top(fx_unknown([recv.fx] + [I.fxof(v) for v in args]))
    if isinstance(o, Inst):
        return top(fx_unknown([I.fxof(recv)] + [I.fxof(v) for v in list(args) + list(kw.values())]))
    if recv.k == 'top':
        fx = fx_unknown([recv.fx] + [I.fxof(v) for v in list(args) + list(kw.values())])
        if name in ('append', 'extend', 'insert', 'sort', 'fill', 'update', 'pop', 'clear', 'put', 'setdefault', 'remove', 'reverse', 'appendleft', 'popleft', 'resize') and isinstance(recv.x, dict):
            I.write_effect({k: False for k in recv.x}, node, name)
        if name in ('copy', 'astype', 'flatten', 'sum', 'mean', 'min', 'max', 'dot', 'any', 'all', 'std', 'var', 'item', 'tolist', 'cumsum', 'argmax', 'argmin'):
            if name == 'astype':
                return I.alloc(Arr(shape=None, nt=dtype_nt(I, args[0] if args else None), fx=fx), node)
            return top(fx)
        return top(fx, x={k: False for k in recv.x} if isinstance(recv.x, dict) else None)
    return top(fx_unknown([I.fxof(recv)] + [I.fxof(v) for v in list(args) + list(kw.values())]))


def arr_method(I, recv, o, name, args, kw, node):
    if name in ('astype',):
        d = args[0] if args else kw.get('dtype')
        a = A(I, recv)
        nt = dtype_nt(I, d)
        if d is not None and d.k in ('none', 'num', 'tuple'):
            if d.k == 'num':
                I.fail('TypeError', node, 'Cannot interpret as a data type')
        cp = kw.get('copy')
        if cp is not None and I.truth_known(cp) is False:
            r = cast(a, nt)
            if nt == a.nt and nt is not None:
                return recv
            return I.alloc(r.rep(bufs={k: False for k in o.bufs}), node)
        return out(I, fresh(narrow(cast(a, nt), dtype_w(d))), node, scalar=False)
    if name == 'copy':
        return I.alloc(fresh(A(I, recv)), node)
    if name == 'flatten':
        od = args[0] if args else kw.get('order')
        return do_reshape(I, recv, A(I, recv), [num(-1)], od.c if od is not None and od.k == 'str' else 'C', node, copy=True)
    if name == 'reshape':
        od = kw.get('order')
        if len(args) == 1 and args[0].k != 'num':
            its = I.iter_items(args[0], node)
        elif not args and 'shape' in kw:
            its = [kw['shape']] if kw['shape'].k == 'num' else I.iter_items(kw['shape'], node)
        else:
            its = list(args)
        a = A(I, recv)
        if its is None:
            return I.alloc(Arr(shape=None, nt=a.nt, fx=a.fx, bufs={k: False for k in o.bufs}), node)
        return do_reshape(I, recv, a, its, od.c if od is not None and od.k == 'str' else 'C', node)
    if name == 'transpose':
        if args:
            its = list(args) if args[0].k == 'num' else (I.iter_items(args[0], node) or [])
            if all(x.cint() is not None for x in its) and its:
                return transpose(I, recv, [x.cint() for x in its], node)
        return transpose(I, recv, None, node)
    if name == 'tolist':
        a = A(I, recv)
        its = I.iter_items(recv, node)
        if its is not None and a.ndim == 1:
            return I.alloc(Lst([V(x.k, x.c, x.p, x.nt, x.x, x.fx, False) for x in its]), node)
        if a.ndim == 1:
            from .interp import GenLst
            sym = I.newsym('i', 0)
            at = next(iter(sym.atoms()))
            if a.shape[0] is not None:
                P.RESID[at] = a.shape[0]
                x = getitem(I, recv, num(sym, 'int'), node, True)
                r = I.alloc(Lst(None, V(x.k, x.c, x.p, x.nt, x.x, x.fx, False)), node)
                I.heap[r.x] = GenLst(I.heap[r.x], at, a.shape[0])
                return r
        return I.alloc(Lst(None, top(a.fx)), node)
    if name == 'item':
        a = A(I, recv)
        p = None
        if a.elem is not None and a.shape is not None and not args and size_poly(a) == ONE:
            p = a.elem(tuple(ZERO for _ in a.shape))
        return V('num', p=p, nt=a.nt if a.nt in RANK else None, fx=a.fx)
    if name in ('fill', 'sort', 'partition', 'put', 'itemset', 'resize', 'setfield', 'byteswap'):
        a = A(I, recv)
        if name == 'fill':
            v = A(I, args[0])
            I.written(recv.x, o.rep(elem=(lambda idx: v.elem(())) if v.elem else None, const=None, fx=v.fx, lo=v.lo, hi=v.hi), node, 'fill')
        elif name == 'sort':
            I.written(recv.x, o.rep(elem=None, const=np.sort(o.const) if o.const is not None else None, fx=fx_nonlin([a.fx], 'same')), node, 'sort')
        else:
            I.written(recv.x, o.rep(elem=None, const=None, fx=fx_unknown([a.fx] + [I.fxof(v) for v in args])), node, name)
        return NONE
    if name in ('setflags',):
        I.write_effect(o.bufs, node, 'setflags')
        return NONE
    if name in ('tofile', 'dump'):
        I.emit('io', name, I.where(node))
        return NONE
    if name == 'view':
        return I.alloc(A(I, recv).rep(elem=None if args else o.elem, bufs=dict(o.bufs)), node)
    if name == '__len__':
        return CALLS['builtins.len'](Cx(I, 'builtins.len', [recv], {}, node))
    if name == '__getitem__':
        return getitem(I, recv, args[0], node)
    if name == 'conjugate':
        name = 'conj'
    full = 'numpy.' + name
    a2 = [recv] + list(args)
    r = try_fold(I, full, a2, kw, node)
    if r is not None:
        return r
    f = CALLS.get(ALIASES.get(full, full))
    if f is not None:
        try:
            return f(Cx(I, ALIASES.get(full, full), a2, kw, node))
        except TooBig:
            pass
    fx = fx_unknown([I.fxof(v) for v in a2 + list(kw.values())])
    return top(fx, x={k: False for k in o.bufs} if name in VIEWF or name in ('diagonal', 'getfield', 'swapaxes') else None)


def lst_method(I, recv, o, name, args, kw, node):
    dep = NOFX
    items = o.items

    bound = getattr(o.kind, 'maxlen', None)

    def put(newitems, ev=None):
        if bound is not None and newitems is not None and len(newitems) > bound:
            if bound < 0:
                newitems, ev = None, I.join_vals(newitems)
            elif name in ('appendleft', 'extendleft'):
                newitems = newitems[:bound]
            else:
                newitems = newitems[len(newitems) - bound:]
        I.heap[recv.x] = o.rep(items=newitems, ev=ev)

    def unk(*vs):
        put(None, I.join_vals(list(items or []) + [x for x in (o.ev,) + vs if x is not None]))
    mut = name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'popleft', 'rotate', 'add', 'update', 'discard', 'extendleft', '__setitem__')
    if mut:
        I.write_effect(o.bufs, node, 'list ' + name)
    if name in ('append', 'appendleft', 'add'):
        if items is not None and not I.in_loop:
            put(list(items) + [args[0]] if name != 'appendleft' else [args[0]] + list(items))
        elif items is not None and I.in_loop:
            put(list(items) + [args[0]] if name != 'appendleft' else [args[0]] + list(items))
        else:
            unk(args[0])
        return NONE
    if name in ('extend', 'update', 'extendleft'):
        its = I.iter_items(args[0], node)
        if its is not None and items is not None and name != 'extendleft':
            put(list(items) + list(its))
        else:
            unk(*(its if its is not None else [I.iter_elem(args[0], node)]))
        return NONE
    if name == 'insert':
        k = args[0].cint()
        if items is not None and k is not None:
            it = list(items)
            it.insert(k, args[1])
            put(it)
        else:
            unk(args[1])
        return NONE
    if name in ('pop', 'popleft'):
        k = -1 if name == 'pop' else 0
        if args:
            k = args[0].cint()
        if items is not None and k is not None:
            if not items:
                I.fail('IndexError', node, 'pop from empty list')
            it = list(items)
            try:
                x = it.pop(k)
            except IndexError:
                I.fail('IndexError', node, 'pop index out of range')
            put(it)
            return x
        r = I.join_vals(list(items)) if items else (o.ev if o.ev is not None else top(o.fx))
        unk()
        return r
    if name == 'clear':
        put([])
        return NONE
    if name == 'reverse':
        put(list(reversed(items)) if items is not None else None, o.ev)
        return NONE
    if name in ('sort', 'rotate', 'remove', 'discard', '__setitem__'):
        if name == 'rotate' and items is not None and (not args or args[0].cint() is not None):
            k = args[0].cint() if args else 1
            n = len(items)
            it = list(items)
            if n:
                k %= n
                it = it[-k:] + it[:-k] if k else it
            put(it)
            return NONE
        unk()
        return NONE
    if name == 'copy':
        return I.alloc(o.rep(bufs={}), node)
    if name in ('index', 'count'):
        if items is not None and args and name == 'index':
            for j, x in enumerate(items):
                t = I.eq(x, args[0])
                if t is True:
                    return num(j, 'int', Fx(I.fxof(args[0]).deps))
                if t is None:
                    return V('num', nt='int', fx=Fx(I.fxof(recv).deps | I.fxof(args[0]).deps))
            I.fail('ValueError', node, 'value is not in list')
        return V('num', nt='int', fx=Fx(I.fxof(recv).deps))
    return top(I.fxof(recv))


def ground_key(k):
    if k is None:
        return False
    if k[0] == 't':
        return all(ground_key(x) for x in k[1])
    return k[0] in ('n', 's', 'e', 'none')


def dct_method(I, recv, o, name, args, kw, node):
    if name in ('keys', 'values', 'items'):
        if o.items is not None:
            if name == 'keys':
                return I.alloc(Lst([I.unhashkey(k) for k in o.items]), node)
            if name == 'values':
                return I.alloc(Lst(list(o.items.values())), node)
            return I.alloc(Lst([vtuple([I.unhashkey(k), v]) for k, v in o.items.items()]), node)
        ev = o.ev if o.ev is not None else top(o.fx)
        return I.alloc(Lst(None, {'keys': top(o.fx), 'values': ev, 'items': vtuple([top(o.fx), ev])}[name]), node)
    if name == 'get':
        k = I.hashkey(args[0]) if args else None
        d = args[1] if len(args) > 1 else NONE
        if o.items is not None and ground_key(k):
            if k in o.items:
                return o.items[k].adddeps(I.fxof(args[0]).deps)
            if all(ground_key(x) for x in o.items):
                return d.adddeps(I.fxof(args[0]).deps)
        if o.items is not None and o.items:
            return I.join_vals(list(o.items.values()) + [d]).adddeps(I.fxof(args[0]).deps)
        return top(o.fx)
    if name in ('update', 'setdefault', 'pop', 'clear', 'popitem', '__setitem__'):
        I.write_effect(o.bufs, node, 'dict ' + name)
        if name == 'update' and o.items is not None:
            oo = I.obj(args[0]) if args else None
            d = dict(o.items)
            if oo is None and not args:
                d.update({('s', k): v for k, v in kw.items()})
                I.heap[recv.x] = o.rep(items=d)
                return NONE
            if isinstance(oo, Dct) and oo.items is not None:
                d.update(oo.items)
                I.heap[recv.x] = o.rep(items=d)
                return NONE
        if name in ('setdefault', 'pop') and o.items is not None and args:
            k = I.hashkey(args[0])
            if ground_key(k) and all(ground_key(x) for x in o.items):
                d = dict(o.items)
                if name == 'pop':
                    if k not in d:
                        if len(args) > 1:
                            return args[1]
                        I.fail('KeyError', node, 'key not found')
                    r = d.pop(k)
                    I.heap[recv.x] = o.rep(items=d)
                    return r
                if k not in d:
                    d[k] = args[1] if len(args) > 1 else NONE
                    I.heap[recv.x] = o.rep(items=d)
                return d[k]
        vals = list((o.items or {}).values()) + ([o.ev] if o.ev is not None else []) + list(args[1:]) + list(kw.values())
        ev = I.join_vals(vals) if vals else top()
        I.heap[recv.x] = o.rep(items={} if name == 'clear' else None, ev=ev)
        return NONE if name in ('update', 'clear') else (ev if ev is not None else top())
    if name == 'copy':
        return I.alloc(o.rep(bufs={}), node)
    return top(I.fxof(recv))


def str_method(I, recv, name, args, kw, node):
    if recv.c is not None:
        try:
            a = [cval(I, x) for x in args]
            r = getattr(recv.c, name)(*a, **{k: cval(I, v) for k, v in kw.items()})
            return wrap_const(I, r, node, recv.fx)
        except (NotConst, ValueError, KeyError, IndexError):
            pass
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower'):
        return V('num', nt='bool', fx=Fx(recv.fx.deps))
    if name in ('find', 'index', 'count'):
        return V('num', nt='int', fx=Fx(recv.fx.deps))
    if name in ('split', 'rsplit', 'splitlines', 'partition'):
        return I.alloc(Lst(None, vstr(None, recv.fx)), node)
    return vstr(None, recv.fx)


# -- polynomials and the bilinear transform ------------------------------------------------------------------------
def _poly_arr(c, ps, fx, nt='float'):
    ps = list(ps)
    return c.I.alloc(Arr(shape=(pc(len(ps)),), nt=nt, elem=lambda idx: ps[idx[0].cint()] if idx[0].cint() is not None else None, fx=fx), c.node)


def _from_roots(c, v):
    """coefficients of prod (x - r), constant term first, or None"""
    I = c.I
    a = I.as_array(v, c.node) if hasattr(I, 'as_array') else A(I, v, c.node)
    if a is None:
        return None
    if a.shape is not None and len(a.shape) == 1 and a.shape[0] == ZERO:
        return [pc(1)]
    rs = coef_polys(a, 8)
    if rs is None or a.shape == ():
        return None
    co = [pc(1)]
    for r in rs:
        nx = [ZERO] * (len(co) + 1)
        for k, q in enumerate(co):
            nx[k + 1] = nx[k + 1] + q
            nx[k] = nx[k] - q * r
        co = nx
    return co


@ext('numpy.polynomial.Polynomial.fromroots', 'numpy.polynomial.polynomial.Polynomial.fromroots')
def c_fromroots(c):
    I = c.I
    fx = fx_unknown([I.fxof(v) for v in c.allargs()])
    co = _from_roots(c, c.args[0]) if c.args else None
    arr = _poly_arr(c, co, fx) if co is not None else I.alloc(Arr(shape=(None,), nt='float', fx=fx), c.node)
    return I.alloc(Inst(None, {'__ext__': vstr('numpy.polynomial.Polynomial'), 'coef': arr}, fx=fx, open_=True), c.node)


@ext('numpy.polynomial.polynomial.polyfromroots', 'numpy.poly')
def c_polyfromroots(c):
    I = c.I
    fx = fx_unknown([I.fxof(v) for v in c.allargs()])
    co = _from_roots(c, c.args[0]) if c.args else None
    if co is None:
        return I.alloc(Arr(shape=(None,), nt='float', fx=fx), c.node)
    return _poly_arr(c, co[::-1] if c.name == 'numpy.poly' else co, fx)


@ext('scipy.signal.bilinear')
def c_bilinear(c):
    I = c.I
    fx = fx_unknown([I.fxof(v) for v in c.allargs()])
    b, a = c.arr(0, 'b'), c.arr(1, 'a')
    fs = c.arg(2, 'fs', default=num(1))
    unk = lambda: I.alloc(Arr(shape=(None,), nt='float', fx=fx), c.node)
    bp = coef_polys(b, 8) if b is not None else None
    ap = coef_polys(a, 8) if a is not None else None
    if bp is None or ap is None or fs.k != 'num' or fs.p is None:
        return vtuple([unk(), unk()])
    from math import comb
    N, D = len(bp) - 1, len(ap) - 1
    M = max(N, D)
    w = fs.p * 2

    def side(co, n):
        out = []
        for j in range(M + 1):
            t = ZERO
            for i in range(n + 1):
                s = 0
                for k in range(i + 1):
                    l = j - k
                    if 0 <= l <= M - i:
                        s += comb(i, k) * comb(M - i, l) * (-1) ** k
                if s:
                    t = t + co[n - i] * P.ppow_int(w, i) * s
            out.append(t)
        return out
    try:
        nb, na = side(bp, N), side(ap, D)
        inv = P.pinv(na[0])
        return vtuple([_poly_arr(c, [x * inv for x in nb], fx), _poly_arr(c, [x * inv for x in na], fx)])
    except TooBig:
        return vtuple([unk(), unk()])
