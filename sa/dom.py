"""Abstract values, heap objects and joins."""
import numpy as np
from .poly import Poly, TooBig
from .facets import Fx, NOFX, fx_join, EMPTY


class V:
    """abstract value.  k is one of:
    top none num str enum func cls mod ext ref tuple slice range type ellipsis bound extm exc super"""
    __slots__ = ('k', 'c', 'p', 'nt', 'x', 'fx', 'np')

    def __init__(self, k, c=None, p=None, nt=None, x=None, fx=NOFX, np_=False):
        self.k = k
        self.c = c
        self.p = p
        self.nt = nt
        self.x = x
        self.fx = fx
        self.np = np_

    def __repr__(self):
        if self.k == 'num':
            return 'num<%s %r>' % (self.nt, self.p)
        return '%s<%r %r>' % (self.k, self.c, self.x)

    def w(self, fx):
        if fx is self.fx:
            return self
        return V(self.k, self.c, self.p, self.nt, self.x, fx, self.np)

    def adddeps(self, d):
        return self.w(self.fx.with_deps(d)) if d else self

    def cnum(self):
        """python number for a constant number else None"""
        if self.k == 'num' and self.p is not None:
            c = self.p.cval()
            if c is None:
                return None
            if self.nt == 'bool':
                return bool(c)
            if c.denominator == 1 and self.nt != 'float':
                return int(c)
            return float(c)
        return None

    def cint(self):
        if self.k == 'num' and self.p is not None:
            return self.p.cint()
        return None


NONE = V('none')
TOP = V('top')
ELL = V('ellipsis')


def num(p, nt=None, fx=NOFX, np_=False):
    if not isinstance(p, Poly) and p is not None:
        if nt is None:
            nt = 'bool' if isinstance(p, bool) else 'int' if isinstance(p, int) else 'float'
        p = Poly.const(p)
    return V('num', p=p, nt=nt, fx=fx, np_=np_)


def top(fx=NOFX, x=None):
    return V('top', fx=fx, x=x)


def vstr(s, fx=NOFX):
    return V('str', c=s, fx=fx)


def vtuple(items, fx=NOFX):
    return V('tuple', x=tuple(items), fx=fx)


def vbool(b, fx=NOFX):
    return num(Poly.const(int(b)), 'bool', fx)


def ref(oid, fx=NOFX):
    return V('ref', x=oid, fx=fx)


class Arr:
    """ndarray abstract state (immutable record)"""
    __slots__ = ('shape', 'nt', 'elem', 'const', 'bufs', 'fx', 'contig', 'lo', 'hi', 'flags', 'w')

    def __init__(self, shape=None, nt=None, elem=None, const=None, bufs=None, fx=NOFX, contig=True, lo=None, hi=None, flags=EMPTY, w=None):
        self.shape = shape      # tuple of (Poly|None) or None
        self.nt = nt            # 'bool','int','float','complex',None, or ('same', label)
        self.elem = elem        # callable(idx tuple of Poly) -> Poly or None ; None when unknown
        self.const = const      # numpy array when fully known
        self.bufs = bufs or {}  # buffer id -> True (must share) / False (may share)
        self.fx = fx
        self.contig = contig
        self.lo = lo
        self.hi = hi
        self.flags = flags
        self.w = w              # name of the dtype when it is narrower than int64 / float64

    def rep(self, **kw):
        a = Arr(self.shape, self.nt, self.elem, self.const, self.bufs, self.fx, self.contig, self.lo, self.hi, self.flags, self.w)
        if 'nt' in kw and kw['nt'] != self.nt:
            a.w = None
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def __repr__(self):
        return 'Arr(shape=%r,%s,bufs=%s%s)' % (self.shape, self.nt, sorted(self.bufs), ',const' if self.const is not None else '')


class Lst:
    __slots__ = ('items', 'ev', 'bufs', 'fx', 'kind')

    def __init__(self, items=None, ev=None, bufs=None, fx=NOFX, kind='list'):
        self.items = items      # list of V or None when the length is unknown
        self.ev = ev            # join of elements when items is None
        self.bufs = bufs or {}
        self.fx = fx
        self.kind = kind        # list, set, deque

    def rep(self, **kw):
        a = Lst(self.items, self.ev, self.bufs, self.fx, self.kind)
        for k, v in kw.items():
            setattr(a, k, v)
        return a


class Dct:
    __slots__ = ('items', 'ev', 'kv', 'bufs', 'fx')

    def __init__(self, items=None, ev=None, kv=None, bufs=None, fx=NOFX):
        self.items = items      # dict: hashable const key -> V ; None when unknown
        self.ev = ev
        self.kv = kv            # key abstraction
        self.bufs = bufs or {}
        self.fx = fx

    def rep(self, **kw):
        a = Dct(self.items, self.ev, self.kv, self.bufs, self.fx)
        for k, v in kw.items():
            setattr(a, k, v)
        return a


class Inst:
    __slots__ = ('cls', 'attrs', 'bufs', 'fx', 'open')

    def __init__(self, cls, attrs=None, bufs=None, fx=NOFX, open_=False):
        self.cls = cls
        self.attrs = attrs or {}
        self.bufs = bufs or {}
        self.fx = fx
        self.open = open_       # unknown attributes allowed (opaque object)

    def rep(self, **kw):
        a = Inst(self.cls, self.attrs, self.bufs, self.fx, self.open)
        for k, v in kw.items():
            setattr(a, k, v)
        return a


class Itr:
    """iterator over a (list of V | unknown element)"""
    __slots__ = ('items', 'ev', 'bufs', 'fx', 'n')

    def __init__(self, items=None, ev=None, fx=NOFX, n=None):
        self.items = items
        self.ev = ev
        self.bufs = {}
        self.fx = fx
        self.n = n

    def rep(self, **kw):
        a = Itr(self.items, self.ev, self.fx, self.n)
        for k, v in kw.items():
            setattr(a, k, v)
        return a


def join_nt(a, b):
    if a == b:
        return a
    return None


def join_bufs(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, False) or v
    return r


class Joiner:
    """joins two states; oids common to both are joined in place, different oids are merged to a new one"""

    def __init__(self, h1, h2, newoid):
        self.h1, self.h2 = h1, h2
        self.out = {}
        self.newoid = newoid
        self.memo = {}

    def heap(self):
        for o in set(self.h1) | set(self.h2):
            if o in self.h1 and o in self.h2:
                a, b = self.h1[o], self.h2[o]
                self.out[o] = a if a is b else self.obj(a, b)
            else:
                self.out[o] = self.h1.get(o) or self.h2.get(o)

    def obj(self, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            # differing kinds: keep an opaque instance
            return Inst(None, {}, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)), True)
        if isinstance(a, Arr):
            shape = None
            if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
                shape = tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
            const = a.const if a.const is not None and b.const is not None and a.const is b.const else None
            elem = a.elem if a.elem is b.elem else None
            lo = min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None
            hi = max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None
            return Arr(shape, join_nt(a.nt, b.nt), elem, const, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)),
                       a.contig and b.contig, lo, hi, a.flags & b.flags)
        if isinstance(a, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Lst([self.val(x, y) for x, y in zip(a.items, b.items)], None, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)), a.kind)
            ev = None
            for x in (list(a.items or []) + list(b.items or []) + [e for e in (a.ev, b.ev) if e is not None]):
                ev = x if ev is None else self.val(ev, x)
            return Lst(None, ev, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)), a.kind)
        if isinstance(a, Dct):
            if a.items is not None and b.items is not None and set(a.items) == set(b.items):
                return Dct({k: self.val(a.items[k], b.items[k]) for k in a.items}, None, None, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)))
            ev = None
            for x in list((a.items or {}).values()) + list((b.items or {}).values()) + [e for e in (a.ev, b.ev) if e is not None]:
                ev = x if ev is None else self.val(ev, x)
            return Dct(None, ev, None, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)))
        if isinstance(a, Inst):
            attrs = {}
            for k in set(a.attrs) | set(b.attrs):
                if k in a.attrs and k in b.attrs:
                    attrs[k] = self.val(a.attrs[k], b.attrs[k])
                else:
                    attrs[k] = V('maybe_unbound')
            return Inst(a.cls if a.cls is b.cls else None, attrs, join_bufs(a.bufs, b.bufs), fx_join((a.fx, b.fx)), a.open or b.open or a.cls is not b.cls)
        if isinstance(a, Itr):
            ev = None
            for x in list(a.items or []) + list(b.items or []) + [e for e in (a.ev, b.ev) if e is not None]:
                ev = x if ev is None else self.val(ev, x)
            return Itr(None, ev, fx_join((a.fx, b.fx)))
        return a

    def val(self, a, b):
        if a is b:
            return a
        fx = fx_join((a.fx, b.fx))
        if a.k != b.k:
            if {a.k, b.k} <= {'num', 'ref', 'tuple', 'str', 'none', 'top', 'enum'}:
                bufs = {}
                for v in (a, b):
                    if v.k == 'ref':
                        o = (self.h1 if v is a else self.h2).get(v.x)
                        if o is not None:
                            bufs = join_bufs(bufs, o.bufs)
                            fx = fx_join((fx, o.fx))
                return top(fx, x=bufs or None)
            if 'maybe_unbound' in (a.k, b.k):
                return a if a.k == 'maybe_unbound' else b
            return top(fx)
        if a.k == 'ref':
            if a.x == b.x:
                return a.w(fx)
            key = (a.x, b.x)
            if key in self.memo:
                return ref(self.memo[key], fx)
            o1, o2 = self.h1.get(a.x), self.h2.get(b.x)
            if o1 is None or o2 is None:
                return top(fx)
            oid = self.newoid(key)
            self.memo[key] = oid
            self.out[oid] = self.obj(o1, o2)
            return ref(oid, fx)
        if a.k == 'num':
            return V('num', p=a.p if a.p == b.p else None, nt=join_nt(a.nt, b.nt), fx=fx)
        if a.k == 'tuple':
            if a.x is not None and b.x is not None and len(a.x) == len(b.x):
                return V('tuple', x=tuple(self.val(x, y) for x, y in zip(a.x, b.x)), fx=fx)
            return top(fx)
        if a.k == 'str':
            return vstr(a.c if a.c == b.c else None, fx)
        if a.k == 'enum':
            if a.c == b.c:
                return a.w(fx)
            return V('enum', c=None, x=a.x if a.x == b.x else None, fx=fx)
        if a.k in ('none', 'ellipsis'):
            return a.w(fx)
        if a.k == 'top':
            bufs = join_bufs(a.x or {}, b.x or {})
            return top(fx, x=bufs or None)
        if a.k in ('func', 'cls', 'mod', 'ext', 'type', 'bound', 'extm', 'range', 'slice', 'exc'):
            if a.c == b.c and a.x == b.x:
                return a.w(fx)
            return top(fx)
        return top(fx)
