"""Flow- and path-sensitive abstract interpreter over the repository's syntax trees.

Nothing of the repository is executed.  Paths are explored by replaying the abstract run with a
decision oracle; loops with an unknown trip count are brought to a fixpoint by joining states.
"""
import ast
import builtins
import numpy as np
from fractions import Fraction
from . import poly as P
from .poly import Poly, TooBig, cmp0
from .dom import *
from .dom import V, Arr, Lst, Dct, Inst, Itr, Joiner
from .facets import *
from .facets import Fx, NOFX
from .project import Project, Module, AnchorMissing


class Sig(Exception):
    pass


class RetSig(Sig):
    def __init__(self, v):
        self.v = v


class BrkSig(Sig):
    pass


class CntSig(Sig):
    pass


class RaiseSig(Sig):
    def __init__(self, exc, explicit, where, msg='', val=None):
        self.exc = exc            # exception class name
        self.explicit = explicit  # raise statement (True) or a failing operation (False)
        self.where = where
        self.msg = msg
        self.val = val


class Abort(Exception):
    """analysis budget of a path exhausted"""


class Oracle:
    def __init__(self, dec):
        self.dec = list(dec)
        self.pos = 0
        self.taken = []
        self.width = []

    def choose(self, n):
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
        self.pos += 1
        self.taken.append(c)
        self.width.append(n)
        return c

    def alternatives(self):
        """unexplored sibling decisions beyond the prescribed prefix"""
        out = []
        for i in range(len(self.dec), len(self.taken)):
            for a in range(1, self.width[i]):
                out.append(self.taken[:i] + [a])
        return out


class Frame:
    def __init__(self, name, module, env, closure=None, func=None, node=None):
        self.name = name
        self.module = module
        self.env = env
        self.closure = closure
        self.func = func
        self.node = node
        self.globals_decl = set()
        self.nonlocals = set()
        self.yields = None
        self.locals = None


class Path:
    def __init__(self, kind, val, I, exc=None):
        self.kind = kind
        self.val = val
        self.heap = I.heap
        self.log = I.log
        self.facts = I.facts
        self.pdeps = I.pdeps
        self.exc = exc
        self.tags = dict(I.tags)
        self.choices = list(I.choicelog)

    @property
    def opaque(self):
        """data-dependent decisions whose condition has no value number"""
        return [c for c in self.choices if c[0][0] == 'opaque']


MAX_DEPTH = 24
UNROLL = 160


class Func:
    """function object"""
    __slots__ = ('node', 'module', 'closure', 'defaults', 'kwdefaults', 'name', 'cls', 'cached', 'gen', 'kind', 'localset')

    def __init__(self, node, module, closure, defaults, kwdefaults, name, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.cls = cls
        self.cached = None
        self.kind = None      # staticmethod, classmethod, property
        self.gen = False
        self.localset = None

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, self.name)


class Cls:
    __slots__ = ('node', 'module', 'name', 'bases', 'env', 'enum', 'members', 'closure')

    def __init__(self, node, module, name, bases):
        self.node = node
        self.module = module
        self.name = name
        self.bases = bases
        self.env = {}
        self.enum = False
        self.members = []

    def lookup(self, name):
        if name in self.env:
            return self.env[name], self
        for b in self.bases:
            if b.k == 'cls':
                r = b.c.lookup(name)
                if r is not None:
                    return r
        return None

    def has_ext_base(self):
        for b in self.bases:
            if b.k == 'cls':
                if b.c.has_ext_base():
                    return True
            elif not (b.k == 'ext' and b.c == 'builtins.object'):
                return True
        return False

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if b.k == 'cls':
                out += b.c.mro_names()
            elif b.k == 'ext':
                out.append(b.c.split('.')[-1])
        return out


EXC_PARENTS = {
    'ValueError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'], 'IndexError': ['LookupError', 'Exception'],
    'KeyError': ['LookupError', 'Exception'], 'NameError': ['Exception'], 'UnboundLocalError': ['NameError', 'Exception'],
    'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'StopIteration': ['Exception'], 'RuntimeError': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'AssertionError': ['Exception'], 'ImportError': ['Exception'],
    'OverflowError': ['ArithmeticError', 'Exception'], 'LinAlgError': ['ValueError', 'Exception'],
    'UnicodeError': ['ValueError', 'Exception'],
}


def exc_matches(exc, handler):
    return handler in ('Exception', 'BaseException') or exc == handler or handler in EXC_PARENTS.get(exc, [])


class Interp:
    def __init__(self, project=None):
        self.project = project or Project()
        self.base_heap = {}
        self.heap = {}
        self.frames = []
        self.facts = {}
        self.log = []
        self.pdeps = EMPTY
        self.oracle = Oracle([])
        self.noid = 0
        self.lay = {}                   # object -> where its elements lie in its buffer ('own': all of it, in order)
        self.ctx = ()
        self.tags = {}
        self.choicelog = []
        self.loading = []
        self.modlog = []
        self.budget = 0
        self.symcount = 0
        self.spec_depth = 0
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'branches': 0, 'stmts': 0, 'loops': 0, 'incomplete': 0}
        self.hooks = {}
        self.draws = None               # n -> n numbers of [0, 1): what a uniform draw returns, when a check fixes it
        self.split_depth = 14
        self.in_loop = 0
        self.accs = {}
        from . import npm
        self.npm = npm
        for m in list(self.project.modules):
            pass

    # ------------------------------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------------------------------
    def load_module(self, name):
        m = self.project.modules.get(name)
        if m is None:
            return None
        if m.state == 'new':
            # parent packages first
            if '.' in name:
                self.load_module(name.rsplit('.', 1)[0])
            if m.state != 'new':
                return m
            m.state = 'loading'
            saved = (self.frames, self.heap, self.facts, self.log, self.pdeps, self.oracle, self.ctx)
            self.heap = self.base_heap
            self.frames = [Frame('<module>', m, m.env)]
            self.log = self.modlog
            self.ctx = (('module', name),)
            self.oracle = Oracle([])
            m.env['__name__'] = vstr(name)
            m.env['__file__'] = vstr(m.path)
            try:
                self.exec_block(m.tree.body)
            except RaiseSig as e:
                self.modlog.append(('module_raise', name, e.exc, e.msg, e.where))
            finally:
                self.base_heap = self.heap
                (self.frames, self.heap, self.facts, self.log, self.pdeps, self.oracle, self.ctx) = saved
                if saved[1] is not self.base_heap:
                    for k, v in self.base_heap.items():
                        self.heap.setdefault(k, v)
            m.state = 'done'
            if '.' in name:
                parent, child = name.rsplit('.', 1)
                self.project.modules[parent].env[child] = V('mod', c=name)
        return m

    def load_all(self, roots=('CommDspy',)):
        for n in sorted(self.project.modules):
            if n.split('.')[0] in roots:
                self.load_module(n)

    def resolve(self, dotted):
        """public dotted name -> V (through package exports); AnchorMissing when absent"""
        parts = dotted.split('.')
        m = self.load_module(parts[0])
        if m is None:
            raise AnchorMissing(dotted)
        i = 1
        v = V('mod', c=m.name)
        for p in parts[i:]:
            v2 = self.peek_attr(v, p)
            if v2 is None:
                raise AnchorMissing('%s (no %r)' % (dotted, p))
            v = v2
        return v

    def peek_attr(self, v, p):
        if v.k == 'mod':
            m = self.project.modules[v.c]
            if p in m.env:
                return m.env[p]
            sub = v.c + '.' + p
            if sub in self.project.modules:
                self.load_module(sub)
                return V('mod', c=sub)
            return None
        if v.k == 'cls':
            r = v.c.lookup(p)
            return r[0] if r else None
        return None

    # ------------------------------------------------------------------------------------------
    # exploration
    # ------------------------------------------------------------------------------------------
    def explore(self, entry, max_paths=400, step_budget=400000):
        """entry(I) -> V ; returns list of Path.  Complete when self.last_complete is True"""
        stack = [[]]
        out = []
        self.last_complete = True
        while stack:
            if len(out) >= max_paths:
                self.last_complete = False
                self.stats['incomplete'] += 1
                break
            dec = stack.pop()
            self.reset()
            self.oracle = Oracle(dec)
            self.budget = step_budget
            try:
                v = entry(self)
                out.append(Path('return', v, self))
            except RetSig as r:
                out.append(Path('return', r.v, self))
            except RaiseSig as r:
                out.append(Path('raise', r.val, self, r))
            except Abort as a:
                self.last_complete = False
                self.stats['incomplete'] += 1
                out.append(Path('abort', None, self, a))
            except RecursionError:
                self.last_complete = False
                self.stats['incomplete'] += 1
                out.append(Path('abort', None, self, None))
            self.stats['paths'] += 1
            stack.extend(self.oracle.alternatives())
        return out

    def reset(self):
        self.heap = dict(self.base_heap)
        self.frames = [Frame('<driver>', self.project.modules['CommDspy'], {})]
        self.facts = {}
        self.log = []
        self.pdeps = EMPTY
        self.noid = 10 ** 6
        self.lay = {}
        self.ctx = ()
        self.tags = {}
        self.choicelog = []
        self.symcount = 0
        self.in_loop = 0
        self.spec_depth = 0
        self.unrolltag = ()

    unrolltag = ()

    def choose(self, n, info=None):
        self.stats['branches'] += 1
        c = self.oracle.choose(n)
        self.choicelog.append((info if info is not None else ('opaque',), c))
        return c

    def snapshot(self):
        f = self.frames[-1]
        return (dict(self.heap), dict(f.env), dict(self.facts), list(self.log), self.pdeps, list(self.choicelog), dict(self.tags), list(f.yields) if f.yields is not None else None)

    def restore(self, s):
        f = self.frames[-1]
        self.heap = dict(s[0])
        f.env.clear()
        f.env.update(s[1])
        self.facts = dict(s[2])
        self.log = list(s[3])
        self.pdeps = s[4]
        self.choicelog = list(s[5])
        self.tags = dict(s[6])
        f.yields = list(s[7]) if s[7] is not None else None

    def sub_explore(self, thunk, cap=48):
        base = self.snapshot()
        saved = self.oracle
        nf = len(self.frames)
        res = []
        stack = [[]]
        while stack and len(res) < cap:
            dec = stack.pop()
            self.restore(base)
            self.oracle = Oracle(dec)
            ctx, il, ut = self.ctx, self.in_loop, self.unrolltag
            sig = None
            try:
                thunk()
            except Sig as s:
                sig = s
            del self.frames[nf:]
            self.ctx, self.in_loop, self.unrolltag = ctx, il, ut
            res.append((sig, self.snapshot()))
            stack.extend(self.oracle.alternatives())
        if stack:
            self.stats['incomplete'] += 1
            self.last_complete = False
        self.oracle = saved
        self.restore(base)
        return res

    def join_snaps(self, snaps, keep_first_oids=False):
        """join of several snapshots"""
        cur = snaps[0]
        for s in snaps[1:]:
            if keep_first_oids:
                j = Joiner(cur[0], s[0], lambda key: key[0])
            else:
                j = Joiner(cur[0], s[0], lambda key: self.new_oid())
            j.heap()
            env = {}
            for k in set(cur[1]) | set(s[1]):
                if k in cur[1] and k in s[1]:
                    env[k] = j.val(cur[1][k], s[1][k])
                else:
                    env[k] = V('maybe_unbound')
            facts = {k: v for k, v in cur[2].items() if s[2].get(k, None) == v}
            seen = set(map(id, cur[3]))
            log = list(cur[3]) + [e for e in s[3] if id(e) not in seen]
            ys = None
            if cur[7] is not None and s[7] is not None:
                ys = cur[7] if len(cur[7]) >= len(s[7]) else s[7]
            cur = (j.out, env, facts, log, cur[4] | s[4], cur[5], {k: v for k, v in cur[6].items() if s[6].get(k) == v}, ys)
        return cur

    # ------------------------------------------------------------------------------------------
    # heap
    # ------------------------------------------------------------------------------------------
    def new_oid(self):
        self.noid += 1
        return self.noid

    def site(self, node=None):
        return (self.ctx, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.unrolltag)

    def fresh_buf(self, node):
        if self.ctx and self.ctx[0][0] == 'module' and len(self.frames) == 1:
            return ('glob', self.frames[0].module.name, getattr(node, 'lineno', 0))
        self.symcount += 1
        if self.in_loop:
            return ('fresh', self.site(node))
        return ('fresh', self.site(node), self.symcount)

    def alloc(self, obj, node=None):
        oid = self.new_oid()
        if not obj.bufs:
            obj = obj.rep(bufs={self.fresh_buf(node): True})
            if isinstance(obj, Arr):
                self.lay[oid] = 'own'
        self.heap[oid] = obj
        return ref(oid)

    def arr(self, node=None, **kw):
        a = Arr(**kw)
        return self.alloc(a, node)

    def obj(self, v):
        if v.k == 'ref':
            return self.heap.get(v.x)
        return None

    def getarr(self, v):
        o = self.obj(v)
        return o if isinstance(o, Arr) else None

    def fxof(self, v):
        if v.k == 'ref':
            o = self.heap.get(v.x)
            if o is None:
                return v.fx
            if isinstance(o, Arr):
                if v.fx is NOFX:
                    return o.fx
                return merge_fx(o.fx, v.fx)
            if isinstance(o, Lst):
                fs = [v.fx, o.fx] + [self.fxof(x) for x in (o.items or [])] + ([self.fxof(o.ev)] if o.ev is not None else [])
                return fx_union(fs)
            if isinstance(o, Dct):
                fs = [v.fx, o.fx] + [self.fxof(x) for x in (o.items or {}).values()] + ([self.fxof(o.ev)] if o.ev is not None else [])
                return fx_union(fs)
            if isinstance(o, Inst):
                return merge_fx(o.fx, v.fx)
            if isinstance(o, Itr):
                return merge_fx(o.fx, v.fx)
        if v.k == 'tuple' and v.x:
            return fx_union([v.fx] + [self.fxof(x) for x in v.x])
        return v.fx

    def bufs_of(self, v, depth=0):
        """all buffers reachable from the value"""
        if depth > 4:
            return {}
        if v.k == 'ref':
            o = self.heap.get(v.x)
            if o is None:
                return {}
            r = dict(o.bufs)
            if isinstance(o, Lst):
                for x in (o.items or []) + ([o.ev] if o.ev is not None else []):
                    r = join_bufs(r, self.bufs_of(x, depth + 1))
            elif isinstance(o, Dct):
                for x in list((o.items or {}).values()) + ([o.ev] if o.ev is not None else []):
                    r = join_bufs(r, self.bufs_of(x, depth + 1))
            elif isinstance(o, Inst):
                for x in o.attrs.values():
                    r = join_bufs(r, self.bufs_of(x, depth + 1))
            return r
        if v.k == 'tuple':
            r = {}
            for x in v.x or ():
                r = join_bufs(r, self.bufs_of(x, depth + 1))
            return r
        if v.k == 'top' and isinstance(v.x, dict):
            return dict(v.x)
        return {}

    def where(self, node):
        f = self.frames[-1]
        return (f.module.rel if f.module else '?', f.name, getattr(node, 'lineno', 0), _src(node))

    def emit(self, *ev):
        self.log.append(ev)

    def write_effect(self, bufs, node, what):
        for b, must in bufs.items():
            if b[0] != 'fresh':
                self.emit('write', b, must, self.where(node), what)

    def written(self, oid, newobj, node, what='in-place update'):
        """strong update of oid; weakens every other object sharing a buffer"""
        old = self.heap[oid]
        self.write_effect(old.bufs, node, what)
        self.heap[oid] = newobj
        bs = set(old.bufs)
        at = None
        for o, st in list(self.heap.items()):
            if o != oid and isinstance(st, Arr) and not bs.isdisjoint(st.bufs):
                if isinstance(newobj, Arr) and st.bufs == old.bufs and o in self.lay and oid in self.lay:
                    if at is None:
                        la = self.layout(oid)
                        at = {int(q): ix for ix, q in np.ndenumerate(la)} if la is not None else False
                    n = self.through(st, self.layout(o), newobj, at) if at is not False else None
                    if n is not None:
                        self.heap[o] = n.rep(fx=fx_join((st.fx, newobj.fx)))
                        continue
                nf = fx_join((st.fx, newobj.fx)) if isinstance(newobj, Arr) else st.fx
                self.heap[o] = st.rep(elem=None, const=None, fx=nf, lo=None, hi=None)

    def layout(self, oid):
        """positions of the elements of an array in its only buffer, when that is known exactly"""
        st, l = self.heap.get(oid), self.lay.get(oid)
        if l is None or not isinstance(st, Arr) or st.shape is None or len(st.bufs) != 1:
            return None
        (b, must), = st.bufs.items()
        if not must or not (b[0] == 'fresh' and len(b) == 3 or b[0] == 'arg'):
            return None
        ds = [d.cint() if d is not None else None for d in st.shape]
        if any(d is None for d in ds) or int(np.prod(ds)) > 20000:
            return None
        if isinstance(l, str):
            return np.arange(int(np.prod(ds))).reshape(ds)
        return l if list(l.shape) == ds else None

    def view_of(self, child, parent, fn):
        """child is a view of parent: fn selects the same elements of an array of positions"""
        if child.k == 'ref' and parent.k == 'ref' and isinstance(self.heap.get(child.x), Arr) and isinstance(self.heap.get(parent.x), Arr) and self.heap[child.x].bufs == self.heap[parent.x].bufs:
            try:
                l = self.layout(parent.x)
                if l is not None:
                    self.lay[child.x] = fn(l)
            except Exception:
                pass
        return child

    def through(self, st, lay, new, at):
        """an array after elements of its buffer were written through another one"""
        if lay is None:
            return None
        if not any(int(q) in at for q in lay.flat):
            return st
        if st.const is not None and new.const is not None:
            c = st.const.copy()
            for ix, q in np.ndenumerate(lay):
                if int(q) in at:
                    c[ix] = new.const[at[int(q)]]
            return st.rep(const=c, elem=lambda idx, e=self.npm.from_const(c).elem: e(idx), lo=None, hi=None)
        e, f = st.elem, new.elem
        if new.elem is None:
            return None

        def elem(idx):
            ix = tuple(i.cint() for i in idx)
            if any(i is None or not 0 <= i < d for i, d in zip(ix, lay.shape)):
                return None
            q = int(lay[ix])
            return f(tuple(P.Poly.const(i) for i in at[q])) if q in at else e(idx) if e is not None else None
        return st.rep(const=None, elem=self.npm.memo(elem), lo=None, hi=None)

    def fail(self, exc, node, msg=''):
        self.emit('fail', exc, self.where(node), msg)
        raise RaiseSig(exc, False, self.where(node), msg)

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0 and self.ctx and self.ctx[0][0] != 'module':
            raise Abort('budget')

    def newsym(self, pref, lo=None, isint=True):
        self.symcount += 1
        name = '%s#%d' % (pref, self.symcount)
        at = ('s', name)
        P.RESID.pop(at, None)
        P.BOUNDS.pop(at, None)
        P.INT_SYMS.discard(name)
        if isint:
            P.INT_SYMS.add(name)
        if lo is not None:
            P.BOUNDS[at] = lo
        return Poly.sym(name)

    # ------------------------------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------------------------------
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.tick()
        self.stats['stmts'] += 1
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.emit('unsupported', type(s).__name__, self.where(s))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.frames[-1].env[n.id] = top()
            return
        m(s)

    def st_Expr(self, s):
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Import(self, s):
        for a in s.names:
            self.import_module(a.name, s)
            if a.asname:
                self.bind(a.asname, self.modval(a.name))
            else:
                self.bind(a.name.split('.')[0], self.modval(a.name.split('.')[0]))

    def modval(self, name):
        if name in self.project.modules:
            return V('mod', c=name)
        alias = {'numpy': 'numpy'}
        return V('ext', c=alias.get(name, name))

    def import_module(self, name, node):
        root = name.split('.')[0]
        if root in self.project.ROOTS:
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                if self.load_module('.'.join(parts[:i])) is None:
                    self.fail('ImportError', node, 'No module named %r' % name)
        else:
            self.emit('extimport', name, self.where(node))

    def st_ImportFrom(self, s):
        modname = s.module or ''
        cur = self.frames[-1].module
        if s.level:
            base = cur.name if cur.is_pkg else cur.name.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                base = base.rsplit('.', 1)[0]
            modname = base + ('.' + modname if modname else '')
        root = modname.split('.')[0]
        if root in self.project.ROOTS or modname in self.project.modules:
            self.import_module(modname, s)
            m = self.project.modules.get(modname)
            for a in s.names:
                if a.name == '*':
                    names = m.env.get('__all__')
                    for k, v in list(m.env.items()):
                        if not k.startswith('_'):
                            self.bind(k, v)
                    continue
                v = m.env.get(a.name)
                if v is None and modname + '.' + a.name in self.project.modules:
                    self.load_module(modname + '.' + a.name)
                    v = V('mod', c=modname + '.' + a.name)
                if v is None:
                    self.emit('unresolved', '%s.%s' % (modname, a.name), self.where(s), 'import')
                    self.fail('ImportError', s, 'cannot import name %r from %r' % (a.name, modname))
                self.bind(a.asname or a.name, v)
        else:
            self.emit('extimport', modname, self.where(s))
            for a in s.names:
                if a.name == '*':
                    self.emit('unsupported', 'star import of ' + modname, self.where(s))
                    continue
                self.bind(a.asname or a.name, V('ext', c=modname + '.' + a.name))

    def bind(self, name, v):
        f = self.frames[-1]
        if name in f.globals_decl:
            self.emit('globalwrite', f.module.name + '.' + name, self.where(f.node), name)
            return
        if name in f.nonlocals:
            fr = f.closure
            while fr is not None:
                if name in fr.env:
                    fr.env[name] = v
                    return
                fr = fr.closure
            return
        f.env[name] = v

    def st_Global(self, s):
        f = self.frames[-1]
        if f.name != '<module>':
            f.globals_decl.update(s.names)

    def st_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def st_FunctionDef(self, s):
        v = self.make_func(s, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.bind(s.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def make_func(self, s, name, cls=None):
        f = self.frames[-1]
        prefix = '' if f.name in ('<module>', '<driver>') else (f.name + '.')
        q = prefix + name
        defaults = []
        for i, d in enumerate(s.args.defaults):
            pos = (s.args.posonlyargs + s.args.args)
            pn = pos[len(pos) - len(s.args.defaults) + i].arg
            defaults.append(self.retag(self.ev(d), ('default', q, pn)))
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.retag(self.ev(d), ('default', q, a.arg))
        closure = f if f.name not in ('<module>',) else None
        if closure is not None and getattr(f, 'is_class', False):
            closure = f.closure
        fo = Func(s, f.module, closure, defaults, kwd, q, cls)
        fo.gen = not isinstance(s, ast.Lambda) and _has_yield(s)
        return V('func', c=fo)

    def retag(self, v, buf):
        """give a default-argument object its own region name"""
        if v.k == 'ref':
            o = self.heap.get(v.x)
            if o is not None and hasattr(o, 'bufs') and len(o.bufs) == 1:
                b = next(iter(o.bufs))
                if b[0] in ('glob', 'fresh'):
                    self.heap[v.x] = o.rep(bufs={buf: True})
        return v

    def decorate(self, d, v, s):
        n = _dotted(d.func) if isinstance(d, ast.Call) else _dotted(d)
        if n in ('staticmethod', 'classmethod', 'property') and v.k == 'func':
            v.c.kind = n
            return v
        if n and n.split('.')[-1] in ('setter', 'getter', 'deleter'):
            v.c.kind = 'setter'
            return v
        dv = None
        try:
            dv = self.ev(d)
        except RaiseSig:
            return v
        tgt = dv
        if dv.k == 'ext' and dv.c.startswith('functools.') or dv.k == 'extpartial':
            nm = dv.c.split('.')[-1]
            if nm in ('lru_cache', 'cache', 'cached_property') and v.k == 'func':
                v.c.cached = nm
                return v
            if nm == 'wraps':
                return v
            return v
        if dv.k == 'func':
            return self.call(dv, [v], {}, d)
        return v

    def st_ClassDef(self, s):
        f = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        prefix = '' if f.name in ('<module>', '<driver>') else (f.name + '.')
        c = Cls(s, f.module, prefix + s.name, bases)
        for b in bases:
            if b.k == 'ext' and b.c in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag', 'enum.StrEnum'):
                c.enum = True
            if b.k == 'cls' and b.c.enum:
                c.enum = True
        fr = Frame(prefix + s.name, f.module, c.env, f if f.name != '<module>' else None, None, s)
        fr.is_class = True
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        for v in c.env.values():
            if v.k == 'func' and v.c.cls is None:
                v.c.cls = c
        if c.enum:
            for st in s.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    nme = st.targets[0].id
                    val = c.env.get(nme)
                    if val is not None and not nme.startswith('_') and val.k != 'func':
                        # aliases share the first member
                        alias = None
                        for (mn, mv) in c.members:
                            if mv.k == val.k == 'num' and mv.p == val.p:
                                alias = mn
                        if alias:
                            c.env[nme] = c.env[alias]
                            continue
                        c.members.append((nme, val))
                        c.env[nme] = V('enum', c=(c.module.name + '.' + c.name, nme), x=val)
        self.bind(s.name, V('cls', c=c))

    def st_Return(self, s):
        raise RetSig(self.ev(s.value) if s.value is not None else NONE)

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                o = self.obj(b)
                if isinstance(o, (Lst, Dct)):
                    self.write_effect(o.bufs, t, 'del item')
                    if isinstance(o, Lst):
                        ix = self.ev(t.slice).cint() if not isinstance(t.slice, ast.Slice) else None
                        if o.items is not None and ix is not None and -len(o.items) <= ix < len(o.items):
                            it = list(o.items)
                            del it[ix]
                            self.heap[b.x] = o.rep(items=it)
                        else:
                            self.heap[b.x] = o.rep(items=None, ev=o.ev or self.join_vals(o.items or []))
                    else:
                        self.heap[b.x] = o.rep(items=None, ev=o.ev or self.join_vals(list((o.items or {}).values())))

    def st_Assert(self, s):
        v = self.ev(s.test)
        t = self.truth(v, s.test)
        if t is False:
            raise RaiseSig('AssertionError', True, self.where(s))

    def st_Raise(self, s):
        if s.exc is None:
            raise RaiseSig(self.tags.get('curexc', 'Exception'), True, self.where(s))
        v = self.ev(s.exc)
        name = 'Exception'
        if v.k == 'exc':
            name = v.c
        elif v.k == 'ext':
            name = v.c.split('.')[-1]
        elif v.k == 'cls':
            name = v.c.name
            self.reg_exc(v.c)
        elif v.k == 'ref' and isinstance(self.obj(v), Inst) and self.obj(v).cls:
            name = self.obj(v).cls.name
            self.reg_exc(self.obj(v).cls)
        raise RaiseSig(name, True, self.where(s), _src(s), v)

    def reg_exc(self, c):
        EXC_PARENTS.setdefault(c.name, c.mro_names()[1:] + sum((EXC_PARENTS.get(n, []) for n in c.mro_names()[1:]), []))

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.setattr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            ix = self.ev_index(t.slice)
            self.setitem(b, ix, v, node)

    def unpack(self, t, v, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, node, want=None if star else n)
        if items is None:
            fx = self.fxof(v)
            o = self.obj(v)
            for i, e in enumerate(t.elts):
                if isinstance(o, Arr):
                    self.assign(e, self.npm.getitem(self, v, num(i), node), node)
                elif isinstance(o, (Lst, Itr)) and o.ev is not None:
                    self.assign(e, o.ev, node)
                else:
                    self.assign(e, top(fx, x=v.x if v.k == 'top' else None), node)
            return
        if star:
            k = star[0]
            after = n - k - 1
            mid = items[k:len(items) - after]
            seq = items[:k] + [self.alloc(Lst(list(mid)), node)] + items[len(items) - after:]
        else:
            seq = items
            if len(items) != n:
                self.fail('ValueError', node, 'cannot unpack %d values into %d targets' % (len(items), n))
        for e, x in zip(t.elts, seq):
            self.assign(e, x, node)

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            v = self.ev(s.value)
            self.bind_aug(t.id, self.augop(s.op, cur, v, s), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            cur = self.getattr(b, t.attr, t)
            v = self.ev(s.value)
            self.setattr(b, t.attr, self.augop(s.op, cur, v, s), s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            ix = self.ev_index(t.slice)
            cur = self.getitem(b, ix, t)
            v = self.ev(s.value)
            o = self.obj(cur)
            if isinstance(o, Arr):
                r = self.binop(s.op, cur, v, s)
            else:
                r = self.augop(s.op, cur, v, s)
            self.setitem(b, ix, r, s)

    def bind_aug(self, name, v, s):
        self.bind(name, v)

    def augop(self, op, cur, v, node):
        o = self.obj(cur)
        if isinstance(o, Arr):
            r = self.binop(op, cur, v, node)
            ra = self.getarr(r)
            nt = o.nt
            if ra is None:
                new = o.rep(elem=None, const=None, fx=merge_fx(o.fx, self.fxof(r)), lo=None, hi=None)
            else:
                if o.nt == 'int' and ra.nt == 'float':
                    self.emit('castfail', self.where(node))
                    if o.shape is not None:
                        self.fail('TypeError', node, 'in-place operation cannot cast float result to integer array')
                const = ra.const
                if const is not None and o.const is not None:
                    try:
                        const = const.astype(o.const.dtype)
                    except Exception:
                        const = None
                new = o.rep(elem=ra.elem, const=const, fx=ra.fx, lo=ra.lo, hi=ra.hi)
                if o.w is not None and ra.w != o.w:
                    new = self.npm.narrow(new.rep(const=ra.const), o.w)
            self.written(cur.x, new, node, 'augmented assignment')
            return cur
        if isinstance(o, Lst) and isinstance(op, ast.Add) and o.kind in ('list', 'deque') and getattr(o.kind, 'maxlen', None) is None:
            self.write_effect(o.bufs, node, 'list +=')
            items = self.iter_items(v, node)
            if items is not None and o.items is not None:
                self.heap[cur.x] = o.rep(items=list(o.items) + list(items))
            else:
                self.heap[cur.x] = o.rep(items=None, ev=self.join_vals(list(o.items or []) + ([o.ev] if o.ev else []) + (items or [self.iter_elem(v, node)])))
            return cur
        if cur.k == 'top' and isinstance(cur.x, dict) and cur.x:
            self.write_effect({b: False for b in cur.x}, node, 'augmented assignment')
        return self.binop(op, cur, v, node)

    def st_If(self, s):
        v = self.ev(s.test)
        t = self.truth_known(v)
        if t is None and (self.oracle.pos >= self.split_depth or self.in_loop > 1) and not self._has_exit(s):
            self.joined_if(s, v)
            return
        if t is None:
            t = self.truth(v, s.test)
        else:
            self.pdeps = self.pdeps | self.fxof(v).deps
        self.exec_block(s.body if t else s.orelse)

    def _has_exit(self, s):
        for n in ast.walk(s):
            if isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                return True
        return False

    def joined_if(self, s, v):
        res = []
        self.pdeps = self.pdeps | self.fxof(v).deps

        def thunk():
            t = self.truth(v, s.test)
            self.exec_block(s.body if t else s.orelse)
        res = self.sub_explore(thunk)
        self.after_sub(res, s)

    def after_sub(self, res, node):
        norm = [st for sig, st in res if sig is None]
        others = [(sig, st) for sig, st in res if sig is not None]
        opts = ([None] if norm else []) + others
        i = 0
        if len(opts) > 1:
            i = self.choose(len(opts))
        if opts[i] is None:
            j = self.join_snaps(norm) if len(norm) > 1 else norm[0]
            self.restore(j)
        else:
            sig, st = opts[i]
            self.restore(st)
            raise sig

    # -- loops ------------------------------------------------------------------------------------
    def st_For(self, s):
        it = self.ev(s.iter)
        self.for_loop(s, it, lambda v: self.assign(s.target, v, s), lambda: self.exec_block(s.body), s.orelse)

    st_AsyncFor = st_For

    def for_loop(self, s, it, bindf, bodyf, orelse=()):
        items = self.iter_items(it, s, limit=UNROLL)
        self.pdeps = self.pdeps | (self.fxof(it).deps if it.k in ('range',) else EMPTY)
        self.stats['loops'] += 1
        if items is not None and len(items) <= UNROLL:
            saved = self.unrolltag
            try:
                for k, x in enumerate(items):
                    self.unrolltag = saved + (k,)
                    bindf(x)
                    try:
                        bodyf()
                    except CntSig:
                        continue
                    except BrkSig:
                        return
            finally:
                self.unrolltag = saved
            self.exec_block(orelse)
            return
        n = self.iter_len(it, s)
        isym = self.newsym('i', 0)
        if n is not None:
            P.RESID[next(iter(isym.atoms()))] = n

        def body():
            bindf(self.iter_elem(it, s, isym))
            bodyf()
        nz = n is not None and cmp0(n, '>') is True
        self.abstract_loop(s, body, orelse, at_least_once=nz, isym=next(iter(isym.atoms())), n=n)

    def st_While(self, s):
        self.stats['loops'] += 1

        def body():
            v = self.ev(s.test)
            t = self.truth(v, s.test)
            if not t:
                raise _LoopEnd()
            self.exec_block(s.body)
        # try a bounded concrete unrolling while the condition is decided
        k = 0
        while k < UNROLL:
            v = self.ev(s.test)
            t = self.truth_known(v)
            if t is None:
                break
            self.pdeps = self.pdeps | self.fxof(v).deps
            if t is False:
                self.exec_block(s.orelse)
                return
            saved = self.unrolltag
            self.unrolltag = saved + (k,)
            try:
                self.exec_block(s.body)
            except CntSig:
                pass
            except BrkSig:
                return
            finally:
                self.unrolltag = saved
            k += 1
        self.abstract_loop(s, body, s.orelse, at_least_once=False, is_while=True)

    def abstract_loop(self, s, body, orelse, at_least_once=False, isym=None, n=None, is_while=False):
        entry = self.snapshot()
        head = entry
        exits = []
        outs = []
        self.in_loop += 1
        first_round_out = None
        stores = {}
        try:
            for rnd in range(7):
                self.restore(head)
                res = self.sub_explore(body, cap=40)
                norm = [st for sig, st in res if sig is None or isinstance(sig, CntSig)]
                exits = [st for sig, st in res if isinstance(sig, (BrkSig, _LoopEnd))]
                outs = [(sig, st) for sig, st in res if isinstance(sig, (RetSig, RaiseSig))]
                if not norm:
                    break
                if isym is not None:
                    norm = [(h, e, {k: v for k, v in f.items() if not _mentions(k, isym)}, l, p, c, t, y) for (h, e, f, l, p, c, t, y) in norm]
                new = self.join_snaps([head] + norm, keep_first_oids=True)
                if self.snap_leq(new, head):
                    head = (head[0], head[1], head[2], new[3], new[4], head[5], head[6], new[7])
                    break
                if rnd >= 4:
                    new = self.widen(head, new)
                head = new
            last_norm = norm
        finally:
            self.in_loop -= 1
        # possible continuations after the loop
        opts = []
        if is_while:
            fall = exits
            if exits:
                opts.append(('norm', self.join_snaps(exits) if len(exits) > 1 else exits[0]))
        else:
            if at_least_once and last_norm:
                after = self.join_snaps(list(last_norm), keep_first_oids=True)
                after = (after[0], after[1], after[2], head[3], head[4], after[5], after[6], after[7])
                opts.append(('norm', after))
            elif last_norm or not (exits or outs):
                opts.append(('norm', head))
            else:
                opts.append(('norm', head))
            if exits:
                ex = self.join_snaps(exits) if len(exits) > 1 else exits[0]
                opts.append(('brk', ex))
        for sig, st in outs:
            opts.append((sig, st))
        if not opts:
            self.restore(head)
            return
        # drop duplicate raise continuations
        uniq, seen = [], set()
        for o in opts:
            key = o[0] if isinstance(o[0], str) else (type(o[0]).__name__, getattr(o[0], 'exc', None), getattr(o[0], 'where', None), id(o[0]) if isinstance(o[0], RetSig) else 0)
            if key in seen:
                continue
            seen.add(key)
            uniq.append(o)
        i = self.choose(len(uniq)) if len(uniq) > 1 else 0
        kind, st = uniq[i]
        self.restore(st)
        if isinstance(kind, Sig):
            raise kind
        if kind == 'norm' and orelse:
            self.exec_block(orelse)

    def widen(self, a, b):
        """drop relational facts of everything that still changes"""
        heap = dict(b[0])
        for o, st in b[0].items():
            if a[0].get(o) is not st and isinstance(st, Arr):
                heap[o] = st.rep(elem=None, const=None, shape=None if a[0].get(o) is None or a[0][o].shape != st.shape else st.shape)
        return (heap,) + tuple(b[1:])

    def snap_leq(self, new, old):
        """is the joined state no larger than the previous head (on what is reachable from the frame)"""
        if set(new[1]) - set(old[1]):
            return False
        for k, v in new[1].items():
            if not self.val_same(v, old[1][k], new[0], old[0], 0):
                return False
        for o, st in old[0].items():
            if new[0].get(o) is not st and not self.obj_same(new[0].get(o), st, new[0], old[0], 0):
                return False
        return True

    def val_same(self, a, b, ha, hb, d):
        if a is b:
            return True
        if a.k != b.k or a.fx != b.fx:
            return False
        if a.k == 'num':
            return a.p == b.p and a.nt == b.nt
        if a.k == 'ref':
            if a.x != b.x:
                return False
            return True
        if a.k == 'tuple':
            return a.x is not None and b.x is not None and len(a.x) == len(b.x) and all(self.val_same(x, y, ha, hb, d + 1) for x, y in zip(a.x, b.x))
        if a.k == 'top':
            return set(a.x or ()) == set(b.x or ())
        return a.c == b.c and (a.k in ('str', 'none', 'enum', 'ellipsis', 'maybe_unbound') or a.x == b.x)

    def obj_same(self, a, b, ha, hb, d):
        if a is b:
            return True
        if type(a) is not type(b) or set(a.bufs) != set(b.bufs) or a.fx != b.fx:
            return False
        if isinstance(a, Arr):
            return a.shape == b.shape and a.nt == b.nt and a.elem is b.elem and (a.const is b.const) and a.lo == b.lo and a.hi == b.hi
        if isinstance(a, Lst):
            if (a.items is None) != (b.items is None):
                return False
            if a.items is not None:
                return len(a.items) == len(b.items) and all(self.val_same(x, y, ha, hb, d + 1) for x, y in zip(a.items, b.items))
            return (a.ev is None) == (b.ev is None) and (a.ev is None or self.val_same(a.ev, b.ev, ha, hb, d + 1))
        if isinstance(a, Dct):
            if (a.items is None) != (b.items is None):
                return False
            if a.items is not None:
                return set(a.items) == set(b.items) and all(self.val_same(a.items[k], b.items[k], ha, hb, d + 1) for k in a.items)
            return (a.ev is None) == (b.ev is None) and (a.ev is None or self.val_same(a.ev, b.ev, ha, hb, d + 1))
        if isinstance(a, Inst):
            return set(a.attrs) == set(b.attrs) and all(self.val_same(a.attrs[k], b.attrs[k], ha, hb, d + 1) for k in a.attrs)
        return True

    def st_Break(self, s):
        raise BrkSig()

    def st_Continue(self, s):
        raise CntSig()

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if v.k != 'top' else v, s)
        self.exec_block(s.body)

    st_AsyncWith = st_With

    def st_Try(self, s):
        pend = None
        try:
            pre = self.snapshot() if s.handlers else None
            mark = len(self.log)
            try:
                self.exec_block(s.body)
            except RaiseSig as e:
                done = False
                for h in s.handlers:
                    if self.handler_matches(h, e.exc):
                        if h.name:
                            self.bind(h.name, e.val or V('exc', c=e.exc))
                        self.tags['curexc'] = e.exc
                        self.emit('caught', e.exc, e.where)
                        self.exec_block(h.body)
                        done = True
                        break
                if not done:
                    raise
            else:
                # an operation the analysis does not model may still fail: explore each handler
                # speculatively from the state at the start of the body as well
                spec = 0
                if s.handlers and any(e[0] in ('unknowncall', 'unsupported') for e in self.log[mark:]):
                    spec = self.choose(1 + len(s.handlers))
                if spec:
                    h = s.handlers[spec - 1]
                    self.restore(pre)
                    self.choicelog.append(('speculative handler', self.where(h)))
                    self.tags['speculative'] = True
                    if h.name:
                        self.bind(h.name, top())
                    self.exec_block(h.body)
                else:
                    self.exec_block(s.orelse)
        except Sig as g:
            pend = g
        if s.finalbody:
            self.exec_block(s.finalbody)
        if pend is not None:
            raise pend

    def handler_matches(self, h, exc):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            n = (_dotted(t) or 'Exception').split('.')[-1]
            if exc_matches(exc, n):
                return True
        return False

    def st_Match(self, s):
        subj = self.ev(s.subject)
        for c in s.cases:
            m = self.match_pat(c.pattern, subj, s)
            if m and c.guard is not None:
                m = self.truth(self.ev(c.guard), c.guard)
            if m:
                self.exec_block(c.body)
                return

    def match_pat(self, p, v, node):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.ev(p.value), node), node)
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return v.k == 'none'
            return self.truth(self.compare('==', v, num(p.value), node), node)
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, node) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, node):
                return False
            if p.name:
                self.bind(p.name, v)
            return True
        self.emit('unsupported', 'match pattern', self.where(node))
        return bool(self.choose(2))

    # ------------------------------------------------------------------------------------------
    # truth
    # ------------------------------------------------------------------------------------------
    def truth_known(self, v):
        if v.k == 'num':
            if v.p is None:
                return None
            c = v.p.cval()
            if c is not None:
                return c != 0
            r = cmp0(v.p, '!=')
            if r is not None:
                return r
            return self.fact(v.p)
        if v.k == 'none':
            return False
        if v.k == 'str':
            return None if v.c is None else bool(v.c)
        if v.k == 'tuple':
            return bool(v.x) if v.x is not None else None
        if v.k in ('func', 'cls', 'mod', 'ext', 'enum', 'bound', 'extm', 'type', 'exc'):
            return True
        if v.k == 'range':
            n = self.range_len(v)
            if n is not None:
                r = cmp0(n, '>')
                return r
            return None
        o = self.obj(v)
        if isinstance(o, Lst):
            return None if o.items is None else bool(o.items)
        if isinstance(o, Dct):
            return None if o.items is None else bool(o.items)
        if isinstance(o, Inst) and o.cls is not None and not o.open:
            if o.cls.lookup('__bool__') is None and o.cls.lookup('__len__') is None:
                return True
        if isinstance(o, Arr):
            if o.const is not None and o.const.size == 1:
                return bool(o.const.reshape(-1)[0])
            if o.const is not None and o.const.size > 1:
                return None
        return None

    def fact(self, p):
        if p in self.facts:
            return self.facts[p]
        q = Poly.const(1) - p
        if q in self.facts:
            return not self.facts[q]
        return None

    def truth(self, v, node):
        self.pdeps = self.pdeps | self.fxof(v).deps
        t = self.truth_known(v)
        if t is not None:
            return t
        o = self.obj(v)
        if isinstance(o, Arr):
            sz = self.npm.size_poly(o)
            if sz is not None and cmp0(sz - 1, '>') is True:
                self.fail('ValueError', node, 'truth value of an array with more than one element is ambiguous')
        c = self.choose(2, info=('fact' if v.k == 'num' and v.p is not None else 'opaque', self.where(node)[:3], _src(node)))
        r = (c == 0)
        if v.k == 'num' and v.p is not None:
            self.facts[v.p] = r
        return r

    # ------------------------------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------------------------------
    def ev(self, e):
        self.tick()
        try:
            return getattr(self, 'ex_' + type(e).__name__)(e)
        except TooBig:
            return top()

    def __getattr__(self, name):
        if name.startswith('ex_'):
            def f(e):
                self.emit('unsupported', name[3:], self.where(e))
                return top()
            return f
        raise AttributeError(name)

    def ex_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return ELL
        if isinstance(v, (bool, int, float)):
            return num(v)
        if isinstance(v, str):
            return vstr(v)
        if isinstance(v, complex):
            return V('num', p=None, nt='complex')
        return top()

    def ex_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node):
        f = self.frames[-1]
        fr = f
        if name not in f.globals_decl:
            while fr is not None:
                if name in fr.env and not (getattr(fr, 'is_class', False) and fr is not f):
                    v = fr.env[name]
                    if v.k == 'maybe_unbound':
                        return top()
                    return v
                fr = fr.closure
            if f.func is not None and name in self.local_names(f.func):
                self.fail('UnboundLocalError', node, 'local variable %r referenced before assignment' % name)
        g = f.module.env
        if name in g:
            v = g[name]
            if v.k == 'maybe_unbound':
                return top()
            return v
        if hasattr(builtins, name):
            return V('ext', c='builtins.' + name)
        self.emit('unresolved', name, self.where(node), 'name')
        self.fail('NameError', node, 'name %r is not defined' % name)

    def local_names(self, fo):
        if fo.localset is None:
            s, g = set(), set()
            n = fo.node
            if not isinstance(n, ast.Lambda):
                for x in _walk_scope(n.body):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        s.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        s.add(x.name)
                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                        g.update(x.names)
            fo.localset = s - g
        return fo.localset

    def ex_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                its = self.iter_items(self.ev(x.value), e)
                if its is None:
                    return top()
                items += its
            else:
                items.append(self.ev(x))
        return vtuple(items)

    def ex_List(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sv = self.ev(x.value)
                its = self.iter_items(sv, e)
                if its is None:
                    return self.alloc(Lst(None, self.join_vals(items + [self.iter_elem(sv, e)])), e)
                items += its
            else:
                items.append(self.ev(x))
        return self.alloc(Lst(items), e)

    def ex_Set(self, e):
        return self.alloc(Lst([self.ev(x) for x in e.elts], kind='set'), e)

    def ex_Dict(self, e):
        items = {}
        ok = True
        vals = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                o = self.obj(vv)
                if isinstance(o, Dct) and o.items is not None:
                    items.update(o.items)
                else:
                    ok = False
                    vals.append(vv)
                continue
            kk = self.hashkey(self.ev(k))
            vals.append(vv)
            if kk is None:
                ok = False
            else:
                items[kk] = vv
        if ok:
            return self.alloc(Dct(items), e)
        return self.alloc(Dct(None, self.join_vals(vals)), e)

    def hashkey(self, v):
        if v.k == 'num' and v.p is not None:
            c = v.p.cval()
            if c is not None:
                return ('n', c)
            return ('p', v.p)
        if v.k == 'str' and v.c is not None:
            return ('s', v.c)
        if v.k == 'none':
            return ('none',)
        if v.k == 'enum' and v.c is not None:
            return ('e', v.c)
        if v.k == 'tuple' and v.x is not None:
            ks = tuple(self.hashkey(x) for x in v.x)
            if all(k is not None for k in ks):
                return ('t', ks)
        if v.k in ('func', 'cls'):
            return (v.k, id(v.c))
        if v.k in ('ext', 'type', 'mod'):
            return (v.k, v.c)
        return None

    def unhashkey(self, k):
        if k[0] == 'n':
            return num(Poly.const(k[1]), 'int' if k[1].denominator == 1 else 'float')
        if k[0] == 'p':
            return num(k[1], 'int')
        if k[0] == 's':
            return vstr(k[1])
        if k[0] == 'none':
            return NONE
        if k[0] == 'e':
            m = self.resolve_enum(k[1])
            return m if m is not None else top()
        if k[0] == 't':
            return vtuple([self.unhashkey(x) for x in k[1]])
        return top()

    def resolve_enum(self, c):
        mod, cls = c[0].rsplit('.', 1)
        m = self.project.modules.get(mod)
        if m and cls in m.env and m.env[cls].k == 'cls':
            return m.env[cls].c.env.get(c[1])
        return None

    def ex_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            self_t = self.truth_known(v)
            if self_t is not None:
                return vbool(not self_t, Fx(self.fxof(v).deps))
            if v.k == 'num' and v.p is not None and v.nt == 'bool':
                return num(Poly.const(1) - v.p, 'bool', v.fx)
            if v.k == 'num' and v.p is not None:
                return num(P.pcmp('==', v.p, Poly.const(0)), 'bool', fx_nonlin([v.fx], 'zero'))
            t = self.truth(v, e)
            return vbool(not t, Fx(self.fxof(v).deps))
        return self.npm.unary(self, e.op, v, e)

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        cur = self.ev(vals[0])
        pend = None  # symbolic conjunction of undecided boolean scalars
        for nxt in vals[1:]:
            t = self.truth_known(cur)
            if t is None:
                if cur.k == 'num' and cur.nt == 'bool' and cur.p is not None and self._pure_bool(nxt):
                    b = self.ev(nxt)
                    if b.k == 'num' and b.nt == 'bool' and b.p is not None:
                        # 0/1 arithmetic keeps the condition decidable later
                        p = cur.p * b.p if isand else cur.p + b.p - cur.p * b.p
                        cur = num(p, 'bool', fx_nonlin([cur.fx, b.fx], 'zero'))
                        continue
                    t = self.truth(cur, e)
                    if t != isand:
                        return cur
                    cur = b
                    continue
                t = self.truth(cur, e)
                if t != isand and cur.k == 'num' and cur.nt == 'bool' and cur.p is None:
                    return vbool(t, cur.fx)
            else:
                self.pdeps = self.pdeps | self.fxof(cur).deps
            if t != isand:
                return cur
            cur = self.ev(nxt)
        return cur

    def _pure_bool(self, e):
        """evaluating the operand cannot fail or have an effect"""
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Await, ast.NamedExpr)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'abs', 'isinstance', 'type'):
                    continue
                return False
        return True

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def ex_Compare(self, e):
        left = self.ev(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.compare_op(op, left, right, e)
            if out is None:
                out = v
            else:
                if out.k == 'num' and v.k == 'num' and out.p is not None and v.p is not None:
                    out = num(out.p * v.p, 'bool', fx_nonlin([out.fx, v.fx], 'zero'))
                else:
                    t = self.truth_known(out)
                    if t is False:
                        return out
                    out = v if t else V('num', p=None, nt='bool', fx=fx_nonlin([self.fxof(out), self.fxof(v)], 'zero'))
            left = right
        return out

    def compare_op(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            fx = Fx(self.fxof(a).deps | self.fxof(b).deps)
            if r is None:
                return V('num', p=None, nt='bool', fx=fx)
            return vbool(r if isinstance(op, ast.Is) else not r, fx)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, node)
            fx = fx_nonlin([self.fxof(a), self.fxof(b)], 'zero')
            if isinstance(r, Poly):
                return num(r if isinstance(op, ast.In) else Poly.const(1) - r, 'bool', fx)
            if r is None:
                return V('num', p=None, nt='bool', fx=fx)
            return vbool(r if isinstance(op, ast.In) else not r, fx)
        return self.compare(self.OPS[type(op)], a, b, node)

    def is_same(self, a, b):
        if 'none' in (a.k, b.k):
            if a.k == b.k:
                return True
            o = b if a.k == 'none' else a
            if o.k in ('top', 'maybe_unbound'):
                return None
            return False
        if a.k == 'enum' and b.k == 'enum':
            return a.c == b.c if a.c and b.c else None
        if a.k == 'type' or b.k == 'type' or a.k == 'ext' or b.k == 'ext' or a.k == 'cls' or b.k == 'cls':
            return self.type_eq(a, b)
        if a.k == 'ref' and b.k == 'ref':
            return True if a.x == b.x else None
        if a.k == 'num' and b.k == 'num' and a.nt == b.nt == 'bool' and a.p is not None and b.p is not None:
            d = cmp0(a.p - b.p, '==')
            return d
        if a.k != b.k and 'top' not in (a.k, b.k):
            return False
        return None

    def type_name(self, v):
        if v.k == 'type':
            return v.c
        if v.k == 'ext':
            n = v.c
            if n.startswith('builtins.'):
                n = n[9:]
            return n
        if v.k == 'cls':
            return v.c.module.name + '.' + v.c.name
        return None

    def type_eq(self, a, b):
        x, y = self.type_name(a), self.type_name(b)
        if x is None or y is None or x == '?' or y == '?':
            return None
        if x == y:
            return True
        syn = {'numpy.int64': 'npint', 'numpy.int_': 'npint', 'numpy.float64': 'npfloat', 'numpy.bool_': 'npbool'}
        return syn.get(x, x) == syn.get(y, y)

    def contains(self, a, b, node):
        o = self.obj(b)
        items = None
        if b.k == 'tuple':
            items = b.x
        elif isinstance(o, Lst):
            items = o.items
        elif isinstance(o, Dct):
            if o.items is None:
                return None
            k = self.hashkey(a)
            if k is None:
                return None
            if k in o.items:
                return True
            if k[0] == 'p' or any(x[0] == 'p' for x in o.items):
                return None
            return False
        elif b.k == 'str' and a.k == 'str':
            if a.c is not None and b.c is not None:
                return a.c in b.c
            return None
        elif isinstance(o, Arr):
            return self.npm.arr_contains(self, a, o, node)
        if b.k == 'extm' and b.c in ('keys',):
            pass
        if isinstance(o, Itr):
            items = o.items
        if items is None:
            return None
        res = []
        for x in items:
            c = self.compare('==', a, x, node)
            t = self.truth_known(c)
            if t is True:
                return True
            res.append((t, c))
        if all(t is False for t, _ in res):
            return False
        if len(res) <= 8 and all(c.k == 'num' and c.p is not None for _, c in res):
            # any-of as 1 - prod(1 - c)
            pr = Poly.const(1)
            for _, c in res:
                pr = pr * (Poly.const(1) - c.p)
            return Poly.const(1) - pr
        return None

    def compare(self, op, a, b, node):
        fa, fb = self.fxof(a), self.fxof(b)
        if self.getarr(a) is not None or self.getarr(b) is not None:
            return self.npm.binary(self, op, a, b, node)
        if a.k == 'num' and b.k == 'num':
            fx = fx_cmp(fa, fb, a, b)
            if a.p is not None and b.p is not None:
                try:
                    return num(P.pcmp(op, a.p, b.p), 'bool', fx, a.np or b.np)
                except TooBig:
                    pass
            return V('num', p=None, nt='bool', fx=fx)
        fx = fx_nonlin([fa, fb], 'zero')
        if op in ('==', '!='):
            r = self.eq(a, b)
            if r is None:
                return V('num', p=None, nt='bool', fx=fx)
            return vbool(r if op == '==' else not r, fx)
        if a.k == 'none' or b.k == 'none':
            if a.k in ('num', 'none', 'str', 'tuple') and b.k in ('num', 'none', 'str', 'tuple'):
                self.fail('TypeError', node, 'ordering comparison with None')
        if a.k == 'str' and b.k == 'str' and a.c is not None and b.c is not None:
            return vbool({'<': a.c < b.c, '<=': a.c <= b.c, '>': a.c > b.c, '>=': a.c >= b.c}[op], fx)
        if {a.k, b.k} == {'str', 'num'}:
            self.fail('TypeError', node, 'ordering comparison between a string and a number')
        if a.k == 'enum' and b.k == 'enum':
            pass
        return V('num', p=None, nt='bool', fx=fx)

    def eq(self, a, b):
        if a.k == 'num' and b.k == 'num':
            if a.p is not None and b.p is not None:
                return cmp0(a.p - b.p, '==')
            return None
        if a.k == 'str' and b.k == 'str':
            return None if a.c is None or b.c is None else a.c == b.c
        if a.k == 'enum' and b.k == 'enum':
            return None if a.c is None or b.c is None else a.c == b.c
        if a.k == 'none' and b.k == 'none':
            return True
        if a.k in ('type', 'ext', 'cls') and b.k in ('type', 'ext', 'cls'):
            return self.type_eq(a, b)
        if a.k == 'tuple' and b.k == 'tuple' and a.x is not None and b.x is not None:
            if len(a.x) != len(b.x):
                return False
            rs = [self.eq(x, y) for x, y in zip(a.x, b.x)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        la, lb = self.obj(a), self.obj(b)
        if isinstance(la, Lst) and isinstance(lb, Lst) and la.items is not None and lb.items is not None:
            return self.eq(vtuple(la.items), vtuple(lb.items))
        simple = {'num', 'str', 'enum', 'none', 'tuple', 'func', 'cls', 'mod'}
        if a.k in simple and b.k in simple and a.k != b.k:
            return False
        if (a.k == 'ref' and isinstance(la, (Lst, Dct)) and b.k in simple) or (b.k == 'ref' and isinstance(lb, (Lst, Dct)) and a.k in simple):
            return False
        return None

    def ex_IfExp(self, e):
        t = self.truth(self.ev(e.test), e.test)
        return self.ev(e.body if t else e.orelse)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def ex_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def ex_JoinedStr(self, e):
        fx = NOFX
        parts = []
        known = True
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value)
                fx = fx.with_deps(self.fxof(x).deps)
                known = False
                if v.format_spec is not None:
                    spec = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                    if spec.endswith('d') and len(spec) <= 4:
                        o = self.obj(x)
                        if x.k in ('none', 'str', 'tuple') or isinstance(o, (Lst, Dct)) or (isinstance(o, Arr)):
                            self.fail('TypeError', v, 'unsupported format string %r for a non-integer' % spec)
                        if x.k == 'num' and x.nt == 'float':
                            self.fail('ValueError', v, 'unknown format code d for float')
            else:
                parts.append(v.value)
        return vstr(''.join(parts) if known else None, fx)

    def ex_FormattedValue(self, e):
        self.ev(e.value)
        return vstr(None)

    def ex_Starred(self, e):
        return self.ev(e.value)

    def ex_Slice(self, e):
        return self.ev_index(e)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return V('slice', x=(self.ev(s.lower) if s.lower else NONE, self.ev(s.upper) if s.upper else NONE, self.ev(s.step) if s.step else NONE))
        if isinstance(s, ast.Tuple):
            return vtuple([self.ev_index(x) for x in s.elts])
        return self.ev(s)

    def ex_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_index(e.slice), e)

    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr, e)

    def ex_Await(self, e):
        return self.ev(e.value)

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        for f in reversed(self.frames):
            if f.yields is not None:
                f.yields.append(v)
                break
        return NONE

    def ex_YieldFrom(self, e):
        v = self.ev(e.value)
        f = self.frames[-1]
        its = self.iter_items(v, e)
        if f.yields is not None:
            f.yields.extend(its if its is not None else [self.iter_elem(v, e)])
        return NONE

    def comp(self, e, eltf):
        """returns ('items', [V]) or ('gen', V, sym, n)"""
        f = self.frames[-1]
        fr = Frame(f.name, f.module, {}, f, f.func, e)
        self.frames.append(fr)
        try:
            return self._comp(e.generators, 0, eltf, e)
        finally:
            self.frames.pop()

    def _comp(self, gens, k, eltf, e):
        if k == len(gens):
            return ('items', [eltf()])
        g = gens[k]
        it = self.ev(g.iter)
        items = self.iter_items(it, e, limit=UNROLL)
        if items is not None and len(items) <= UNROLL:
            out = []
            saved = self.unrolltag
            genv = None
            for n, x in enumerate(items):
                self.unrolltag = saved + (n,)
                self.assign(g.target, x, e)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c), c):
                        ok = False
                        break
                if ok:
                    r = self._comp(gens, k + 1, eltf, e)
                    if r[0] == 'items':
                        out += r[1]
                    else:
                        genv = r[1] if genv is None else self.join_vals([genv, r[1]])
            self.unrolltag = saved
            if genv is not None:
                return ('gen', self.join_vals(out + [genv]), None, None)
            return ('items', out)
        n = self.iter_len(it, e)
        isym = self.newsym('i', 0)
        if n is not None:
            P.RESID[next(iter(isym.atoms()))] = n
        self.assign(g.target, self.iter_elem(it, e, isym), e)
        self.in_loop += 1
        try:
            filt = False
            for c in g.ifs:
                self.ev(c)
                filt = True
            r = self._comp(gens, k + 1, eltf, e)
        finally:
            self.in_loop -= 1
        if r[0] == 'items' and len(r[1]) == 1 and not filt and n is not None:
            return ('gen', r[1][0], next(iter(isym.atoms())), n)
        return ('gen', self.join_vals(r[1]) if r[0] == 'items' else r[1], None, None)

    def ex_ListComp(self, e):
        r = self.comp(e, lambda: self.ev(e.elt))
        if r[0] == 'items':
            return self.alloc(Lst(r[1]), e)
        v = self.alloc(Lst(None, r[1]), e)
        if r[2] is not None:
            o = self.heap[v.x]
            self.heap[v.x] = GenLst(o, r[2], r[3])
        return v

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e):
        r = self.comp(e, lambda: self.ev(e.elt))
        return self.alloc(Lst(None, self.join_vals(r[1]) if r[0] == 'items' and r[1] else (r[1] if r[0] != 'items' else None), kind='set'), e)

    def ex_DictComp(self, e):
        keys = []

        def f():
            keys.append(self.hashkey(self.ev(e.key)))
            return self.ev(e.value)
        r = self.comp(e, f)
        if r[0] == 'items' and all(k is not None for k in keys) and len(keys) == len(r[1]):
            return self.alloc(Dct(dict(zip(keys, r[1]))), e)
        return self.alloc(Dct(None, self.join_vals(r[1]) if r[0] == 'items' else r[1]), e)

    def join_vals(self, vs):
        vs = [v for v in vs if v is not None]
        if not vs:
            return None
        cur = vs[0]
        for v in vs[1:]:
            j = Joiner(self.heap, self.heap, lambda key: self.new_oid())
            cur = j.val(cur, v)
            self.heap.update(j.out)
        return cur

    # ------------------------------------------------------------------------------------------
    # iteration protocol
    # ------------------------------------------------------------------------------------------
    def range_len(self, v):
        lo, hi, st = v.x
        if st.cint() is None or lo.p is None or hi.p is None:
            return None
        k = st.cint()
        d = (hi.p - lo.p) if k > 0 else (lo.p - hi.p)
        n = P.pceil(P.pdiv(d, Poly.const(abs(k)))) if abs(k) != 1 else d
        s = cmp0(n, '>=')
        if s is True:
            return n
        if s is False:
            return Poly.const(0)
        return P.pmax(n, Poly.const(0))

    def iter_len(self, v, node):
        if v.k == 'range':
            return self.range_len(v)
        if v.k == 'tuple' and v.x is not None:
            return Poly.const(len(v.x))
        o = self.obj(v)
        if isinstance(o, Arr) and o.shape:
            return o.shape[0]
        if isinstance(o, GenLst):
            return o.n
        if isinstance(o, (Lst, Itr)) and o.items is not None:
            return Poly.const(len(o.items))
        if isinstance(o, Itr):
            return o.n
        return None

    def iter_items(self, v, node, want=None, limit=512):
        """list of V when the sequence is finite and known"""
        if v.k == 'tuple':
            return list(v.x) if v.x is not None else None
        if v.k == 'range':
            n = self.range_len(v)
            if n is None or n.cint() is None:
                return None
            k = n.cint()
            if k > limit:
                return None
            return [num(v.x[0].p + v.x[2].p * i, 'int', v.fx) for i in range(k)]
        if v.k == 'str' and v.c is not None:
            return [vstr(c) for c in v.c]
        o = self.obj(v)
        if isinstance(o, Lst):
            return list(o.items) if o.items is not None else None
        if isinstance(o, Dct):
            if o.items is None:
                return None
            return [self.unhashkey(k) for k in o.items]
        if isinstance(o, Itr):
            return list(o.items) if o.items is not None else None
        if isinstance(o, Arr):
            if o.shape is None or not o.shape:
                if want is not None and o.shape == ():
                    self.fail('TypeError', node, 'iteration over a 0-d array')
                return None
            n = o.shape[0].cint() if o.shape[0] is not None else None
            if n is None:
                return None
            if n > limit:
                return None
            return [self.npm.getitem(self, v, num(i), node) for i in range(n)]
        if isinstance(o, Inst) and o.cls is not None and o.cls.enum:
            return None
        if v.k == 'cls' and v.c.enum:
            return [v.c.env[m] for m, _ in v.c.members]
        if v.k in ('num', 'none', 'func'):
            self.fail('TypeError', node, 'object is not iterable')
        return None

    def iter_elem(self, v, node, isym=None):
        """a generic element at index isym"""
        fx = self.fxof(v)
        if v.k == 'range':
            if isym is not None and v.x[0].p is not None and v.x[2].p is not None:
                return num(v.x[0].p + v.x[2].p * isym, 'int', v.fx)
            return V('num', nt='int', fx=v.fx)
        if v.k == 'tuple' and v.x:
            return self.join_vals(list(v.x))
        o = self.obj(v)
        if isinstance(o, Arr):
            return self.npm.getitem(self, v, num(isym, 'int') if isym is not None else V('num', nt='int'), node, inbounds=True)
        if isinstance(o, GenLst):
            if isym is not None and o.ev.k == 'num' and o.ev.p is not None:
                return o.ev.w(o.ev.fx) if isym is None else num(o.ev.p.subs({o.sym: isym}), o.ev.nt, o.ev.fx)
            return o.ev
        if isinstance(o, Lst):
            if o.items:
                return self.join_vals(list(o.items))
            return o.ev if o.ev is not None else top(fx)
        if isinstance(o, Dct):
            if o.items is not None:
                return self.join_vals([self.unhashkey(k) for k in o.items]) or top(fx)
            return o.kv if o.kv is not None else top(fx)
        if isinstance(o, Itr):
            if callable(o.ev):
                return o.ev(isym)
            if o.items:
                return self.join_vals(list(o.items))
            return o.ev if o.ev is not None else top(fx)
        if isinstance(o, Inst) and o.cls is not None:
            r = o.cls.lookup('__next__')
            if r:
                return self.call(V('bound', c=r[0].c, x=v), [], {}, node)
        return top(fx, x=v.x if v.k == 'top' else None)

    # ------------------------------------------------------------------------------------------
    # operators, attributes, items
    # ------------------------------------------------------------------------------------------
    def binop(self, op, a, b, node):
        return self.npm.binary(self, type(op).__name__, a, b, node)

    def getattr(self, b, name, node):
        if b.k == 'mod':
            m = self.project.modules[b.c]
            if name in m.env:
                v = m.env[name]
                return top() if v.k == 'maybe_unbound' else v
            sub = b.c + '.' + name
            if sub in self.project.modules and self.project.modules[sub].state != 'new':
                return V('mod', c=sub)
            if sub in self.project.modules:
                # present on disk but never imported by anything loaded so far
                if self.ctx and self.ctx[0][0] == 'module':
                    pass
                self.load_module(sub)
                return V('mod', c=sub)
            if name in ('__name__', '__file__', '__doc__'):
                return vstr(None)
            self.emit('unresolved', b.c + '.' + name, self.where(node), 'module attribute')
            self.fail('AttributeError', node, 'module %r has no attribute %r' % (b.c, name))
        if b.k == 'ext':
            return self.npm.ext_attr(self, b, name, node)
        if b.k == 'enum':
            if name == 'value':
                if isinstance(b.x, V):
                    return b.x.adddeps(b.fx.deps)
                return V('num', nt='int', fx=b.fx)
            if name == 'name':
                return vstr(b.c[1] if b.c else None, b.fx)
            return top(b.fx)
        if b.k == 'cls':
            r = b.c.lookup(name)
            if r is not None:
                v = r[0]
                if v.k == 'func' and v.c.kind == 'classmethod':
                    return V('bound', c=v.c, x=b)
                return v
            if name == '__name__':
                return vstr(b.c.name)
            if name == '__members__' and b.c.enum:
                return self.alloc(Dct({('s', m): b.c.env[m] for m, _ in b.c.members}), node)
            if b.c.has_ext_base():
                return top()
            self.emit('unresolved', '%s.%s' % (b.c.name, name), self.where(node), 'class attribute')
            self.fail('AttributeError', node, 'type object %r has no attribute %r' % (b.c.name, name))
        if b.k == 'super':
            cls, selfv = b.x
            for base in cls.bases:
                if base.k == 'cls':
                    r = base.c.lookup(name)
                    if r is not None:
                        if r[0].k == 'func':
                            return V('bound', c=r[0].c, x=selfv)
                        return r[0]
            return V('ext', c='builtins.object.' + name)
        if b.k == 'none':
            self.fail('AttributeError', node, "None has no attribute %r" % name)
        if b.k == 'func':
            if name in ('__name__', '__doc__', '__module__', '__wrapped__'):
                return vstr(b.c.name)
            fa = b.c
            key = ('fattr', id(fa), name)
            self.emit('funcattr_read', fa.qual, name, self.where(node))
            return top()
        if b.k == 'type':
            return V('ext', c='%s.%s' % (b.c, name))
        o = self.obj(b)
        if isinstance(o, Inst):
            if name in o.attrs:
                v = o.attrs[name]
                return top() if v.k == 'maybe_unbound' else v
            if name == '__class__':
                return V('cls', c=o.cls) if o.cls else top()
            if name == '__dict__':
                return self.alloc(Dct(None, top()), node)
            if o.cls is not None:
                r = o.cls.lookup(name)
                if r is not None:
                    v = r[0]
                    if v.k == 'func':
                        if v.c.kind == 'staticmethod':
                            return v
                        if v.c.kind == 'property':
                            return self.call(V('bound', c=v.c, x=b), [], {}, node)
                        if v.c.kind == 'classmethod':
                            return V('bound', c=v.c, x=V('cls', c=o.cls))
                        return V('bound', c=v.c, x=b)
                    return v
                if o.cls.lookup('__getattr__') is not None or o.open or o.cls.has_ext_base():
                    return top(o.fx)
                self.emit('unresolved', '%s.%s' % (o.cls.name, name), self.where(node), 'instance attribute')
                self.fail('AttributeError', node, '%r object has no attribute %r' % (o.cls.name, name))
            if '__ext__' in o.attrs and name in ('fit', 'predict', 'fit_predict'):
                return V('extm', c=name, x=b)
            return top(o.fx)
        return self.npm.attr(self, b, o, name, node)

    def setattr(self, b, name, v, node):
        o = self.obj(b)
        if isinstance(o, Inst):
            attrs = dict(o.attrs)
            if o.cls is not None:
                r = o.cls.lookup(name)
                if r is not None and r[0].k == 'func' and r[0].c.kind == 'setter':
                    self.call(V('bound', c=r[0].c, x=b), [v], {}, node)
                    return
            self.write_effect(o.bufs, node, 'attribute %s' % name)
            attrs[name] = v
            self.heap[b.x] = o.rep(attrs=attrs)
            return
        if b.k == 'func':
            self.emit('globalwrite', 'function attribute %s.%s' % (b.c.qual, name), self.where(node), name)
            return
        if b.k == 'mod':
            self.emit('globalwrite', 'module attribute %s.%s' % (b.c, name), self.where(node), name)
            return
        if b.k == 'cls':
            self.emit('globalwrite', 'class attribute %s.%s' % (b.c.name, name), self.where(node), name)
            return
        if b.k == 'ext':
            self.emit('globalwrite', 'library attribute %s.%s' % (b.c, name), self.where(node), name)
            return
        if isinstance(o, Arr):
            if name == 'shape':
                self.write_effect(o.bufs, node, 'shape assignment')
            elif name in ('flat', 'real', 'imag', 'T'):
                self.written(b.x, o.rep(elem=None, const=None, fx=merge_fx(o.fx, self.fxof(v))), node)
            return
        if b.k == 'none':
            self.fail('AttributeError', node, 'None has no attribute %r' % name)

    def getitem(self, b, ix, node):
        return self.npm.getitem(self, b, ix, node)

    def setitem(self, b, ix, v, node):
        return self.npm.setitem(self, b, ix, v, node)

    # ------------------------------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------------------------------
    def ex_Call(self, e):
        # super() and a few syntactic forms
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2:
            cv, sv = self.ev(e.args[0]), self.ev(e.args[1])
            if cv.k == 'cls':
                return V('super', x=(cv.c, sv))
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = self.frames[-1]
            if f.func is not None and f.func.cls is not None:
                names = [a.arg for a in f.func.node.args.posonlyargs + f.func.node.args.args]
                return V('super', x=(f.func.cls, f.env.get(names[0], TOP)))
        fv = self.ev(e.func)
        args, kwargs, exact = [], {}, True
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value)
                its = self.iter_items(sv, e)
                if its is None:
                    exact = False
                else:
                    args += its
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                o = self.obj(v)
                if isinstance(o, Dct) and o.items is not None:
                    for kk, vv in o.items.items():
                        if kk[0] == 's':
                            kwargs[kk[1]] = vv
                else:
                    exact = False
            else:
                kwargs[k.arg] = v
        if not exact:
            self.emit('unsupported', 'star arguments', self.where(e))
            fx = fx_unknown([self.fxof(x) for x in args] + [self.fxof(x) for x in kwargs.values()])
            return top(fx)
        return self.call(fv, args, kwargs, e)

    def call(self, fv, args, kwargs, node):
        self.stats['calls'] += 1
        self.tick()
        if fv.k == 'func':
            return self.call_func(fv.c, args, kwargs, node)
        if fv.k == 'bound':
            if fv.c.kind == 'staticmethod':
                return self.call_func(fv.c, args, kwargs, node)
            return self.call_func(fv.c, [fv.x] + args, kwargs, node)
        if fv.k == 'cls':
            return self.instantiate(fv.c, args, kwargs, node)
        if fv.k == 'ext':
            return self.npm.call_ext(self, fv.c, args, kwargs, node)
        if fv.k == 'extm':
            return self.npm.call_method(self, fv.x, fv.c, args, kwargs, node)
        if fv.k == 'partial':
            f, a, k = fv.x
            return self.call(f, list(a) + args, {**k, **kwargs}, node)
        if fv.k == 'type':
            return self.npm.call_ext(self, 'builtins.' + fv.c if '.' not in fv.c else fv.c, args, kwargs, node)
        o = self.obj(fv)
        if isinstance(o, Inst) and o.cls is not None:
            r = o.cls.lookup('__call__')
            if r is not None and r[0].k == 'func':
                return self.call_func(r[0].c, [fv] + args, kwargs, node)
        if isinstance(o, Inst) and '__ext__' in o.attrs:
            r = self.npm.extobj_call(self, fv, o, '__call__', args, kwargs, node)
            if r is not None:
                return r
        if fv.k in ('num', 'none', 'str', 'tuple') or isinstance(o, (Arr, Lst, Dct)):
            self.fail('TypeError', node, 'object is not callable')
        fx = fx_unknown([self.fxof(x) for x in [fv] + args] + [self.fxof(x) for x in kwargs.values()])
        self.emit('unknowncall', _src(node), self.where(node))
        return top(fx)

    def instantiate(self, c, args, kwargs, node):
        if c.enum:
            if args:
                for m, val in c.members:
                    if self.eq(val, args[0]) is True:
                        return c.env[m].adddeps(self.fxof(args[0]).deps)
                if all(self.eq(val, args[0]) is False for m, val in c.members):
                    self.fail('ValueError', node, 'not a valid %s' % c.name)
            return V('enum', c=None, x=None, fx=self.fxof(args[0]) if args else NOFX)
        if any(n in ('Exception', 'BaseException') or n in EXC_PARENTS for n in c.mro_names()):
            self.reg_exc(c)
            return V('exc', c=c.name)
        inst = self.alloc(Inst(c, {}), node)
        r = c.lookup('__init__')
        if r is not None and r[0].k == 'func':
            self.call_func(r[0].c, [inst] + args, kwargs, node)
        elif c.has_ext_base() or any(_dotted(d if not isinstance(d, ast.Call) else d.func) in ('dataclass', 'dataclasses.dataclass') for d in c.node.decorator_list):
            o = self.heap[inst.x]
            attrs = dict(o.attrs)
            fields = [s for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            names = [s.target.id for s in fields]
            for n, a in zip(names, args):
                attrs[n] = a
            attrs.update(kwargs)
            for s in fields:
                if s.target.id not in attrs:
                    attrs[s.target.id] = c.env.get(s.target.id, top())
            self.heap[inst.x] = o.rep(attrs=attrs, open=c.has_ext_base())
        elif args or kwargs:
            self.fail('TypeError', node, '%s() takes no arguments' % c.name)
        return inst

    def bind_args(self, fo, args, kwargs, node):
        a = fo.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos):
            if a.vararg is None:
                self.fail('TypeError', node, '%s() takes %d positional arguments but %d were given' % (fo.name, len(pos), len(args)))
            env[a.vararg.arg] = vtuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = vtuple(())
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in env and k in pos:
                self.fail('TypeError', node, '%s() got multiple values for argument %r' % (fo.name, k))
            if k in pos or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                extra[('s', k)] = v
            else:
                self.fail('TypeError', node, '%s() got an unexpected keyword argument %r' % (fo.name, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(Dct(extra), node)
        nd = len(fo.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                di = i - (len(pos) - nd)
                if di >= 0:
                    env[n] = fo.defaults[di]
                else:
                    self.fail('TypeError', node, '%s() missing required argument %r' % (fo.name, n))
        for n in kwonly:
            if n not in env:
                if n in fo.kwdefaults:
                    env[n] = fo.kwdefaults[n]
                else:
                    self.fail('TypeError', node, '%s() missing keyword argument %r' % (fo.name, n))
        return env

    def call_func(self, fo, args, kwargs, node):
        if len(self.frames) > MAX_DEPTH:
            fx = fx_unknown([self.fxof(x) for x in args] + [self.fxof(x) for x in kwargs.values()])
            self.emit('unsupported', 'call depth', self.where(node))
            return top(fx)
        env = self.bind_args(fo, args, kwargs, node)
        self.stats['functions'].add(fo.qual)
        hook = self.hooks.get(('func', fo.qual))
        if hook is not None:
            r = hook(self, fo, env, node)
            if r is not None:
                return r
        self.emit('call', fo.qual, dict(env), self.where(node), len(self.frames))
        if fo.cached:
            self.emit('cachedcall', fo.qual, self.where(node))
        fr = Frame(fo.name, fo.module, env, fo.closure, fo, node)
        if fo.gen:
            fr.yields = []
        self.frames.append(fr)
        saved = self.ctx
        self.ctx = self.ctx + ((fo.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) + self.unrolltag,)
        try:
            if isinstance(fo.node, ast.Lambda):
                ret = self.ev(fo.node.body)
            else:
                try:
                    self.exec_block(fo.node.body)
                    ret = NONE
                except RetSig as r:
                    ret = r.v
            if fo.gen:
                ys = self.frames[-1].yields or []
                ret = self.alloc(Itr(ys if not self.in_loop else None, self.join_vals(ys) if ys else None), node)
        finally:
            del self.frames[self.frames.index(fr):]
            self.ctx = saved
        if fo.cached:
            b = {('glob', 'cache of ' + fo.qual, 0): True}
            o = self.obj(ret)
            if isinstance(o, (Arr, Lst, Dct)):
                self.heap[ret.x] = o.rep(bufs=b)
        self.emit('ret', fo.qual, ret, self.where(node))
        return ret


class _LoopEnd(Sig):
    pass


class GenLst(Lst):
    """list built by a comprehension of symbolic length: element = ev[sym := index]"""
    __slots__ = ('sym', 'n')

    def __init__(self, base, sym, n):
        Lst.__init__(self, None, base.ev, base.bufs, base.fx, base.kind)
        self.sym = sym
        self.n = n

    def rep(self, **kw):
        a = GenLst(self, self.sym, self.n)
        changed = False
        for k, v in kw.items():
            setattr(a, k, v)
            if k in ('items', 'ev'):
                changed = True
        if changed:
            return Lst(a.items, a.ev, a.bufs, a.fx, a.kind)
        return a


def merge_fx(a, b):
    if b is NOFX:
        return a
    if a is NOFX:
        return b
    lin = dict(a.lin)
    for s, c in b.lin.items():
        lin[s] = c if lin.get(s, c) == c else 'U'
    deg = dict(a.deg)
    for s, c in b.deg.items():
        deg[s] = c if deg.get(s, c) == c else 'U'
    return Fx(a.deps | b.deps, lin, deg)


def fx_union(fs):
    """container of several values: keep a facet only where all dependent parts agree"""
    deps = EMPTY
    lin, deg = {}, {}
    live = [f for f in fs if f is not NOFX]
    if not live:
        return NOFX
    for f in live:
        deps = deps | f.deps
    for which, out in (('lin', lin), ('deg', deg)):
        for s in set().union(*[set(getattr(f, which)) for f in live]) if live else ():
            cs = {getattr(f, which)[s] for f in live if s in getattr(f, which)}
            out[s] = cs.pop() if len(cs) == 1 else 'U'
    return Fx(deps, lin, deg)


def fx_cmp(fa, fb, a=None, b=None):
    """facets of a comparison: scale invariant only when both sides share the degree (or one side is 0)"""
    za = a is not None and a.k == 'num' and a.p is not None and a.p.cval() == 0
    zb = b is not None and b.k == 'num' and b.p is not None and b.p.cval() == 0
    if za:
        r = fx_nonlin([fb], 'zero')
        return r.with_deps(fa.deps)
    if zb:
        r = fx_nonlin([fa], 'zero')
        return r.with_deps(fb.deps)
    return fx_nonlin([fa, fb], 'zero')


def _src(n):
    if n is None:
        return ''
    s = getattr(n, '_srctext', None)
    if s is not None:
        return s
    try:
        s = ast.unparse(n)
    except Exception:
        s = ''
    s = ' '.join(s.split())
    s = s if len(s) < 160 else s[:157] + '...'
    n._srctext = s
    return s


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def _has_yield(fn):
    for x in _walk_scope(fn.body):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_scope(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only the first iterable is evaluated in this scope; targets are local to the comprehension
            todo.append(n.generators[0].iter)
            continue
        todo.extend(ast.iter_child_nodes(n))


def _mentions(k, atom):
    return isinstance(k, Poly) and atom in k.all_atoms()
