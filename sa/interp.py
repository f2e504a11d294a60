"""Abstract interpreter: maps the functions of the analysed program to value graphs.

Forward, join-merging analysis over the syntax tree.  Values are value numbers
(terms.py); at a join the values of both branches are combined by a gated node, so
every function is traversed once per calling context, never once per path.  Loops
over containers of known shape are unrolled; anything else is widened to an opaque
value (U), and results that depend on a widened value are reported as undecided.
"""
import ast
from fractions import Fraction
from . import terms as t
from .terms import E, Node, ite, apply

# ------------------------------------------------------------- leaf values


class Leaf:
    __slots__ = ()

    def _id(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __eq__(self, o):
        return type(self) is type(o) and self._id() == o._id()

    def __hash__(self):
        return hash((type(self).__name__, self._id()))


class U(Leaf):
    """Widened / unsupported value."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '?(%s)' % self.why


class Raise(Leaf):
    __slots__ = ('exc', 'msg')

    def __init__(self, exc, msg=''):
        self.exc = exc
        self.msg = msg

    def __repr__(self):
        return 'raise %s(%s)' % (self.exc, self.msg)


class Undef(Leaf):
    __slots__ = ()

    def __repr__(self):
        return 'undefined'


UNDEF = Undef()


class Sym(Leaf):
    """Symbolic non-numeric input (a string, an opaque object...)."""
    __slots__ = ('name', 'kind')

    def __init__(self, name, kind='str'):
        self.name, self.kind = name, kind

    def __repr__(self):
        return '$' + self.name


_texts = [0]


def text(tag, parts=None):
    """Text built by the code from parts that are not all known: the same parts give the same text,
    nothing is known about different ones."""
    try:
        name = None if parts is None else tag + '|'.join(show(x) for x in parts)
    except Exception:
        name = None
    if name is None or len(name) > 300:
        _texts[0] += 1
        name = '%s#%d' % (tag, _texts[0])
    return Sym(name, 'text')


class Tup(Leaf):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return '(' + ', '.join(show(x) for x in self.items) + ')'


class SliceV(Leaf):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Ref(Leaf):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return '<obj%d>' % self.id


class Func(Leaf):
    __slots__ = ('node', 'mod', 'frame', 'cls', 'name', 'defaults', 'kind', 'flags')

    def __init__(self, node, mod, frame, cls, name, defaults, kind='', flags=()):
        self.node, self.mod, self.frame, self.cls = node, mod, frame, cls
        self.name, self.defaults, self.kind, self.flags = name, defaults, kind, flags

    def _id(self):
        return (id(self.node), self.kind, self.frame, id(self.cls))

    def __repr__(self):
        return '<function %s>' % self.qual

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name


class Prop(Leaf):
    __slots__ = ('fget', 'fset', 'cached')

    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class Bound(Leaf):
    __slots__ = ('func', 'obj')

    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Builtin(Leaf):
    __slots__ = ('name', 'obj')

    def __init__(self, name, obj=None):
        self.name, self.obj = name, obj

    def __repr__(self):
        return '<builtin %s>' % self.name


class Ext(Leaf):
    """Object of a library outside the repository, by dotted name."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path


class SuperV(Leaf):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModV(Leaf):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Cls:
    """A repository class."""

    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.attrs = {}
        self._mro = None
        self.enum = False
        self.members = []

    def __repr__(self):
        return '<class %s>' % self.name

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, Cls):
                    seqs.append(list(b.mro()))
            seqs.append([b for b in self.bases if isinstance(b, Cls)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in q[1:] for q in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in q if x is not c] for q in seqs]
                seqs = [q for q in seqs if q]
            self._mro = out
        return self._mro

    def ext_bases(self):
        r = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    r.append(b.path)
        return r

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def find_after(self, cls, name):
        m = self.mro()
        i = m.index(cls) + 1 if cls in m else 1
        for c in m[i:]:
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def issub(self, other):
        return other in self.mro()


def class_rel(a, b):
    """isinstance(x, a) known true -> isinstance(x, b)?"""
    if isinstance(a, Cls) and isinstance(b, Cls):
        if a.issub(b):
            return True
        if not b.issub(a):
            return False
    return None


t._class_rel_hook[0] = class_rel


def show(v):
    if isinstance(v, E):
        return t.show(v)
    if isinstance(v, Node):
        return t.showv(v)
    return repr(v)


# ------------------------------------------------------------------- heap
class HObj:
    __slots__ = ('kind', 'cls', 'data', 'meta')

    def __init__(self, kind, cls, data, meta=None):
        self.kind, self.cls, self.data, self.meta = kind, cls, data, meta


class State:
    __slots__ = ('heap', 'ctx', 'it')

    def __init__(self, it, heap=None, ctx=None):
        self.it = it
        self.heap = heap if heap is not None else {}
        self.ctx = ctx or t.Ctx()

    def fork(self, ctx=None):
        return State(self.it, dict(self.heap), ctx or self.ctx)

    def get(self, ref):
        v = self.heap.get(ref.id)
        if v is None:
            v = self.it.base.get(ref.id)
        return v

    def put(self, ref, obj):
        self.heap[ref.id] = obj

    def alloc(self, kind, cls, data, meta=None):
        self.it.next_id += 1
        r = Ref(self.it.next_id)
        self.heap[r.id] = HObj(kind, cls, data, meta)
        return r


class NotBool(Exception):
    pass


class Signal(Exception):
    pass


EXIT_NORMAL = object()

# builtins called once for each container an argument may be
EACH = {'list.extend', 'dict.update', 'map', 'filter', 'zip', 'enumerate', 'sorted', 'reversed'}

# builtins that do not look into a container
WHOLE = {'noop', 'print', 'delattr', 'identity', 'super', 'isinstance', 'len', 'type', 'id', 'hasattr', 'getattr', 'setattr', 'callable', 'bool'}

BUILTIN_NAMES = {'len', 'range', 'enumerate', 'zip', 'sum', 'min', 'max', 'abs', 'round', 'int',
                 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'sorted', 'reversed',
                 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'print', 'any', 'all',
                 'map', 'filter', 'super', 'type', 'pow', 'divmod', 'object', 'repr', 'callable',
                 'property', 'staticmethod', 'classmethod', 'frozenset', 'iter', 'next', 'id', 'hash',
                 'format', 'open', 'input', 'vars', 'dir', 'slice', 'complex', 'delattr', 'bytes', 'ord', 'chr',
                 'exec', 'eval', 'globals', 'locals', '__import__', 'memoryview', 'bytearray', 'bin', 'hex', 'oct'}
EXC_NAMES = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
             'NotImplementedError', 'ZeroDivisionError', 'RuntimeError', 'NameError', 'ImportError',
             'StopIteration', 'ArithmeticError', 'OverflowError', 'AssertionError', 'LookupError',
             'Warning', 'UserWarning', 'DeprecationWarning', 'OSError', 'IOError', 'FileNotFoundError',
             'KeyboardInterrupt', 'ModuleNotFoundError', 'BaseException', 'UnboundLocalError',
             'NotImplemented', 'SystemExit', 'PermissionError', 'RecursionError', 'FloatingPointError',
             'UnicodeDecodeError'}


class Interp:
    def __init__(self, project, overrides=None, sign_rule=None, max_depth=60, max_steps=600000,
                 extra_paths=None):
        self.p = project
        self.base = {}            # module-level heap
        self.next_id = 0
        self.modenv = {}          # module name -> dict of globals
        self.loading = set()
        self.overrides = overrides or {}   # (module, name) -> value
        self.views = {}                    # array id -> [(id of a view, positions)]
        self.view_of = {}                  # view id -> (array id, positions)
        self.lost_writes = None            # names written on unknown objects (inside widened loops)
        self.exact_round = None            # round(x, n) of a symbol is x for n >= this
        self.func_overrides = {}           # (module, qualname) -> callable(interp, st, args, kwargs)
        self.sign_rule = sign_rule or (lambda n: t.POS)
        self.depth = 0
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.visited = {}
        self.unk = 0
        self.try_depth = 0
        self.events = None        # optional effect log
        self.attr_hook = None
        self.callstack = []
        self.trace_writes = None
        from . import npmodel
        self.np = npmodel
        self.ext_hook = None
        self.sym_kinds = {}
        self.warn = {}

    # ------------------------------------------------------------ modules
    def module_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        env = {}
        self.modenv[name] = env
        env['__name__'] = name
        m = self.p.module(name)
        if m is None or m.tree is None:
            return env
        st = State(self, self.base)
        fr = st.alloc('frame', None, {}, ('mod', name))
        env['__frame__'] = fr
        save = (self.depth, self.try_depth, self.events, self.trace_writes)
        self.depth, self.try_depth, self.events, self.trace_writes = 0, 0, None, None
        try:
            self.exec_module(m, st, fr, env)
        finally:
            self.depth, self.try_depth, self.events, self.trace_writes = save
        return env

    def exec_module(self, m, st, fr, env):
        cx = Cx(m.name, fr, None, None)
        for s in m.tree.body:
            if isinstance(s, ast.If) and 'name' in ast.dump(s.test) and '__main__' in ast.dump(s.test):
                continue
            try:
                self.exec_block([s], st, cx)
            except (t.TooBig, RecursionError, Signal) as e:
                pass
            obj = st.get(fr)
            if isinstance(obj, HObj):
                env.update(obj.data)
        for (mn, nm), v in self.overrides.items():
            if mn == m.name:
                env[nm] = v
                d = dict(st.get(fr).data)
                d[nm] = v
                st.put(fr, HObj('frame', None, d, ('mod', m.name)))

    def mod_lookup(self, mod, name):
        if (mod, name) in self.overrides:
            return self.overrides[(mod, name)]
        env = self.module_env(mod)
        v = env.get(name)
        if v is not None or name in env:
            return v
        fr = env.get('__frame__')
        if fr is not None:
            o = self.base.get(fr.id)
            if isinstance(o, HObj) and name in o.data:
                return o.data[name]
        sub = mod + '.' + name
        if sub in self.p.paths:
            return ModV(sub)
        return UNDEF

    def import_name(self, name, level, pkg):
        r = self.p.resolve(name, level, pkg)
        return r

    # ------------------------------------------------------------ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise t.TooBig('step budget')

    def exec_block(self, stmts, st, cx):
        """Returns an exit value: diagram over FALL / ('ret', V) / ('raise', exc) / BREAK / CONT."""
        for i, s in enumerate(stmts):
            self.tick()
            ex = self.exec_stmt(s, st, cx)
            if ex is FALL:
                continue
            if isinstance(ex, Node):
                # some branches leave; run the rest only where control falls through
                cond = apply(lambda x: x is FALL, ex)
                if cond is True:
                    continue
                if cond is False:
                    return ex
                rest = stmts[i + 1:]
                sub = st
                leave_heap = st.pending if hasattr(st, 'pending') else None
                st2 = st.fork(self.refine(st.ctx, cond, True))
                ex2 = self.exec_block(rest, st2, cx)
                self.merge_into(st, cond, st2, st)
                return apply(lambda x, y: y if x is FALL else x, ex, ex2)
            return ex
        return FALL

    def merge_into(self, dst, cond, s1, s2):
        """dst.heap := ite(cond, s1.heap, s2.heap)."""
        h1, h2 = s1.heap, s2.heap
        out = {}
        for k in set(h1) | set(h2):
            a = h1.get(k)
            b = h2.get(k)
            if a is None:
                a = self.base.get(k)
            if b is None:
                b = self.base.get(k)
            if a is b or b is None:
                out[k] = a
            elif a is None:
                out[k] = b
            else:
                out[k] = self.merge_obj(cond, a, b)
        dst.heap = out

    def merge_obj(self, cond, a, b):
        if isinstance(a, HObj) and isinstance(b, HObj) and a.kind == b.kind and a.cls is b.cls:
            if a.kind in ('frame', 'inst'):
                d = {}
                for k in list(a.data) + [k for k in b.data if k not in a.data]:
                    x = a.data.get(k, UNDEF)
                    y = b.data.get(k, UNDEF)
                    d[k] = x if x is y else ite(cond, x, y)
                return HObj(a.kind, a.cls, d, a.meta)
            if a.kind in ('list', 'nd') and len(a.data) == len(b.data) and a.meta == b.meta:
                return HObj(a.kind, a.cls, tuple(x if x is y else ite(cond, x, y)
                                                 for x, y in zip(a.data, b.data)), a.meta)
            if a.kind == 'dict' and set(a.data) == set(b.data):
                return HObj('dict', a.cls, {k: (a.data[k] if a.data[k] is b.data[k] else
                                                ite(cond, a.data[k], b.data[k])) for k in a.data}, a.meta)
        return ite(cond, a, b)

    def refine(self, ctx, cond, val):
        """Facts implied by cond == val (single predicates and conjunctions)."""
        n = 0
        while isinstance(cond, Node) and n < 12:
            n += 1
            allowed = [i for i, k in enumerate(cond.kids) if k is not (not val)]
            if cond.pred.kind == 'sign':
                if len(allowed) == 3 or not allowed:
                    break
                code = {(0,): -1, (1,): 0, (2,): 1, (0, 1): -2, (1, 2): 2, (0, 2): 3}[tuple(allowed)]
                ctx = ctx.with_sign(cond.pred.key[1], code)
            else:
                if len(allowed) != 1:
                    break
                ctx = ctx.with_bool(cond.pred, bool(allowed[0]))
            ks = [cond.kids[i] for i in allowed]
            if len(ks) == 1:
                cond = ks[0]
            elif all(k is ks[0] or k == ks[0] for k in ks):
                cond = ks[0]
            else:
                break
        return ctx

    def branch(self, st, cond, f_true, f_false):
        """Run two alternatives under a boolean diagram and merge their effects."""
        if cond is True:
            return f_true(st)
        if cond is False:
            return f_false(st)
        c2 = self.simp(cond, st.ctx)
        if c2 is True:
            return f_true(st)
        if c2 is False:
            return f_false(st)
        s1 = st.fork(self.refine(st.ctx, c2, True))
        s2 = st.fork(self.refine(st.ctx, c2, False))
        v1 = f_true(s1)
        v2 = f_false(s2)
        self.merge_into(st, c2, s1, s2)
        if v1 is v2:
            return v1
        return ite(c2, v1, v2)

    def simp(self, cond, ctx):
        if isinstance(cond, Node) and (ctx.facts or ctx.bools):
            return t.simplify(cond, ctx)
        return cond

    def clean_cond(self, c):
        """Make every leaf of a condition a boolean (unknowns become opaque predicates)."""
        if c is True or c is False:
            return c

        def leaf(x):
            if x is True or x is False:
                return x
            self.unk += 1
            why = x.why if isinstance(x, U) else repr(x)
            if isinstance(x, Raise):
                return t.mknode(t.pred(('err', x.exc, x.msg)), (False, True))
            return t.mknode(t.pred(('unk', self.unk, why)), (False, True))
        return apply(leaf, c)

    def exec_stmt(self, s, st, cx):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.set_name(st, cx, n.id, U('stmt ' + k))
            return FALL
        return m(s, st, cx)

    def s_Pass(self, s, st, cx):
        return FALL

    def s_Global(self, s, st, cx):
        cx.globals.update(s.names)
        return FALL

    def s_Nonlocal(self, s, st, cx):
        return FALL

    def s_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return FALL
        v = self.ev(s.value, st, cx)
        return self.poison(v)

    def poison(self, v):
        """Inside try blocks, an erroneous value becomes control flow."""
        if not self.try_depth:
            if isinstance(v, Raise) and v.exc == 'NotImplementedError':
                return Exit('raise', v)
            return FALL
        if isinstance(v, Raise):
            return Exit('raise', v)
        if isinstance(v, Node):
            if any(isinstance(x, Raise) for x in t.leaves(v)):
                return apply(lambda x: Exit('raise', x) if isinstance(x, Raise) else FALL, v)
        return FALL

    def s_Assign(self, s, st, cx):
        v = self.ev(s.value, st, cx)
        ex = self.poison(v)
        if isinstance(ex, Exit):
            return ex
        for tg in s.targets:
            e2 = self.assign(tg, v, st, cx)
            if e2 is not None and e2 is not FALL:
                ex = e2 if ex is FALL else apply(lambda a, b: b if a is FALL else a, ex, e2)
        return ex

    def s_AnnAssign(self, s, st, cx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, cx), st, cx)
        return FALL

    def s_AugAssign(self, s, st, cx):
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.ev(ast.Name(tg.id, ast.Load()), st, cx)
        elif isinstance(tg, ast.Attribute):
            obj = self.ev(tg.value, st, cx)
            old = self.getattr(st, obj, tg.attr)
        else:
            obj = self.ev(tg.value, st, cx)
            idx = self.ev_index(tg.slice, st, cx)
            old = self.getitem(st, obj, idx)
        v = self.ev(s.value, st, cx)
        # in-place mutation of lists and arrays
        if isinstance(old, Ref) and isinstance(st.get(old), HObj) and st.get(old).kind in ('list', 'nd') \
                and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            ho = st.get(old)
            new = self.binop(st, s.op, old, v)
            if isinstance(new, Ref) and isinstance(st.get(new), HObj):
                hn = st.get(new)
                if ho.kind == hn.kind and (ho.kind == 'list' or ho.meta == hn.meta):
                    self.note_write(old, '*')
                    if ho.kind == 'nd':
                        self.nd_store(st, old, [(i, x) for i, x in enumerate(hn.data)])
                    else:
                        st.put(old, hn)
                    new = old
        else:
            new = self.binop(st, s.op, old, v)
        if isinstance(tg, ast.Name):
            self.set_name(st, cx, tg.id, new)
        elif isinstance(tg, ast.Attribute):
            self.setattr(st, obj, tg.attr, new)
        else:
            self.setitem(st, obj, idx, new)
        return self.poison(new)

    def assign(self, tg, v, st, cx):
        if isinstance(tg, ast.Name):
            self.set_name(st, cx, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            items = self.iterate(st, v)
            if items is None or (not star and len(items) != n):
                if isinstance(v, Node):
                    for i, e in enumerate(tg.elts):
                        self.assign(e, self.fmap(st, v, lambda x, s2, i=i: self.nth(s2, x, i, n)), st, cx)
                    return
                for i, e in enumerate(tg.elts):
                    if isinstance(v, Raise):
                        self.assign(e, v, st, cx)
                    elif isinstance(v, Sym):
                        self.assign(e, Sym('%s[%d]' % (v.name, i), v.kind), st, cx)
                    else:
                        self.assign(e if not isinstance(e, ast.Starred) else e.value, U('unpack'), st, cx)
                return
            if star:
                j = star[0]
                k = n - j - 1
                for e, x in zip(tg.elts[:j], items[:j]):
                    self.assign(e, x, st, cx)
                mid = items[j:len(items) - k]
                self.assign(tg.elts[j].value, st.alloc('list', None, tuple(mid)), st, cx)
                for e, x in zip(tg.elts[j + 1:], items[len(items) - k:]):
                    self.assign(e, x, st, cx)
                return
            for e, x in zip(tg.elts, items):
                self.assign(e, x, st, cx)
        elif isinstance(tg, ast.Attribute):
            obj = self.ev(tg.value, st, cx)
            self.setattr(st, obj, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            obj = self.ev(tg.value, st, cx)
            idx = self.ev_index(tg.slice, st, cx)
            ex = self.poison(obj)
            if not isinstance(ex, Exit):
                ex = apply(lambda a, b: a if isinstance(a, Exit) and a.kind == 'raise' else b, ex, self.poison(idx))
            if isinstance(ex, Exit) and ex.kind == 'raise':
                return ex
            self.setitem(st, obj, idx, v)
            return ex
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, cx)

    def nth(self, st, x, i, n):
        its = self.iterate(st, x)
        if its is None:
            return U('unpack')
        if len(its) != n:
            return Raise('ValueError', 'unpack')
        return its[i]

    def set_name(self, st, cx, name, v):
        fr = cx.frame
        if name in cx.globals:
            return
        o = st.get(fr)
        if isinstance(o, HObj):
            d = dict(o.data)
            d[name] = v
            st.put(fr, HObj('frame', None, d, o.meta))

    def s_Return(self, s, st, cx):
        v = None if s.value is None else self.ev(s.value, st, cx)
        if self.try_depth and cx.in_try:
            ex = self.poison(v)
            if ex is not FALL:
                return apply(lambda x, y: x if x is not FALL else Exit('ret', y), ex, v)
        if isinstance(v, Node):
            return Exit('ret', v)
        return Exit('ret', v)

    def s_Raise(self, s, st, cx):
        name = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        return Exit('raise', Raise(name, ''))

    def s_Assert(self, s, st, cx):
        return FALL

    def s_Delete(self, s, st, cx):
        for tg in s.targets:
            if isinstance(tg, ast.Subscript):
                obj = self.ev(tg.value, st, cx)
                idx = self.ev_index(tg.slice, st, cx)
                self.delitem(st, obj, idx)
        return FALL

    def delitem(self, st, obj, idx):
        o = st.get(obj) if isinstance(obj, Ref) else None
        if isinstance(o, HObj):
            self.note_write(obj, '*')
            if o.kind == 'dict':
                k = self.dkey(idx)
                d = dict(o.data)
                d.pop(k, None)
                st.put(obj, HObj('dict', o.cls, d, o.meta))
                return
            if o.kind == 'list' and isinstance(idx, E) and idx.is_const():
                l = list(o.data)
                try:
                    del l[int(idx.const())]
                except IndexError:
                    return
                st.put(obj, HObj('list', o.cls, tuple(l), o.meta))

    def s_If(self, s, st, cx):
        c = self.clean_cond(self.truth(st, self.ev(s.test, st, cx)))
        return self.branch(st, c,
                           lambda x: self.exec_block(s.body, x, cx),
                           lambda x: self.exec_block(s.orelse, x, cx))

    def s_With(self, s, st, cx):
        for it in s.items:
            v = self.ev(it.context_expr, st, cx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, U('with'), st, cx)
        return self.exec_block(s.body, st, cx)

    def s_FunctionDef(self, s, st, cx):
        f = self.make_func(s, st, cx)
        self.set_name(st, cx, s.name, f)
        return FALL

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st, cx, cls=None):
        a = s.args
        defaults = {}
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defaults[arg.arg] = self.ev(d, st, cx)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[arg.arg] = self.ev(d, st, cx)
        f = Func(s, cx.mod, cx.frame, cls, s.name, defaults)
        v = f
        for dec in reversed(s.decorator_list):
            v = self.decorate(dec, v, st, cx, cls)
        return v

    def decorate(self, dec, v, st, cx, cls):
        d = dec
        if isinstance(d, ast.Call):
            d = d.func
        nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')
        if nm == 'property':
            return Prop(v)
        if nm == 'cached_property':
            return Prop(v, None, True)
        if nm == 'setter':
            base = d.value
            nmb = base.id if isinstance(base, ast.Name) else None
            old = None
            if cls is not None and isinstance(base, ast.Name):
                old = cls.attrs.get(nmb)
            elif cls is not None and isinstance(base, ast.Attribute):
                b = self.ev(base.value, st, cx)
                if isinstance(b, Cls):
                    _, old = b.find(base.attr)
            if isinstance(old, Prop):
                return Prop(old.fget, v)
            return Prop(None, v)
        if nm in ('getter', 'deleter'):
            return v
        if nm in ('staticmethod', 'classmethod') and isinstance(v, Func):
            return Func(v.node, v.mod, v.frame, v.cls, v.name, v.defaults, nm, v.flags)
        if nm in ('abstractmethod', 'wraps', 'njit', 'jit', 'override', 'abstractproperty'):
            return v
        if nm in ('lru_cache', 'cache') and isinstance(v, Func):
            return Func(v.node, v.mod, v.frame, v.cls, v.name, v.defaults, v.kind, v.flags + (nm,))
        if nm in ('dataclass', 'total_ordering', 'unique'):
            return v
        df = self.ev(dec, st, cx)
        if isinstance(df, (Func, Bound)):
            return self.call(st, df, [v], {})
        return v

    def s_ClassDef(self, s, st, cx):
        bases = []
        for b in s.bases:
            v = self.ev(b, st, cx)
            if isinstance(v, (Cls, Ext)):
                bases.append(v)
            elif isinstance(v, Builtin):
                bases.append(Ext('builtins.' + v.name))
            else:
                bases.append(Ext('?'))
        c = Cls(s.name, cx.mod, s, bases)
        c.enum = any(p.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum', 'Flag') for p in c.ext_bases())
        fr = st.alloc('frame', None, {}, ('class', cx.frame))
        ccx = Cx(cx.mod, fr, c, None)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fcx = Cx(cx.mod, fr, c, None)
                v = self.make_func(b, st, fcx, cls=c)
                # methods close over the enclosing (not class) frame
                v = _reframe(v, cx.frame)
                c.attrs[b.name] = v
                self.set_name(st, ccx, b.name, v)
            else:
                self.exec_block([b], st, ccx)
                o = st.get(fr)
                for k, v in o.data.items():
                    if k not in c.attrs or c.attrs[k] is not v:
                        c.attrs[k] = v
                        c.attrs.setdefault(k, v)
        if c.enum:
            auto = {x.id for b in s.body if isinstance(b, ast.Assign) and isinstance(b.value, ast.Call) and _decname(b.value) == 'auto'
                    for x in b.targets if isinstance(x, ast.Name)}
            for k in list(c.attrs):
                v = c.attrs[k]
                if k.startswith('_') or isinstance(v, (Func, Prop, Cls)):
                    continue
                if any(p.split('.')[-1] == 'StrEnum' for p in c.ext_bases()):
                    # members are strings; a repository base class may convert their case
                    v = k.lower() if k in auto else v
                    new = c.find('__new__')[1]
                    if isinstance(new, Func) and isinstance(v, str):
                        src = ast.unparse(new.node)
                        v = v.upper() if '.upper()' in src else v.lower() if '.lower()' in src else v
                    c.attrs[k] = v
                    if v not in c.members:
                        c.members.append(v)
                    continue
                if k in auto:
                    v = t.num(len(c.members) + 1)
                # aliases share the first member with the same value
                alias = None
                for mem in c.members:
                    mv = st.get(mem).data['value']
                    if mv is v or (type(mv) is type(v) and t.same(mv, v)):
                        alias = mem
                if alias is not None:
                    c.attrs[k] = alias
                    continue
                r = st.alloc('inst', c, {'name': k, 'value': v, '_name_': k, '_value_': v}, 'enum')
                c.attrs[k] = r
                c.members.append(r)
        if any(_decname(d) == 'dataclass' for d in s.decorator_list):
            c.attrs['__dataclass__'] = True
        self.set_name(st, cx, s.name, c)
        return FALL

    def s_Import(self, s, st, cx):
        for a in s.names:
            r = self.p.resolve(a.name)
            if r is not None and a.name.split('.')[0] in ('metku',) or r is not None:
                if a.asname:
                    self.set_name(st, cx, a.asname, ModV(r))
                else:
                    top = a.name.split('.')[0]
                    rr = self.p.resolve(top)
                    self.set_name(st, cx, top, ModV(rr or top))
            elif a.name.split('.')[0] == 'metku':
                return Exit('raise', Raise('ImportError', a.name)) if self.try_depth else FALL
            else:
                nm = a.asname or a.name.split('.')[0]
                self.set_name(st, cx, nm, Ext(a.name if a.asname else a.name.split('.')[0]))
        return FALL

    def ext_name(self, path):
        """A name imported from outside: its value when it is a known constant."""
        if path.split('.')[-1] in ('pi', 'inf', 'e'):
            v = self.np.ext_const(self, path)
            if isinstance(v, t.E):
                return v
        return Ext(path)

    def s_ImportFrom(self, s, st, cx):
        pkg = cx.mod if self.p.is_package(cx.mod) else cx.mod.rsplit('.', 1)[0]
        r = self.p.resolve(s.module or '', s.level, pkg)
        if r is None:
            if s.level or (s.module or '').split('.')[0] == 'metku':
                for a in s.names:
                    self.set_name(st, cx, a.asname or a.name, Raise('ImportError', s.module or ''))
                return Exit('raise', Raise('ImportError', s.module or '')) if self.try_depth else FALL
            for a in s.names:
                if a.name == '*':
                    if s.module in ('math', 'numpy'):
                        for nm in self.np.STAR.get(s.module, ()):
                            self.set_name(st, cx, nm, self.ext_name(s.module + '.' + nm))
                    continue
                self.set_name(st, cx, a.asname or a.name, self.ext_name('%s.%s' % (s.module, a.name)))
            return FALL
        env = self.module_env(r) if r in self.p.paths else {}
        for a in s.names:
            if a.name == '*':
                for k, v in list(env.items()):
                    if not k.startswith('_'):
                        self.set_name(st, cx, k, v)
                continue
            v = self.mod_lookup(r, a.name) if r in self.p.paths else UNDEF
            if v is UNDEF:
                sub = r + '.' + a.name
                if self.p.resolve(sub):
                    v = ModV(self.p.resolve(sub))
                else:
                    v = LazyImport(r, a.name)
            self.set_name(st, cx, a.asname or a.name, v)
        return FALL

    def s_Try(self, s, st, cx):
        snap = st.fork()
        self.try_depth += 1
        old = cx.in_try
        cx.in_try = True
        try:
            ex = self.exec_block(s.body, st, cx)
        finally:
            self.try_depth -= 1
            cx.in_try = old

        def handles(h, exc):
            if h.type is None:
                return True
            names = [_decname(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            for n in names:
                if n in ('Exception', 'BaseException') or n == exc:
                    return True
                if n == 'LookupError' and exc in ('KeyError', 'IndexError'):
                    return True
                if n == 'ArithmeticError' and exc == 'ZeroDivisionError':
                    return True
                if n == 'ImportError' and exc == 'ModuleNotFoundError':
                    return True
                if n == 'ModuleNotFoundError' and exc == 'ImportError':
                    return True
                if n == 'NameError' and exc == 'UnboundLocalError':
                    return True
            return False

        def is_exc(x):
            return isinstance(x, Exit) and x.kind == 'raise' and any(handles(h, x.val.exc) for h in s.handlers)

        if isinstance(ex, (Exit, Node)):
            cond = apply(is_exc, ex)
            if cond is not False:
                excs = []
                for l in t.leaves(ex):
                    if is_exc(l) and l not in excs:
                        excs.append(l)
                res = ex
                for l in excs:
                    c1 = apply(lambda x: x == l, ex)
                    h = next(h for h in s.handlers if handles(h, l.val.exc))

                    def run(s2, h=h):
                        if h.name:
                            self.set_name(s2, cx, h.name, Sym('exc', 'exc'))
                        return self.exec_block(h.body, s2, cx)
                    r = self.branch(st, c1, run, lambda s2: res)
                    res = r
                ex = res
        if s.orelse:
            ex = self.then(ex, st, cx, s.orelse)
        if s.finalbody:
            ex2 = self.exec_block(s.finalbody, st, cx)
            if ex2 is not FALL:
                ex = apply(lambda x, y: y if y is not FALL else x, ex, ex2)
        return ex

    s_TryStar = s_Try

    def then(self, ex, st, cx, stmts):
        if ex is FALL:
            return self.exec_block(stmts, st, cx)
        if isinstance(ex, Node):
            cond = apply(lambda x: x is FALL, ex)
            if cond is False:
                return ex
            st2 = st.fork()
            ex2 = self.exec_block(stmts, st2, cx)
            self.merge_into(st, cond, st2, st)
            return apply(lambda x, y: y if x is FALL else x, ex, ex2)
        return ex

    def s_For(self, s, st, cx):
        itv = self.ev(s.iter, st, cx)
        if isinstance(itv, Node):
            # gated container: iterate under each alternative
            alts = []
            for l in t.leaves(itv):
                if not any(l is a or l == a for a in alts):
                    alts.append(l)
            if len(alts) <= 6:
                res = None

                def run(i, s2):
                    if i == len(alts) - 1:
                        return self.for_over(s, alts[i], s2, cx)
                    c = apply(lambda x: x is alts[i] or x == alts[i], itv)
                    return self.branch(s2, c, lambda s3: self.for_over(s, alts[i], s3, cx),
                                       lambda s3: run(i + 1, s3))
                return run(0, st)
        return self.each_variant(st, itv, lambda s2: self.for_over(s, itv, s2, cx))

    def for_over(self, s, itv, st, cx):
        items = self.iterate(st, itv)
        if items is None or len(items) > 400:
            return self.havoc_loop(s, st, cx, 'for over unknown')
        return self.run_loop([('item', x) for x in items], s, st, cx)

    def run_loop(self, items, s, st, cx):
        if not items:
            return self.exec_block(s.orelse, st, cx) if s.orelse else FALL
        _, x = items[0]
        self.assign(s.target, x, st, cx)
        ex = self.exec_block(s.body, st, cx)
        return self.loop_next(ex, items[1:], s, st, cx)

    def loop_next(self, ex, rest, s, st, cx):
        # iterative where possible
        while True:
            if ex is FALL or (isinstance(ex, Exit) and ex.kind == 'cont'):
                if not rest:
                    return self.exec_block(s.orelse, st, cx) if s.orelse else FALL
                self.tick()
                self.assign(s.target, rest[0][1], st, cx)
                rest = rest[1:]
                ex = self.exec_block(s.body, st, cx)
                continue
            if isinstance(ex, Exit):
                return FALL if ex.kind == 'break' else ex
            break
        # some branches leave the loop
        go_on = apply(lambda x: x is FALL or (isinstance(x, Exit) and x.kind == 'cont'), ex)
        out = apply(lambda x: FALL if (isinstance(x, Exit) and x.kind == 'break') else x, ex)
        if go_on is False:
            return out
        if not rest and not s.orelse:
            return apply(lambda x: FALL if (isinstance(x, Exit) and x.kind in ('cont',)) else x, out)
        st2 = st.fork(self.refine(st.ctx, go_on, True))
        ex2 = self.loop_next(FALL, rest, s, st2, cx)
        self.merge_into(st, go_on, st2, st)
        return ite(go_on, ex2, out)

    def havoc_loop(self, s, st, cx, why):
        """Widen everything the loop may write."""
        # objects written by one pass over an unknown element (also inside calls)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.set_name(st, cx, n.id, U(why))
        trial = st.fork()
        outer, self.lost_writes = self.lost_writes, set()
        try:
            self.exec_block(s.body, trial, cx)
        except (t.TooBig, RecursionError, NotImplementedError):
            pass
        lost, self.lost_writes = self.lost_writes, outer
        if outer is not None:
            outer |= lost
        for i, o in trial.heap.items():
            old = st.heap.get(i) or self.base.get(i)
            if old is None or old is o:
                continue
            if isinstance(o, HObj) and isinstance(old, HObj) and o.kind == 'inst' == old.kind:
                for a in set(o.data) | set(old.data):
                    if o.data.get(a, self) is not old.data.get(a, self):
                        self.raw_set(st, Ref(i), a, U(why))
            else:
                self.smash(st, Ref(i), why)
        if lost:
            for i, o in list(st.heap.items()):
                for h in t.leaves(o) if isinstance(o, Node) else [o]:
                    if not isinstance(h, HObj):
                        continue
                    if h.kind == 'inst':
                        for a in lost:
                            if a in h.data:
                                self.raw_set(st, Ref(i), a, U(why))
                    elif '[]' in lost:
                        self.smash(st, Ref(i), why)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.set_name(st, cx, n.id, U(why))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    obj = self.ev(n.value, st, cx)
                except (t.TooBig, RecursionError):
                    continue
                for r in t.leaves(obj):
                    if isinstance(r, Ref):
                        self.raw_set(st, r, n.attr, U(why))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                obj = self.ev(n.value, st, cx)
                for r in t.leaves(obj):
                    if isinstance(r, Ref):
                        self.smash(st, r, why)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in MUTATORS:
                obj = self.ev(n.func.value, st, cx)
                for r in t.leaves(obj):
                    if isinstance(r, Ref):
                        self.smash(st, r, why)
        return FALL

    def smash(self, st, r, why):
        o = st.get(r)
        if isinstance(o, HObj) and o.kind in ('list', 'nd', 'dict', 'set'):
            st.put(r, HObj('unk', None, (), why))

    def s_While(self, s, st, cx):
        n = 0
        while True:
            c = self.clean_cond(self.truth(st, self.ev(s.test, st, cx)))
            c = self.simp(c, st.ctx)
            if c is False:
                return self.exec_block(s.orelse, st, cx) if s.orelse else FALL
            if c is not True or n > 60:
                return self.havoc_loop(s, st, cx, 'while')
            n += 1
            ex = self.exec_block(s.body, st, cx)
            if ex is FALL or (isinstance(ex, Exit) and ex.kind == 'cont'):
                continue
            if isinstance(ex, Exit):
                return FALL if ex.kind == 'break' else ex
            return self.havoc_loop(s, st, cx, 'while')

    def s_Break(self, s, st, cx):
        return Exit('break', None)

    def s_Continue(self, s, st, cx):
        return Exit('cont', None)

    def s_Match(self, s, st, cx):
        subj = self.ev(s.subject, st, cx)

        def go(i, s2):
            if i >= len(s.cases):
                return FALL
            c = s.cases[i]
            cond, binds = self.match(s2, subj, c.pattern, cx)
            for k, v in binds:
                self.set_name(s2, cx, k, v)
            if c.guard is not None:
                g = self.truth(s2, self.ev(c.guard, s2, cx))
                cond = apply(lambda a, b: a and b if isinstance(a, bool) and isinstance(b, bool) else U('guard'), cond, g)
            return self.branch(s2, self.clean_cond(cond), lambda s3: self.exec_block(c.body, s3, cx),
                               lambda s3: go(i + 1, s3))
        return go(0, st)

    def match(self, st, v, p, cx):
        if isinstance(p, ast.MatchValue):
            return self.compare(st, ast.Eq(), v, self.ev(p.value, st, cx)), []
        if isinstance(p, ast.MatchSingleton):
            return self.compare(st, ast.Is(), v, p.value), []
        if isinstance(p, ast.MatchAs):
            b = [(p.name, v)] if p.name else []
            if p.pattern is None:
                return True, b
            c, bb = self.match(st, v, p.pattern, cx)
            return c, b + bb
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                c, _ = self.match(st, v, q, cx)
                r = apply(lambda a, b: a or b, r, c)
            return r, []
        return U('match'), []

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, cx):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return U('expr ' + type(e).__name__)
        return m(e, st, cx)

    def e_Constant(self, e, st, cx):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                return t.INF() if v > 0 else t.neg(t.INF())
            return t.num(v)
        if v is Ellipsis:
            return Sym('...', 'ellipsis')
        return U('const')

    def e_Name(self, e, st, cx):
        return self.lookup(e.id, st, cx)

    def lookup(self, name, st, cx):
        fr = cx.frame
        n = 0
        while fr is not None and n < 20:
            n += 1
            o = st.get(fr)
            if not isinstance(o, HObj):
                break
            if name in o.data:
                v = o.data[name]
                if isinstance(v, LazyImport):
                    v = v.resolve(self)
                if v is UNDEF or (isinstance(v, Node) and UNDEF in t.leaves(v)):
                    if v is UNDEF:
                        return Raise('UnboundLocalError', name)
                    return apply(lambda x: Raise('UnboundLocalError', name) if x is UNDEF else x, v)
                return v
            meta = o.meta
            if meta and meta[0] in ('class', 'fun'):
                fr = meta[1]
            else:
                break
        v = self.mod_lookup(cx.mod, name)
        if isinstance(v, LazyImport):
            v = v.resolve(self)
        if v is not UNDEF:
            return v
        if name in BUILTIN_NAMES:
            return Builtin(name)
        if name in EXC_NAMES:
            return Ext('builtins.' + name)
        if name == '__file__':
            return Sym('__file__')
        return Raise('NameError', name)

    def e_Attribute(self, e, st, cx):
        return self.getattr(st, self.ev(e.value, st, cx), e.attr)

    def ev_index(self, s, st, cx):
        if isinstance(s, ast.Slice):
            return SliceV(self.ev(s.lower, st, cx) if s.lower else None,
                          self.ev(s.upper, st, cx) if s.upper else None,
                          self.ev(s.step, st, cx) if s.step else None)
        if isinstance(s, ast.Tuple):
            return Tup([self.ev_index(x, st, cx) for x in s.elts])
        return self.ev(s, st, cx)

    def e_Subscript(self, e, st, cx):
        obj = self.ev(e.value, st, cx)
        idx = self.ev_index(e.slice, st, cx)
        return self.getitem(st, obj, idx)

    def e_Slice(self, e, st, cx):
        return self.ev_index(e, st, cx)

    def e_Tuple(self, e, st, cx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                its = self.iterate(st, self.ev(x.value, st, cx))
                if its is None:
                    return U('star')
                out.extend(its)
            else:
                out.append(self.ev(x, st, cx))
        return Tup(out)

    def e_List(self, e, st, cx):
        v = self.e_Tuple(e, st, cx)
        if isinstance(v, U):
            return v
        return st.alloc('list', None, v.items)

    def e_Set(self, e, st, cx):
        v = self.e_Tuple(e, st, cx)
        if isinstance(v, U):
            return v
        return st.alloc('set', None, v.items)

    def e_Dict(self, e, st, cx):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, cx)
                o = st.get(src) if isinstance(src, Ref) else None
                if isinstance(o, HObj) and o.kind == 'dict':
                    d.update(o.data)
                    continue
                return U('dict **')
            kk = self.dkey(self.ev(k, st, cx))
            if kk is None:
                return U('dict key')
            d[kk] = self.ev(v, st, cx)
        return st.alloc('dict', None, d)

    def dkey(self, k):
        if isinstance(k, E):
            return k if k.is_const() else ('sym', k)
        if isinstance(k, bool) or k is None or isinstance(k, (str, Ref, Sym, Func, Ext)):
            return ('b', k) if (isinstance(k, bool) or k is None) else k
        if isinstance(k, Cls):
            return k
        if isinstance(k, Tup):
            return k
        return None

    def undkey(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] in ('b', 'sym'):
            return k[1]
        return k

    def e_JoinedStr(self, e, st, cx):
        parts = []
        known = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.ev(v.value, st, cx)
                if isinstance(x, str) and v.format_spec is None:
                    parts.append(x)
                elif isinstance(x, E) and x.is_const() and v.format_spec is None and x.const().denominator == 1:
                    parts.append(str(x.const().numerator))
                else:
                    known = False
                    parts.append(x if v.format_spec is None else Tup((x, ast.unparse(v.format_spec))))
        return ''.join(parts) if known else text('fstr:%d:' % e.lineno, parts)

    def e_IfExp(self, e, st, cx):
        c = self.clean_cond(self.truth(st, self.ev(e.test, st, cx)))
        return self.branch(st, c, lambda s: self.ev(e.body, s, cx), lambda s: self.ev(e.orelse, s, cx))

    def e_BoolOp(self, e, st, cx):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, cx)
            if i == len(e.values) - 1:
                return v
            tv = self.truth(s, v)
            c = self.clean_cond(tv)
            if isand:
                return self.branch(s, c, lambda s2: go(i + 1, s2), lambda s2: v)
            return self.branch(s, c, lambda s2: v, lambda s2: go(i + 1, s2))
        r = go(0, st)
        return r

    def e_UnaryOp(self, e, st, cx):
        v = self.ev(e.operand, st, cx)
        if isinstance(e.op, ast.Not):
            tv = self.truth(st, v)
            return apply(lambda x: (not x) if isinstance(x, bool) else x, tv)
        if isinstance(e.op, ast.USub):
            return self.unop(st, v, t.neg)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.unop(st, v, lambda x: U('~'), boolf=lambda b: not b)
        return U('unary')

    def unop(self, st, v, f, boolf=None):
        def leaf(x, s):
            if isinstance(x, bool):
                if boolf:
                    return boolf(x)
                x = t.num(int(x))
            if isinstance(x, E):
                return f(x)
            if isinstance(x, (Raise, U)):
                return x
            if isinstance(x, Ref):
                o = s.get(x)
                if isinstance(o, HObj) and o.kind == 'nd':
                    return s.alloc('nd', None, tuple(self.unop(s, y, f, boolf) for y in o.data), o.meta)
                if isinstance(o, HObj) and o.kind == 'inst' and f is t.neg:
                    c, m = o.cls.find('__neg__')
                    if m is not None:
                        return self.call(s, Bound(m, x), [], {})
            if isinstance(x, Sym):
                return f(self.symnum(x))
            return U('unop')
        return self.fmap(st, v, leaf)

    def symnum(self, x):
        return t.sym(x.name, t.ANY)

    def e_BinOp(self, e, st, cx):
        a = self.ev(e.left, st, cx)
        b = self.ev(e.right, st, cx)
        return self.binop(st, e.op, a, b)

    def fmap(self, st, v, f):
        """Map f(leaf, state) over the leaves of v (allocations are kept)."""
        if not isinstance(v, Node):
            return f(v, st)
        memo = {}

        def g(x):
            try:
                if x in memo:
                    return memo[x]
            except TypeError:
                return f(x, st)
            r = f(x, st)
            memo[x] = r
            return r
        return apply(g, v)

    def fmap2(self, st, a, b, f):
        if not isinstance(a, Node) and not isinstance(b, Node):
            return f(a, b, st)
        return apply(lambda x, y: f(x, y, st), a, b)

    def binop(self, st, op, a, b):
        return self.fmap2(st, a, b, lambda x, y, s: self.binleaf(s, op, x, y))

    def binleaf(self, st, op, a, b):
        if isinstance(a, Raise):
            return a
        if isinstance(b, Raise):
            return b
        if isinstance(a, bool):
            if isinstance(b, bool) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return {ast.BitAnd: a and b, ast.BitOr: a or b, ast.BitXor: a != b}[type(op)]
            a = t.num(int(a))
        if isinstance(b, bool):
            b = t.num(int(b))
        if isinstance(a, E) and isinstance(b, E):
            return self.arith(op, a, b)
        ka = st.get(a) if isinstance(a, Ref) else None
        kb = st.get(b) if isinstance(b, Ref) else None
        if isinstance(ka, Node) or isinstance(kb, Node):
            return U('gated container')
        if (ka is not None and ka.kind == 'nd') or (kb is not None and kb.kind == 'nd'):
            return self.np.broadcast(self, st, a, b, lambda x, y: self.binop(st, op, x, y), op)
        if ka is not None and ka.kind == 'inst':
            nm = OPNAME.get(type(op))
            if nm and ka.cls is not None:
                _, m = ka.cls.find('__%s__' % nm)
                if m is not None:
                    return self.call(st, Bound(m, a), [b], {})
        if kb is not None and kb.kind == 'inst':
            nm = OPNAME.get(type(op))
            if nm and kb.cls is not None:
                _, m = kb.cls.find('__r%s__' % nm)
                if m is not None:
                    return self.call(st, Bound(m, b), [a], {})
        if isinstance(op, ast.Add):
            if ka is not None and kb is not None and ka.kind == kb.kind == 'list':
                return st.alloc('list', None, ka.data + kb.data)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, Sym)) and isinstance(b, (str, Sym)):
                return text('+', (a, b))
        if ka is not None and kb is not None and ka.kind == kb.kind == 'set' and \
                isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.set_op(st, op, ka.data, kb.data)
        if isinstance(op, ast.Mult):
            for x, y, kx in ((a, b, ka), (b, a, kb)):
                if isinstance(y, E) and y.is_const() and y.const().denominator == 1:
                    n = int(y.const())
                    if kx is not None and kx.kind == 'list' and n < 500:
                        return st.alloc('list', None, kx.data * n)
                    if isinstance(x, Tup):
                        return Tup(x.items * n)
                    if isinstance(x, str):
                        return x * n
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return text('fmt', (a, b))
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, (bool, Cls, Ext, type(None))):
            return Ext('typing.Union')
        if isinstance(a, U):
            return a
        if isinstance(b, U):
            return b
        if isinstance(a, Sym) and a.kind in ('num', 'any'):
            return self.binleaf(st, op, self.symnum(a), b)
        if isinstance(b, Sym) and b.kind in ('num', 'any'):
            return self.binleaf(st, op, a, self.symnum(b))
        if isinstance(a, (Ext, Sym)) or isinstance(b, (Ext, Sym)):
            return U('ext op')
        return Raise('TypeError', 'operand %s' % type(op).__name__)

    def arith(self, op, a, b):
        try:
            if isinstance(op, ast.Add):
                return t.add(a, b)
            if isinstance(op, ast.Sub):
                return t.sub(a, b)
            if isinstance(op, ast.Mult):
                return t.mul(a, b)
            if isinstance(op, ast.Div):
                return t.div(a, b)
            if isinstance(op, ast.Pow):
                return t.powv(a, b)
            if isinstance(op, ast.FloorDiv):
                if a.is_const() and b.is_const():
                    return t.num((a.const() / b.const()).__floor__())
                return t.fn('floor', t.div(a, b))
            if isinstance(op, ast.Mod):
                if a.is_const() and b.is_const():
                    return t.num(a.const() % b.const())
                return t.sub(a, t.mul(b, t.fn('floor', t.div(a, b))))
        except t.DivZero:
            return Raise('ZeroDivisionError', '')
        except ZeroDivisionError:
            return Raise('ZeroDivisionError', '')
        return U('op ' + type(op).__name__)

    def e_Compare(self, e, st, cx):
        left = self.ev(e.left, st, cx)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, cx)
            c = self.compare(st, op, left, right)
            if res is True:
                res = c
            else:
                res = apply(lambda x, y: (y if x is True else x), res, c)
            left = right
        return res

    def compare(self, st, op, a, b):
        return self.fmap2(st, a, b, lambda x, y, s: self.cmpleaf(s, op, x, y))

    def cmpleaf(self, st, op, a, b):
        if isinstance(a, Raise):
            return a
        if isinstance(b, Raise):
            return b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            if isinstance(op, ast.NotIn):
                return apply(lambda x: (not x) if isinstance(x, bool) else x, r)
            return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                if isinstance(a, U) or isinstance(b, U):
                    return U('is')
                o = a if b is None else b
                if isinstance(o, Sym) and o.kind == 'opt':
                    r = t.mknode(t.pred(('isnone', o)), (False, True))
                    return r if isinstance(op, ast.Is) else apply(lambda x: not x, r)
                r = a is None and b is None
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a == b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            else:
                r = self.cmpleaf(st, ast.Eq(), a, b)
            return apply(lambda x: (not x) if isinstance(x, bool) else x, r) if isinstance(op, ast.IsNot) else r
        na = t.num(int(a)) if isinstance(a, bool) else a
        nb = t.num(int(b)) if isinstance(b, bool) else b
        if isinstance(na, Sym) and isinstance(nb, E) and na.kind in ('num', 'any'):
            na = self.symnum(na)
        if isinstance(nb, Sym) and isinstance(na, E) and nb.kind in ('num', 'any'):
            nb = self.symnum(nb)
        if isinstance(na, E) and isinstance(nb, E):
            d = t.sub(na, nb)
            k = type(op)
            tab = {ast.Lt: (True, False, False), ast.LtE: (True, True, False), ast.Gt: (False, False, True),
                   ast.GtE: (False, True, True), ast.Eq: (False, True, False), ast.NotEq: (True, False, True)}
            return t.sign_node(d, *tab[k])
        if isinstance(a, Ref) or isinstance(b, Ref):
            ka = st.get(a) if isinstance(a, Ref) else None
            kb = st.get(b) if isinstance(b, Ref) else None
            if isinstance(ka, HObj) and ka.kind == 'nd' or isinstance(kb, HObj) and kb.kind == 'nd':
                if a is None or b is None:
                    return isinstance(op, ast.NotEq)
                return self.np.broadcast(self, st, a, b, lambda x, y: self.compare(st, op, x, y), op)
            if isinstance(ka, HObj) and ka.kind == 'inst' and ka.cls is not None:
                nm = {ast.Eq: '__eq__', ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__',
                      ast.GtE: '__ge__', ast.NotEq: '__ne__'}[type(op)]
                _, m = ka.cls.find(nm)
                if m is not None:
                    v = self.call(st, Bound(m, a), [b], {})
                    return v if isinstance(v, Ref) else self.truth(st, v)
                if nm == '__ne__':
                    _, m = ka.cls.find('__eq__')
                    if m is not None:
                        return apply(lambda x: (not x) if isinstance(x, bool) else x,
                                     self.truth(st, self.call(st, Bound(m, a), [b], {})))
            if isinstance(kb, HObj) and kb.kind == 'inst' and kb.cls is not None:
                nm = {ast.Eq: '__eq__', ast.Lt: '__gt__', ast.Gt: '__lt__', ast.LtE: '__ge__',
                      ast.GtE: '__le__', ast.NotEq: '__ne__'}[type(op)]
                _, m = kb.cls.find(nm)
                if m is not None:
                    v = self.call(st, Bound(m, b), [a], {})
                    return v if isinstance(v, Ref) else self.truth(st, v)
            if isinstance(ka, HObj) and isinstance(kb, HObj) and ka.kind == kb.kind == 'list' \
                    and isinstance(op, (ast.Eq, ast.NotEq)):
                if len(ka.data) != len(kb.data):
                    r = False
                else:
                    r = self.all_(st, [self.compare(st, ast.Eq(), x, y) for x, y in zip(ka.data, kb.data)])
                return r if isinstance(op, ast.Eq) else apply(lambda x: (not x) if isinstance(x, bool) else x, r)
            if isinstance(op, ast.Eq):
                return (a == b) if not isinstance(a, U) and not isinstance(b, U) else U('eq')
            if isinstance(op, ast.NotEq):
                return (a != b) if not isinstance(a, U) and not isinstance(b, U) else U('eq')
            return U('order of objects')
        if isinstance(a, U):
            return a
        if isinstance(b, U):
            return b
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eqleaf(st, a, b)
            return r if isinstance(op, ast.Eq) else apply(lambda x: (not x) if isinstance(x, bool) else x, r)
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            strict = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
            r = {ast.Lt: len(a.items) < len(b.items), ast.LtE: len(a.items) <= len(b.items),
                 ast.Gt: len(a.items) > len(b.items), ast.GtE: len(a.items) >= len(b.items)}[type(op)]
            for x, y in reversed(list(zip(a.items, b.items))):
                e = self.compare(st, ast.Eq(), x, y)
                if e is False:
                    r = self.compare(st, strict, x, y)
                elif e is not True:
                    less = self.compare(st, strict, x, y)
                    r = apply(lambda q, l, z: z if q is True else (l if q is False else q), e, less, r)
            return r
        if a is None or b is None:
            return Raise('TypeError', 'order with None')
        return U('order')

    def eqleaf(self, st, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a == b:
                    return True
                if a.kind == 'text' or b.kind == 'text':
                    return U('text')
                return t.mknode(t.pred(('eqs', a, b)), (False, True))
            s, o = (a, b) if isinstance(a, Sym) else (b, a)
            if o is None:
                return False
            if s.kind == 'text':
                return U('text')
            return t.mknode(t.pred(('eqs', s, o)), (False, True))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return self.all_(st, [self.compare(st, ast.Eq(), x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if type(a) is type(b):
            return a == b
        return False

    def all_(self, st, vs):
        r = True
        for v in vs:
            r = apply(lambda x, y: (y if x is True else x), r, v)
        return r

    def any_(self, st, vs):
        r = False
        for v in vs:
            r = apply(lambda x, y: (y if x is False else x), r, v)
        return r

    def contains(self, st, cont, x):
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            return t.mknode(t.pred(('in', x, cont)), (False, True)) if isinstance(x, Sym) and x.kind != "text" else U('in str')
        if isinstance(cont, Sym):
            try:
                return t.mknode(t.pred(('in', x, cont)), (False, True))
            except TypeError:
                return U('in sym')
        o = st.get(cont) if isinstance(cont, Ref) else None
        if isinstance(o, HObj) and o.kind == 'dict':
            keys = [self.undkey(k) for k in o.data]
            if isinstance(x, str) or (isinstance(x, E) and x.is_const()) or isinstance(x, Ref):
                return self.dkey(x) in o.data
            return self.any_(st, [self.compare(st, ast.Eq(), k, x) for k in keys])
        if isinstance(o, HObj) and o.kind == 'inst' and o.cls is not None:
            _, m = o.cls.find('__contains__')
            if m is not None:
                return self.truth(st, self.call(st, Bound(m, cont), [x], {}))
        if isinstance(cont, Cls) and cont.enum:
            return self.any_(st, [self.compare(st, ast.Eq(), m, x) for m in cont.members])
        items = self.iterate(st, cont)
        if items is None:
            return U('in')
        return self.any_(st, [self.compare(st, ast.Eq(), y, x) for y in items])

    def truth(self, st, v):
        def leaf(x, s):
            if isinstance(x, bool):
                return x
            if x is None:
                return False
            if isinstance(x, E):
                return t.sign_node(x, True, False, True)
            if isinstance(x, str):
                return bool(x)
            if isinstance(x, Tup):
                return bool(x.items)
            if isinstance(x, Ref):
                o = s.get(x)
                if isinstance(o, HObj):
                    if o.kind in ('list', 'dict', 'set'):
                        return len(o.data) > 0
                    if o.kind == 'nd':
                        if len(o.data) == 1:
                            return self.truth(s, o.data[0])
                        return Raise('ValueError', 'truth of array')
                    if o.kind == 'inst':
                        for nm in ('__bool__', '__len__'):
                            if o.cls is not None:
                                _, m = o.cls.find(nm)
                                if m is not None:
                                    return self.truth(s, self.call(s, Bound(m, x), [], {}))
                        return True
                return U('truth')
            if isinstance(x, Sym):
                return t.mknode(t.pred(('truth', x)), (False, True))
            if isinstance(x, (Raise, U)):
                return x
            return True
        return self.fmap(st, v, leaf)

    def e_Lambda(self, e, st, cx):
        f = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                            decorator_list=[], returns=None)
        key = id(e)
        if key in _LAMBDAS:
            f = _LAMBDAS[key][1]
        else:
            ast.copy_location(f, e)
            _LAMBDAS[key] = (e, f)
        return self.make_func(f, st, cx)

    def e_Starred(self, e, st, cx):
        return self.ev(e.value, st, cx)

    def e_NamedExpr(self, e, st, cx):
        v = self.ev(e.value, st, cx)
        self.assign(e.target, v, st, cx)
        return v

    def comp_items(self, gens, st, cx, f, out):
        """Evaluate comprehension; returns None when a source is unknown.
        Each out entry is (cond, value)."""
        def go(i, cond):
            if i == len(gens):
                out.append((cond, f()))
                return True
            g = gens[i]
            itv = self.ev(g.iter, st, cx)
            if isinstance(itv, Node) or self.variants(st, itv):
                its = self.iterate_gated(st, itv)
                if its is None:
                    return False
            else:
                items = self.iterate(st, itv)
                if items is None or len(items) > 2000:
                    return False
                its = [(True, x) for x in items]
            for c0, x in its:
                self.tick()
                self.assign(g.target, x, st, cx)
                c = cond if c0 is True else apply(lambda a, b: (b if a is True else a), cond, c0)
                ok = True
                for tst in g.ifs:
                    tv = self.clean_cond(self.truth(st, self.ev(tst, st, cx)))
                    c = apply(lambda a, b: (b if a is True else a), c, tv)
                    if c is False:
                        ok = False
                        break
                if ok and c is not False:
                    if not go(i + 1, c):
                        return False
            return True
        return go(0, True)

    def iterate_gated(self, st, v):
        """Items of a gated container: list of (cond, item)."""
        alts = []
        for l in t.leaves(v):
            if not any(l is a or l == a for a in alts):
                alts.append(l)
        out = []
        for a in alts:
            c = apply(lambda x: x is a or x == a, v)
            for c2, its in self.contents(st, a):
                if its is None:
                    return None
                c2 = c if c2 is True else apply(lambda p, q: p and q, c, c2)
                out.extend((c2, x) for x in its)
        return out

    def contents(self, st, a):
        """[(condition, items)] of a container."""
        alts = self.variants(st, a)
        if alts is None:
            return [(True, self.iterate(st, a))]
        o = st.get(a)
        out = []
        for h in alts:
            s = st.fork()
            s.put(a, h)
            out.append((apply(lambda x: x is h, o), self.iterate(s, a)))
        return out

    def sub_cx(self, st, cx):
        fr = st.alloc('frame', None, {}, ('fun', cx.frame))
        c = Cx(cx.mod, fr, cx.cls, cx.func)
        c.selfv = cx.selfv
        c.in_try = cx.in_try
        c.globals = cx.globals
        return c

    def e_ListComp(self, e, st, cx):
        c2 = self.sub_cx(st, cx)
        out = []
        if not self.comp_items(e.generators, st, c2, lambda: self.ev(e.elt, st, c2), out):
            return U('comprehension')
        if all(c is True for c, _ in out):
            return st.alloc('list', None, tuple(v for _, v in out))
        return self.gated_list(st, out)

    e_GeneratorExp = e_ListComp

    def gated_list(self, st, out):
        """List whose elements are present conditionally."""
        n = sum(1 for c, _ in out if c is not True)
        if n > 10:
            return U('conditional list')

        def go(i, acc):
            if i == len(out):
                return HObj('list', None, tuple(acc), None)
            c, v = out[i]
            if c is True:
                return go(i + 1, acc + [v])
            return ite(c, go(i + 1, acc + [v]), go(i + 1, acc))
        h = go(0, [])
        r = st.alloc('list', None, ())
        st.put(r, h)
        return r

    def e_SetComp(self, e, st, cx):
        v = self.e_ListComp(e, st, cx)
        o = st.get(v) if isinstance(v, Ref) else None
        if isinstance(o, HObj):
            return st.alloc('set', None, self.uniq(o.data))
        return U('setcomp')

    def uniq(self, items):
        out = []
        for x in items:
            if not any(x is y or t.same(x, y) for y in out):
                out.append(x)
        if out and all(isinstance(x, E) and x.is_const() and x.const().denominator == 1 for x in out):
            # CPython iterates over a set of integers in the order of its hash table
            return tuple(t.num(i) for i in set([int(x.const()) for x in out]))
        return tuple(out)

    def set_op(self, st, op, a, b):
        '''Difference, intersection and symmetric difference of sets of constants.'''
        def const(x):
            return isinstance(x, str) or isinstance(x, E) and x.is_const()
        if not all(const(x) for x in a + b):
            return U('set of symbols')
        inb = [any(t.same(x, y) for y in b) for x in a]
        ina = [any(t.same(x, y) for y in a) for x in b]
        r = [x for x, i in zip(a, inb) if i == isinstance(op, ast.BitAnd)]
        if isinstance(op, ast.BitOr):
            r = list(a) + [x for x, i in zip(b, ina) if not i]
        elif isinstance(op, ast.BitXor):
            r += [x for x, i in zip(b, ina) if not i]
        return st.alloc('set', None, self.uniq(r))

    def e_DictComp(self, e, st, cx):
        c2 = self.sub_cx(st, cx)
        out = []
        if not self.comp_items(e.generators, st, c2,
                               lambda: (self.ev(e.key, st, c2), self.ev(e.value, st, c2)), out):
            return U('dictcomp')
        d = {}
        for c, (k, v) in out:
            kk = self.dkey(k)
            if c is not True or kk is None:
                return U('dictcomp')
            d[kk] = v
        return st.alloc('dict', None, d)

    # ------------------------------------------------------------ containers
    def iterate(self, st, v):
        """Concrete list of items or None."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HObj):
                if o.kind in ('list', 'set'):
                    return list(o.data)
                if o.kind == 'dict':
                    return [self.undkey(k) for k in o.data]
                if o.kind == 'nd':
                    return self.np.rows(self, st, v)
                if o.kind == 'inst' and o.cls is not None:
                    _, m = o.cls.find('__iter__')
                    if m is not None:
                        r = self.call(st, Bound(m, v), [], {})
                        if r != v:
                            return self.iterate(st, r)
        if isinstance(v, Cls) and v.enum:
            return list(v.members)
        return None

    def getitem(self, st, obj, idx):
        return self.fmap2(st, obj, idx, lambda o, i, s: self.getitem_leaf(s, o, i))

    def content_map(self, st, ref, f):
        """f(HObj) over the (possibly gated) content of a reference."""
        o = st.get(ref)
        if o is None:
            return U('dangling')
        if isinstance(o, HObj):
            return f(o)
        return apply(f, o)

    def getitem_leaf(self, st, obj, idx):
        if isinstance(obj, (Raise, U)):
            return obj
        if isinstance(idx, (Raise, U)):
            return idx if isinstance(idx, Raise) or not isinstance(obj, Ref) else U('index')
        if isinstance(obj, Ref):
            return self.content_map(st, obj, lambda o: self.item_of(st, obj, o, idx))
        if isinstance(obj, Tup):
            return self.seq_item(st, obj.items, idx, lambda xs: Tup(xs))
        if isinstance(obj, str):
            return self.seq_item(st, tuple(obj), idx, lambda xs: ''.join(xs))
        if isinstance(obj, Sym):
            k = idx if isinstance(idx, str) else show(idx)
            return self.make_sym('%s[%s]' % (obj.name, k), obj.kind)
        if isinstance(obj, Cls):
            if obj.enum and isinstance(idx, str):
                m = obj.attrs.get(idx)
                return m if m is not None else Raise('KeyError', idx)
            return obj
        if isinstance(obj, (Ext, Builtin)):
            return Ext('typing.Generic')
        if obj is None or isinstance(obj, (E, bool)):
            return Raise('TypeError', 'not subscriptable')
        return U('getitem')

    def make_sym(self, name, kind):
        if kind in ('any', 'num'):
            return t.sym(name, self.sign_rule(name))
        return Sym(name, kind)

    def item_of(self, st, ref, o, idx):
        if o.kind == 'dict':
            return self.dict_get(st, o, idx, lambda: Raise('KeyError', show(idx)))
        if o.kind == 'list':
            return self.seq_item(st, o.data, idx, lambda xs: st.alloc('list', None, tuple(xs)))
        if o.kind == 'nd':
            return self.np.getitem(self, st, ref, o, idx)
        if o.kind == 'inst' and o.cls is not None:
            _, m = o.cls.find('__getitem__')
            if m is not None:
                return self.call(st, Bound(m, ref), [idx], {})
            if o.meta and o.meta[0] == 'sym':
                return self.make_sym('%s[%s]' % (o.meta[1], idx if isinstance(idx, str) else show(idx)), 'num')
        return U('item of ' + o.kind)

    def dict_get(self, st, o, idx, missing):
        if isinstance(idx, Tup):
            if idx in o.data:
                return o.data[idx]
            return missing()
        k = self.dkey(idx)
        if k is None:
            return U('key')
        if k in o.data:
            return o.data[k]
        symbolic = (isinstance(idx, E) and not idx.is_const()) or isinstance(idx, Sym)
        if not symbolic:
            if any(isinstance(self.undkey(x), (Sym,)) or (isinstance(x, tuple) and x[0] == 'sym')
                   for x in o.data if isinstance(x, (Sym, tuple))):
                res = missing()
                for x, v in o.data.items():
                    c = self.compare(st, ast.Eq(), self.undkey(x), idx)
                    if c is not False:
                        res = ite(self.clean_cond(c), v, res)
                return res
            return missing()
        if len(o.data) > 40:
            return U('symbolic key into a large table')
        res = missing()
        for x, v in reversed(list(o.data.items())):
            c = self.compare(st, ast.Eq(), self.undkey(x), idx)
            if c is not False:
                res = ite(self.clean_cond(c), v, res)
        return res

    def seq_item(self, st, items, idx, mk):
        if isinstance(idx, bool):
            idx = t.num(int(idx))
        if isinstance(idx, E):
            if idx.is_const():
                i = idx.const()
                if i.denominator != 1:
                    return Raise('TypeError', 'index')
                i = int(i)
                if -len(items) <= i < len(items):
                    return items[i]
                return Raise('IndexError', '')
            if len(items) <= 12:
                res = Raise('IndexError', '')
                for i in range(len(items) - 1, -1, -1):
                    c = self.compare(st, ast.Eq(), idx, t.num(i))
                    if c is not False:
                        res = ite(c, items[i], res)
                return res
            return U('symbolic index')
        if isinstance(idx, SliceV):
            s = self.pyslice(idx)
            if s is None:
                return U('slice')
            return mk(items[s])
        return Raise('TypeError', 'sequence index') if isinstance(idx, (str, Tup)) or idx is None else U('index')

    def pyslice(self, sl):
        def c(x):
            if x is None:
                return None
            if isinstance(x, E) and x.is_const() and x.const().denominator == 1:
                return int(x.const())
            raise NotBool()
        try:
            return slice(c(sl.lo), c(sl.hi), c(sl.step))
        except NotBool:
            return None

    def note_write(self, ref, what):
        if self.trace_writes is not None:
            self.trace_writes.append((ref, what, list(self.callstack)))

    def setitem(self, st, obj, idx, v):
        if isinstance(obj, Node) or isinstance(idx, Node):
            alts = []

            def go(o, i):
                return (o, i)
            pairs = apply(lambda o, i: PairL(o, i), obj, idx)
            for l in t.leaves(pairs):
                if l in alts:
                    continue
                alts.append(l)
            for l in alts:
                c = apply(lambda x: x == l, pairs)
                if not isinstance(l.a, Ref) or isinstance(l.b, Raise):
                    continue
                s2 = st.fork()
                self.setitem_leaf(s2, l.a, l.b, v)
                self.merge_into(st, c, s2, st)
            return
        self.setitem_leaf(st, obj, idx, v)

    def setitem_leaf(self, st, obj, idx, v):
        if not isinstance(obj, Ref):
            if self.lost_writes is not None and isinstance(obj, U):
                self.lost_writes.add('[]')
            return
        self.note_write(obj, idx)
        o = st.get(obj)
        if isinstance(o, Node):
            st.put(obj, apply(lambda h: self.set_in(st, obj, h, idx, v) or h, o))
            return
        if o is None:
            return
        r = self.set_in(st, obj, o, idx, v)
        if r is not None:
            st.put(obj, r)
            if o.kind == 'nd':
                self.spread(st, obj)

    def add_view(self, base, view, pos):
        root, p = self.view_of.get(base, (base, None))
        pos = tuple(pos) if p is None else tuple(p[i] for i in pos)
        self.view_of[view] = (root, pos)
        self.views.setdefault(root, []).append((view, pos))

    def spread(self, st, ref):
        '''Memory shared between an array and its views: repeat a store in all of them.'''
        if ref.id not in self.view_of and ref.id not in self.views:
            return
        root, pos = self.view_of.get(ref.id, (ref.id, None))
        o, h = st.get(Ref(root)), st.get(ref)
        if pos is not None and isinstance(o, HObj) and o.kind == 'nd':
            if isinstance(h, HObj) and h.kind == 'nd':
                l = list(o.data)
                for i, x in zip(pos, h.data):
                    l[i] = x
                o = HObj('nd', o.cls, tuple(l), o.meta)
            else:
                o = HObj('unk', None, (), 'store through a view')
            st.put(Ref(root), o)
        for v, pos in self.views.get(root, ()):
            x = st.get(Ref(v))
            if v == ref.id or x is None:
                continue
            if isinstance(x, HObj) and x.kind == 'nd' and isinstance(o, HObj) and o.kind == 'nd':
                d = tuple(o.data[i] for i in pos)
                if any(a is not b for a, b in zip(d, x.data)):
                    st.put(Ref(v), HObj('nd', x.cls, d, x.meta))
            else:
                st.put(Ref(v), HObj('unk', None, (), 'view of an unknown array'))

    def set_in(self, st, ref, o, idx, v):
        if o.kind == 'dict':
            k = self.dkey(idx)
            if k is None:
                return HObj('unk', None, (), 'dict key')
            d = dict(o.data)
            d[k] = v
            return HObj('dict', o.cls, d, o.meta)
        if o.kind == 'list':
            if isinstance(idx, E) and idx.is_const():
                i = int(idx.const())
                if -len(o.data) <= i < len(o.data):
                    l = list(o.data)
                    l[i] = v
                    return HObj('list', o.cls, tuple(l), o.meta)
                return None
            if isinstance(idx, E) and len(o.data) <= 12:
                return HObj('list', o.cls, tuple(
                    ite(self.compare(st, ast.Eq(), idx, t.num(i)), v, x) for i, x in enumerate(o.data)), o.meta)
            if isinstance(idx, SliceV):
                s = self.pyslice(idx)
                its = self.iterate(st, v)
                if s is not None and its is not None:
                    l = list(o.data)
                    l[s] = its
                    return HObj('list', o.cls, tuple(l), o.meta)
            return HObj('unk', None, (), 'list index')
        if o.kind == 'nd':
            return self.np.setitem(self, st, ref, o, idx, v)
        if o.kind == 'inst' and o.cls is not None:
            _, m = o.cls.find('__setitem__')
            if m is not None:
                self.call(st, Bound(m, ref), [idx, v], {})
                return None
        return None

    def nd_store(self, st, ref, pairs):
        o = st.get(ref)
        l = list(o.data)
        for i, x in pairs:
            l[i] = x
        st.put(ref, HObj('nd', o.cls, tuple(l), o.meta))
        self.spread(st, ref)

    # ------------------------------------------------------------ attributes
    def getattr(self, st, obj, name, default=None):
        return self.fmap_fx(st, obj, lambda o, s: self.getattr_leaf(s, o, name, default))

    def fmap_fx(self, st, v, f):
        """Like fmap, but each alternative may have effects on the heap."""
        if not isinstance(v, Node):
            return f(v, st)
        alts = []
        for l in t.leaves(v):
            if not any(l is a or (type(l) is type(a) and l == a) for a in alts):
                alts.append(l)
        if len(alts) == 1:
            return f(alts[0], st)

        def go(i, s):
            if i == len(alts) - 1:
                return f(alts[i], s)
            c = apply(lambda x: x is alts[i] or (type(x) is type(alts[i]) and x == alts[i]), v)
            return self.branch(s, c, lambda s2: f(alts[i], s2), lambda s2: go(i + 1, s2))
        return go(0, st)

    def getattr_leaf(self, st, o, name, default=None):
        if isinstance(o, (Raise, U)):
            return o
        if isinstance(o, Ref):
            c = st.get(o)
            if isinstance(c, Node):
                return self.content_map(st, o, lambda h: self.attr_of(st, o, h, name))
            if c is None:
                return U('dangling')
            return self.attr_of(st, o, c, name)
        if isinstance(o, Cls):
            return self.cls_attr(st, o, name)
        if isinstance(o, ModV):
            v = self.mod_lookup(o.name, name)
            if isinstance(v, LazyImport):
                v = v.resolve(self)
            return Raise('AttributeError', '%s.%s' % (o.name, name)) if v is UNDEF else v
        if isinstance(o, Ext):
            if name == '__name__':
                return o.path.rsplit('.', 1)[-1]
            return self.np.ext_const(self, o.path + '.' + name)
        if isinstance(o, SuperV):
            return self.super_attr(st, o, name)
        if isinstance(o, E):
            if name in ('real',):
                return o
            if name in ('item', 'copy', 'astype', 'tolist', 'max', 'min', 'sum', 'is_integer', 'all', 'any', 'round'):
                return Builtin('num.' + name, o)
            if name in ('size',):
                return t.UNIT
            return Raise('AttributeError', 'number.%s' % name)
        if isinstance(o, str):
            return Builtin('str.' + name, o)
        if isinstance(o, Tup):
            return Builtin('tuple.' + name, o)
        if isinstance(o, Sym):
            if o.kind in ('str', 'text'):
                return Builtin('symstr.' + name, o)
            return self.make_sym('%s.%s' % (o.name, name), o.kind)
        if isinstance(o, (Func, Bound)):
            if name == '__name__':
                f = o.func if isinstance(o, Bound) else o
                return f.name if isinstance(f, Func) else text('name')
            if name in ('cache_clear', 'cache_info'):
                return Builtin('noop', None)
            return Raise('AttributeError', name)
        if o is None:
            return Raise('AttributeError', 'NoneType.%s' % name)
        if isinstance(o, bool):
            return Builtin('num.' + name, t.num(int(o)))
        if isinstance(o, Builtin):
            if name == '__name__':
                return o.name
            return Builtin(o.name + '.' + name)
        return U('attr')

    def cls_attr(self, st, c, name):
        if name == '__name__':
            return c.name
        k, v = c.find(name)
        if k is None:
            if name == '__members__' and c.enum:
                return U('members')
            return Raise('AttributeError', '%s.%s' % (c.name, name))
        if isinstance(v, Func) and v.kind == 'classmethod':
            return Bound(v, c)
        return v

    def super_attr(self, st, s, name):
        inst = st.get(s.obj) if isinstance(s.obj, Ref) else None
        icls = inst.cls if isinstance(inst, HObj) and inst.cls is not None else (s.obj if isinstance(s.obj, Cls) else s.cls)
        k, v = icls.find_after(s.cls, name)
        if k is None:
            if name == '__init__':
                return Builtin('noop')
            if name == '__setattr__':
                return Builtin('object.__setattr__', s.obj)
            if name == '__getattribute__':
                return Builtin('object.__getattribute__', s.obj)
            if name in ('__init_subclass__', '__post_init__'):
                return Builtin('noop')
            return Raise('AttributeError', 'super().%s' % name)
        if isinstance(v, Prop):
            return self.call(st, Bound(v.fget, s.obj), [], {})
        if isinstance(v, Func):
            if v.kind == 'staticmethod':
                return v
            return Bound(v, s.obj)
        return v

    def attr_of(self, st, ref, o, name):
        if o.kind == 'inst':
            if o.cls is not None:
                _, ga = o.cls.find('__getattribute__')
                if isinstance(ga, Func) and not name.startswith('__'):
                    return self.call(st, Bound(ga, ref), [name], {})
            return self.default_get(st, ref, o, name)
        if o.kind == 'nd':
            return self.np.attr(self, st, ref, o, name)
        if o.kind in ('list', 'dict', 'set'):
            return Builtin('%s.%s' % (o.kind, name), ref)
        if o.kind == 'unk':
            return U(o.meta or 'unknown container')
        return U('attr of ' + o.kind)

    def default_get(self, st, ref, o, name):
        cls = o.cls
        if name == '__class__':
            return cls
        if name == '__dict__':
            return st.alloc('dict', None, dict(o.data))
        if name in ('__setattr__', '__getattribute__') and (cls is None or cls.find(name)[0] is None):
            return Builtin('object.' + name, ref)
        k, v = (cls.find(name) if cls is not None else (None, None))
        if isinstance(v, Prop):
            if v.cached and name in o.data:
                return o.data[name]
            if v.fget is None:
                return Raise('AttributeError', name)
            return self.call(st, Bound(v.fget, ref), [], {})
        if name in o.data:
            x = o.data[name]
            if x is UNDEF:
                return Raise('AttributeError', name)
            if isinstance(x, Node) and any(y is UNDEF for y in t.leaves(x)):
                return apply(lambda y: Raise('AttributeError', name) if y is UNDEF else y, x)
            return x
        if k is not None:
            if isinstance(v, Func):
                if v.kind == 'staticmethod':
                    return v
                return Bound(v, cls if v.kind == 'classmethod' else ref)
            return v
        if cls is not None:
            _, ga = cls.find('__getattr__')
            if isinstance(ga, Func):
                return self.call(st, Bound(ga, ref), [name], {})
        if o.meta and o.meta[0] == 'sym':
            # lazily created symbolic input
            v = self.lazy_attr(st, ref, o, name)
            d = dict(st.get(ref).data)
            d[name] = v
            st.put(ref, HObj('inst', cls, d, o.meta))
            return v
        return Raise('AttributeError', '%s.%s' % (cls.name if cls else '?', name))

    def lazy_attr(self, st, ref, o, name):
        full = '%s.%s' % (o.meta[1], name)
        if self.attr_hook:
            v = self.attr_hook(self, st, ref, o, name, full)
            if v is not None:
                return v
        return t.sym(full, self.sign_rule(full))

    def setattr(self, st, obj, name, v):
        if isinstance(obj, Node):
            self.fmap_fx(st, obj, lambda o, s: self.setattr_leaf(s, o, name, v))
            return
        self.setattr_leaf(st, obj, name, v)

    def setattr_leaf(self, st, obj, name, v):
        if isinstance(obj, Cls):
            obj.attrs[name] = v
            return None
        if not isinstance(obj, Ref):
            if self.lost_writes is not None and isinstance(obj, U):
                self.lost_writes.add(name)
            return None
        o = st.get(obj)
        if isinstance(o, Node):
            alts = []
            for l in t.leaves(o):
                if l not in alts:
                    alts.append(l)
            st.put(obj, apply(lambda h: HObj(h.kind, h.cls, dict(h.data, **{name: v}), h.meta)
                              if h.kind == 'inst' else h, o))
            return None
        if o is None:
            return None
        if o.kind == 'inst' and o.cls is not None:
            _, sa = o.cls.find('__setattr__')
            if isinstance(sa, Func):
                self.call(st, Bound(sa, obj), [name, v], {})
                return None
        self.default_set(st, obj, name, v)
        return None

    def default_set(self, st, obj, name, v):
        o = st.get(obj)
        if isinstance(o, HObj) and o.kind == 'inst' and o.cls is not None:
            k, p = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    return Raise('AttributeError', "can't set %s" % name)
                self.call(st, Bound(p.fset, obj), [v], {})
                return None
        self.raw_set(st, obj, name, v)
        return None

    def raw_set(self, st, obj, name, v):
        o = st.get(obj)
        if not isinstance(o, HObj):
            return
        self.note_write(obj, name)
        if o.kind == 'inst':
            d = dict(o.data)
            d[name] = v
            st.put(obj, HObj('inst', o.cls, d, o.meta))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, cx):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'print':
            return None
        if isinstance(f, ast.Name) and f.id == 'super':
            if self.lookup('super', st, cx) == Builtin('super'):
                return self.make_super(e, st, cx)
        fv = self.ev(f, st, cx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                its = self.iterate(st, self.ev(a.value, st, cx))
                if its is None:
                    its = [U('*args')]
                args.extend(its)
            else:
                args.append(self.ev(a, st, cx))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, cx)
            if k.arg is None:
                o = st.get(v) if isinstance(v, Ref) else None
                if isinstance(o, HObj) and o.kind == 'dict':
                    for kk, vv in o.data.items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                continue
            kw[k.arg] = v
        return self.call(st, fv, args, kw, e, cx)

    def make_super(self, e, st, cx):
        if e.args:
            c = self.ev(e.args[0], st, cx)
            o = self.ev(e.args[1], st, cx) if len(e.args) > 1 else cx.selfv
            if isinstance(c, Cls):
                return SuperV(c, o)
            return U('super')
        c = cx.cls
        o = cx.selfv
        if c is None or o is None:
            return U('super')
        return SuperV(c, o)

    def call(self, st, fv, args, kw, node=None, cx=None):
        return self.fmap_fx(st, fv, lambda f, s: self.call_leaf(s, f, args, kw, node, cx))

    def call_leaf(self, st, f, args, kw, node=None, cx=None):
        if isinstance(f, Raise):
            return f
        if isinstance(f, U):
            return f
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(st, f.func, [f.obj] + list(args), kw)
            if isinstance(f.func, Prop):
                return U('prop call')
            return self.call_leaf(st, f.func, [f.obj] + list(args), kw, node, cx)
        if isinstance(f, Func):
            return self.call_func(st, f, list(args), kw)
        if isinstance(f, Cls):
            return self.construct(st, f, args, kw)
        if isinstance(f, (Builtin, Ext)):
            if not (isinstance(f, Builtin) and (f.name in WHOLE or f.name.split('.')[-1] == 'append')):
                for i, a in enumerate(([f.obj] if isinstance(f, Builtin) else [None]) + list(args)):
                    if self.variants(st, a):
                        return self.each_variant(st, a, lambda s: self.call_leaf(s, f, args, kw, node, cx))
                    if i and isinstance(a, Node) and isinstance(f, Builtin) and f.name in EACH and self.containers(st, a):
                        return self.fmap_fx(st, a, lambda x, s: self.call_leaf(s, f, list(args[:i - 1]) + [x] + list(args[i:]), kw, node, cx))
            if isinstance(f, Builtin):
                return self.np.builtin(self, st, f, args, kw, cx)
            return self.np.ext_call(self, st, f.path, args, kw)
        if isinstance(f, Ref):
            o = st.get(f)
            if isinstance(o, HObj) and o.kind == 'inst' and o.cls is not None:
                _, m = o.cls.find('__call__')
                if m is not None:
                    return self.call_leaf(st, Bound(m, f), args, kw, node, cx)
            return U('call object')
        if isinstance(f, Sym):
            nums = []
            ok = not kw
            for a in args:
                if isinstance(a, E):
                    nums.append(a)
                elif isinstance(a, Ref) and isinstance(st.get(a), HObj) and st.get(a).kind in ('list', 'nd') and \
                        all(isinstance(x, E) for x in st.get(a).data):
                    nums.extend(st.get(a).data)
                elif isinstance(a, (Node,)):
                    return self.fmap(st, a, lambda x, s: self.call_leaf(s, f, [x], kw)) if len(args) == 1 else U('call')
                else:
                    ok = False
            if ok:
                return t.fn('call:' + f.name, *nums) if nums else t.sym('call:' + f.name, t.ANY)
            return U('call symbol')
        if f is None or isinstance(f, (E, str, bool, Tup)):
            return Raise('TypeError', 'not callable')
        return U('call')

    def construct(self, st, c, args, kw):
        if c.enum:
            if len(args) == 1:
                res = Raise('ValueError', 'enum')
                for m in c.members:
                    cnd = self.compare(st, ast.Eq(), st.get(m).data['value'] if isinstance(m, Ref) else m, args[0])
                    res = ite(self.clean_cond(cnd), m, res)
                return res
            return U('enum')
        ov = self.func_overrides.get((c.mod, c.name))
        if ov is not None:
            return ov(self, st, args, kw)
        r = st.alloc('inst', c, {})
        k, init = c.find('__init__')
        if isinstance(init, Func):
            res = self.call_func(st, init, [r] + list(args), kw)
            if isinstance(res, Raise):
                return res
            if isinstance(res, Node):
                rs = [x for x in t.leaves(res) if isinstance(x, Raise)]
                if rs:
                    return apply(lambda x: x if isinstance(x, Raise) else r, res)
        elif any('__dataclass__' in b.attrs for b in c.mro()):
            fields = []
            for b in reversed(c.mro()):
                for s in b.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Call) and _decname(v) == 'field':
                            kws = {x.arg: x.value for x in v.keywords}
                            if isinstance(kws.get('init'), ast.Constant) and kws['init'].value is False:
                                continue
                            if 'default_factory' in kws and s.target.id not in kw:
                                return U('dataclass default factory')
                        if s.target.id not in fields:
                            fields.append(s.target.id)
            if len(args) > len(fields) or any(x not in fields for x in kw):
                return Raise('TypeError', '%s: arguments' % c.name)
            for i, nm in enumerate(fields):
                if i < len(args):
                    self.raw_set(st, r, nm, args[i])
                elif nm in kw:
                    self.raw_set(st, r, nm, kw[nm])
                elif c.find(nm)[0] is None:
                    return Raise('TypeError', '%s: missing argument %s' % (c.name, nm))
            k, post = c.find('__post_init__')
            if isinstance(post, Func):
                res = self.call_func(st, post, [r], {})
                if isinstance(res, Raise):
                    return res
                if isinstance(res, Node) and any(isinstance(x, Raise) for x in t.leaves(res)):
                    return apply(lambda x: x if isinstance(x, Raise) else r, res)
        else:
            for p in c.ext_bases():
                if p.split('.')[-1] in ('dict', 'list', 'ndarray', 'Exception'):
                    return U('subclass of ' + p)
        return r

    def bind(self, st, f, args, kw):
        """Bind arguments; returns dict or Raise."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos) and a.vararg is None:
            return Raise('TypeError', '%s: too many arguments' % f.qual)
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(pos):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in env and k in pos[:len(args)]:
                    return Raise('TypeError', '%s: multiple values for %s' % (f.qual, k))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return Raise('TypeError', '%s: unexpected keyword %s' % (f.qual, k))
        if a.kwarg is not None:
            env[a.kwarg.arg] = st.alloc('dict', None, extra)
        for n in pos + kwonly:
            if n not in env:
                if n in f.defaults:
                    env[n] = f.defaults[n]
                else:
                    return Raise('TypeError', '%s: missing argument %s' % (f.qual, n))
        return env

    def call_func(self, st, f, args, kw):
        ov = self.func_overrides.get((f.mod, f.qual))
        if ov is not None:
            return ov(self, st, args, kw)
        for i, a in enumerate(args):
            if isinstance(a, Node) and self.containers(st, a):
                # one call for each of the containers it may be
                return self.fmap_fx(st, a, lambda x, s: self.call_func(s, f, list(args[:i]) + [x] + list(args[i + 1:]), kw))
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            return U('recursion')
        try:
            env = self.bind(st, f, args, kw)
            if isinstance(env, Raise):
                return env
            for n in f_yields(f.node):
                return U('generator')
            fr = st.alloc('frame', None, env, ('fun', f.frame))
            self.visited.setdefault((f.mod, f.qual), f.node.lineno)
            cx = Cx(f.mod, fr, f.cls, f)
            pos = f.node.args.posonlyargs + f.node.args.args
            if pos and args:
                cx.selfv = args[0]
            self.callstack.append((f.mod, f.qual, f.node.lineno))
            old_try = self.try_depth
            ctx0 = st.ctx
            try:
                ex = self.exec_block(f.node.body, st, cx)
            finally:
                self.callstack.pop()
                self.try_depth = old_try
                st.ctx = ctx0

            def fin(x):
                if x is FALL:
                    return None
                if isinstance(x, Exit):
                    if x.kind == 'ret':
                        return x.val
                    if x.kind == 'raise':
                        return x.val
                return U('exit')
            if isinstance(ex, Exit) and ex.kind == 'ret':
                return ex.val
            if isinstance(ex, Node):
                return self.flatten(ex, fin)
            return fin(ex)
        finally:
            self.depth -= 1

    def variants(self, st, ref):
        """The two to eight lists, dicts or sets that the content of a reference may be; None when it is not gated so."""
        if not isinstance(ref, Ref):
            return None
        o = st.get(ref)
        if not isinstance(o, Node):
            return None
        alts = []
        for h in t.leaves(o):
            if not isinstance(h, HObj) or h.kind not in ('list', 'dict', 'set'):
                return None
            if not any(h is a for a in alts):
                alts.append(h)
        return alts if 1 < len(alts) <= 8 else None

    def each_variant(self, st, ref, f):
        """f on a state for each content of the reference, the effects merged."""
        alts = self.variants(st, ref)
        if alts is None:
            return f(st)
        o = st.get(ref)

        def one(h, s):
            s.put(ref, h)
            return f(s)

        def go(i, s):
            if i == len(alts) - 1:
                return one(alts[i], s)
            c = apply(lambda x: x is alts[i], o)
            return self.branch(s, c, lambda s2: one(alts[i], s2), lambda s2: go(i + 1, s2))
        return go(0, st)

    def containers(self, st, a):
        """a is one of several (up to eight) lists or dicts."""
        ls = set()
        for x in t.leaves(a):
            if isinstance(x, Tup):
                ls.add(id(x))
            elif isinstance(x, Ref):
                o = st.get(x)
                if not isinstance(o, HObj) or o.kind not in ('list', 'dict'):
                    return False
                ls.add(x.id)
            else:
                return False
        return 1 < len(ls) <= 8

    def flatten(self, ex, fin):
        """Exit diagram -> value diagram (exit values may themselves be diagrams)."""
        memo = {}

        def go(n):
            if not isinstance(n, Node):
                return fin(n)
            r = memo.get(n)
            if r is None:
                r = t._build(n.pred, tuple(go(k) for k in n.kids))
                memo[n] = r
            return r
        return go(ex)

    # ------------------------------------------------------------ driver API
    def state(self):
        return State(self, {})

    def cls(self, mod, name):
        v = self.mod_lookup(mod, name)
        return v if isinstance(v, Cls) else None

    def symbolic(self, st, cls, name, /, **attrs):
        """Instance of cls with unknown state; attributes are created on demand."""
        r = st.alloc('inst', cls, dict(attrs), ('sym', name))
        return r

    def func(self, mod, name):
        parts = name.split('.')
        v = self.mod_lookup(mod, parts[0])
        for p in parts[1:]:
            if isinstance(v, Cls):
                _, v = v.find(p)
        return v

    def callf(self, mod, name, *args, st=None, **kw):
        st = st or self.state()
        return self.call(st, self.func(mod, name), list(args), kw)


class LazyImport(Leaf):
    """Name imported while the exporting module was still loading."""
    __slots__ = ('mod', 'name')

    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def resolve(self, it):
        v = it.mod_lookup(self.mod, self.name)
        if v is UNDEF or isinstance(v, LazyImport):
            return Raise('ImportError', '%s.%s' % (self.mod, self.name))
        return v


class PairL(Leaf):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class Exit(Leaf):
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class Fall(Leaf):
    __slots__ = ()


FALL = Fall()


class Cx:
    """Evaluation context: module, local frame, enclosing class and receiver."""
    __slots__ = ('mod', 'frame', 'cls', 'func', 'selfv', 'globals', 'in_try')

    def __init__(self, mod, frame, cls, func):
        self.mod, self.frame, self.cls, self.func = mod, frame, cls, func
        self.selfv = None
        self.globals = set()
        self.in_try = False


OPNAME = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow',
          ast.MatMult: 'matmul', ast.FloorDiv: 'floordiv', ast.Mod: 'mod'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'sort', 'reverse'}
_LAMBDAS = {}
_YIELDS = {}


def f_yields(node):
    k = id(node)
    if k not in _YIELDS:
        found = []
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found.append(n)
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _YIELDS[k] = (node, found)
    return _YIELDS[k][1]


def _reframe(v, frame):
    if isinstance(v, Func):
        return Func(v.node, v.mod, frame, v.cls, v.name, v.defaults, v.kind, v.flags)
    if isinstance(v, Prop):
        return Prop(_reframe(v.fget, frame) if v.fget else None,
                    _reframe(v.fset, frame) if v.fset else None, v.cached)
    return v


def _decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    return d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else '')


