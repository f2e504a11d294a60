"""Helpers shared by the rule modules."""
from . import terms as t
from . import interp as I
from . import model
from .core import compare, Undecided, Dev

POS, NN, ANY = '+', '0+', '?'


class Raised(Exception):
    """A call of a rule always raises; the exception is the value of the obligation."""

    def __init__(self, value):
        super().__init__(I.show(value))
        self.value = value


def returned(v):
    if isinstance(v, I.Raise):
        raise Raised(v)
    return v


class Kit:
    """One analysis context: an interpreter with fresh value tables."""

    def __init__(self, r, spec=None, hints=None, **kw):
        r.fresh()
        model.HINTS = dict(hints or {})
        self.r = r
        self.it = r.interp(**kw)
        self.spec_mod = spec

    # symbols
    def s(self, name, sign=POS):
        return t.sym(name, sign)

    def ss(self, names, sign=POS):
        return [t.sym(n, sign) for n in names.split()]

    def n(self, x):
        return t.num(x)

    def st(self):
        self.it.steps = 0
        return self.it.state()

    def cls(self, mod, name):
        c = self.it.cls(mod, name)
        if c is None:
            raise Undecided('class %s.%s not found' % (mod, name))
        return c

    def new(self, st, mod, name, /, *args, **kw):
        r = self.it.construct(st, self.cls(mod, name), list(args), kw)
        return returned(self.obj(r))

    def obj(self, r):
        if isinstance(r, t.Node):
            refs = [x for x in t.leaves(r) if isinstance(x, I.Ref)]
            if len(set(refs)) == 1:
                return refs[0]
        return r

    def fake(self, st, mod, name, sym, /, **attrs):
        """Symbolic instance: every unset attribute is a fresh symbol."""
        return self.it.symbolic(st, self.cls(mod, name), sym, **attrs)

    def get(self, st, o, path):
        for p in path.split('.'):
            o = returned(self.it.getattr(st, o, p))
        return o

    def set(self, st, o, name, v):
        self.it.setattr(st, o, name, v)

    def raw(self, st, o, name, v):
        self.it.raw_set(st, o, name, v)

    def call(self, st, o, meth, /, *args, **kw):
        f = returned(self.it.getattr(st, o, meth))
        return returned(self.it.call(st, f, list(args), kw))

    def f(self, st, mod, name, /, *args, **kw):
        f = self.it.func(mod, name)
        if f is None:
            raise Undecided('function %s.%s not found' % (mod, name))
        return returned(self.it.call(st, f, list(args), kw))

    def sp(self, st, name, /, *args, **kw):
        mod = self.spec_mod
        if ':' in name:
            mod, name = name.split(':')
        f = self.it.func('spec.' + mod, name)
        if f is None:
            raise RuntimeError('no reference %s.%s' % (mod, name))
        return self.it.call(st, f, list(args), kw)

    def lst(self, st, *items):
        return st.alloc('list', None, tuple(items))

    def nd(self, st, shape, items):
        return st.alloc('nd', None, tuple(items), tuple(shape))

    def dct(self, st, d):
        return st.alloc('dict', None, dict(d))

    def tup(self, *items):
        return I.Tup(items)

    def items(self, st, v):
        """Elements of a list/tuple/array value."""
        returned(v)
        if isinstance(v, I.Tup):
            return list(v.items)
        if isinstance(v, I.Ref):
            o = st.get(v)
            if isinstance(o, I.HObj) and o.kind in ('list', 'nd'):
                return list(o.data)
        raise Undecided('not a sequence: %s' % I.show(v)[:80])

    def steel(self, st, fy=None, fu=None, E=None):
        return self.fake(st, 'metku.materials.steel_data', 'Steel', 'mat',
                         fy=fy if fy is not None else self.s('fy'),
                         fu=fu if fu is not None else self.s('fu'),
                         E=E if E is not None else self.s('E'))

    def strength(self, st, o, path='material', **props):
        """Give the steel of a section symbolic properties (through its public interface)."""
        if path:
            self.set(st, o, path, 'S355')
            m = self.obj(self.get(st, o, path))
        else:
            m = o
        for a, v in props.items():
            self.raw(st, m, a, v)
        return m

    def shared(self, build):
        """Lazily built (state, object) used by several obligations; each read gets a fork."""
        cell = []

        def get():
            if not cell:
                st = self.st()
                cell.append((st, build(st)))
            st, o = cell[0]
            return st.fork(), o
        return get

    # obligations
    def eq(self, key, where, rule, code, want, ctx=None, name=None, alt=None, assume=False):
        """code(st) must equal want(st) for every input.

        alt: {signature: reference of a recorded deviation}; a mismatch that equals one of
        them carries that signature (see KNOWN_FINDINGS.txt)."""
        c = ctx(self) if callable(ctx) else ctx

        def value(f):
            st = self.st()
            if assume and c is not None:
                st.ctx = c
            try:
                v = f(st)
            except Raised as e:
                v = e.value
            return v if isinstance(v, tuple) else (st, v)

        def thunk():
            self.it.steps = 0
            try:
                st, got = value(code)
                st2, w = value(want)
                devs = compare(st, got, st2, w, name or key, c)
                if alt and any(isinstance(d, Dev) for d in devs):
                    for sig, f in alt.items():
                        st3, v = value(f)
                        if not compare(st, got, st3, v, name or key, c):
                            for d in devs:
                                if isinstance(d, Dev):
                                    d.sig = sig
                            break
                return devs
            finally:
                self.r.note(self.it)
        self.r.ob(key, where, rule, thunk)

    def must(self, key, where, rule, thunk):
        def go():
            self.it.steps = 0
            try:
                return thunk()
            finally:
                self.r.note(self.it)
        self.r.ob(key, where, rule, go)
