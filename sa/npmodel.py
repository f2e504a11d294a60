"""Abstract models of the numpy / math / builtin functions used by the analysed code."""
import ast
import math as _math
from fractions import Fraction
from . import terms as t
from .terms import E, Node, ite, apply
from . import interp as I

STAR = {
    'math': ['sqrt', 'pi', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'atan2', 'exp', 'log', 'log10', 'pow',
             'floor', 'ceil', 'radians', 'degrees', 'sinh', 'cosh', 'tanh', 'inf', 'e', 'fabs', 'hypot',
             'isclose', 'isnan', 'nan', 'gcd', 'factorial', 'prod', 'copysign', 'fsum', 'trunc', 'isinf'],
    'numpy': ['array', 'zeros', 'ones', 'sqrt', 'pi', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos',
              'arctan2', 'exp', 'log', 'log10', 'linspace', 'arange', 'eye', 'identity', 'dot', 'cross', 'inf',
              'nan', 'abs', 'max', 'min', 'sum', 'append', 'where', 'argmin', 'argmax', 'interp', 'radians',
              'degrees', 'matrix', 'transpose', 'concatenate', 'hstack', 'vstack', 'ix_', 'linalg', 'absolute',
              'maximum', 'minimum', 'mean', 'sign', 'round', 'floor', 'ceil', 'power', 'diag', 'outer',
              'matmul', 'asarray', 'empty', 'full', 'isnan', 'isclose', 'allclose', 'cumsum', 'prod', 'unique',
              'random', 'ndarray', 'float64', 'rad2deg', 'deg2rad', 'hypot', 'clip', 'newaxis', 'e']}

MATHALIAS = {'arctan': 'arctan', 'atan': 'arctan', 'arcsin': 'arcsin', 'asin': 'arcsin', 'arccos': 'arccos',
             'acos': 'arccos', 'arctan2': 'arctan2', 'atan2': 'arctan2', 'deg2rad': 'radians',
             'rad2deg': 'degrees', 'fabs': 'abs', 'absolute': 'abs'}
UFUNC1 = {'sqrt', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'exp', 'log', 'log10', 'radians', 'degrees',
          'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'abs', 'sign', 'square', 'rint', 'trunc', 'cbrt', 'arcsinh',
          'arccosh', 'arctanh', 'log2', 'negative'}


def num1(name, a):
    """Elementary function of one value number."""
    if name == 'abs':
        return t.abs_(a)
    if name == 'negative':
        return t.neg(a)
    if name == 'square':
        return t.mul(a, a)
    if name == 'sign':
        return t.sign_node(a, t.num(-1), t.ZERO, t.UNIT)
    if name in ('floor', 'ceil', 'rint', 'trunc') and a.is_const():
        c = a.const()
        return t.num({'floor': _math.floor, 'ceil': _math.ceil, 'rint': round, 'trunc': _math.trunc}[name](c))
    if name == 'sqrt':
        if t.sign_of(a) == '-':
            return I.Raise('ValueError', 'sqrt of negative value')
        return t.power(a, Fraction(1, 2))
    if name == 'cbrt':
        return t.power(a, Fraction(1, 3))
    if name == 'log' and a.is_const() and a.const() <= 0:
        return I.Raise('ValueError', 'log')
    try:
        if name in ('log10', 'log2'):
            if a.is_const() and a.const() <= 0:
                return I.Raise('ValueError', name)
            return t.div(t.fn('log', a), t.fn('log', t.num(10 if name == 'log10' else 2)))
        return t.fn(name, a)
    except t.DivZero:
        return I.Raise('ZeroDivisionError', name)


def prodn(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def mk(st, data, shape):
    return st.alloc('nd', None, tuple(data), tuple(shape))


def is_nd(st, v):
    o = st.get(v) if isinstance(v, I.Ref) else None
    return isinstance(o, I.HObj) and o.kind == 'nd'


def to_nd(it, st, v):
    """(data, shape) of an array-like or None."""
    if isinstance(v, I.Ref):
        o = st.get(v)
        if not isinstance(o, I.HObj):
            return None
        if o.kind == 'nd':
            return o.data, o.meta
        if o.kind in ('list', 'set'):
            return _stack(it, st, o.data)
        return None
    if isinstance(v, I.Tup):
        return _stack(it, st, v.items)
    if isinstance(v, bool):
        return (v,), ()
    if isinstance(v, (E,)) or v is None:
        return (v,), ()
    if isinstance(v, Node):
        ls = t.leaves(v)
        if all(isinstance(x, (E, bool, I.Raise, I.U)) for x in ls):
            return (v,), ()
        return None
    if isinstance(v, (I.Raise, I.Sym, str, I.U)):
        return (v,), ()
    return None


def _stack(it, st, items):
    subs = [to_nd(it, st, x) for x in items]
    if any(s is None for s in subs):
        if all(isinstance(x, I.Ref) for x in items):
            return tuple(items), (len(items),)
        return None
    if not subs:
        return (), (0,)
    sh = subs[0][1]
    if any(s[1] != sh for s in subs):
        return 'ragged'
    return tuple(x for s in subs for x in s[0]), (len(items),) + tuple(sh)


def unbox(it, st, data, shape):
    if shape == ():
        return data[0]
    return mk(st, data, shape)


def _bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return tuple(out)


def _bindex(shape, out):
    """Flat source index for every flat index of the broadcast result."""
    sh = (1,) * (len(out) - len(shape)) + tuple(shape)
    strides = []
    s = 1
    for d in reversed(sh):
        strides.append(0 if d == 1 else s)
        s *= d
    strides.reverse()
    idx = [0]
    for d, k in zip(out, strides):
        idx = [i + k * j for i in idx for j in range(d)]
    return idx


def broadcast(it, st, a, b, f, op=None):
    if op is not None and isinstance(op, ast.MatMult):
        return dot(it, st, a, b)
    x, y = to_nd(it, st, a), to_nd(it, st, b)
    if x is None or y is None or x == 'ragged' or y == 'ragged':
        return I.U('broadcast')
    out = _bshape(x[1], y[1])
    if out is None:
        return I.Raise('ValueError', 'shape mismatch %s %s' % (x[1], y[1]))
    ia, ib = _bindex(x[1], out), _bindex(y[1], out)
    return unbox(it, st, tuple(f(x[0][i], y[0][j]) for i, j in zip(ia, ib)), out)


def ufunc(it, st, v, f):
    x = to_nd(it, st, v)
    if x is None or x == 'ragged':
        if isinstance(v, Node):
            return it.fmap(st, v, lambda y, s: ufunc(it, s, y, f) if not isinstance(y, (I.U, I.Raise)) else y)
        return I.U('ufunc')
    return unbox(it, st, tuple(elem(it, st, y, f) for y in x[0]), x[1])


def elem(it, st, v, f):
    def leaf(x, s):
        if isinstance(x, bool):
            x = t.num(int(x))
        if isinstance(x, E):
            return f(x)
        if isinstance(x, I.Sym):
            return f(it.symnum(x))
        if isinstance(x, (I.Raise, I.U)):
            return x
        if x is None:
            return I.Raise('TypeError', 'None in arithmetic')
        return I.U('elem')
    return it.fmap(st, v, leaf)


def add(it, st, a, b):
    return it.binop(st, ast.Add(), a, b)


def mul(it, st, a, b):
    return it.binop(st, ast.Mult(), a, b)


def sub(it, st, a, b):
    return it.binop(st, ast.Sub(), a, b)


def dotsum(it, st, xs, ys):
    r = t.ZERO
    for x, y in zip(xs, ys):
        if isinstance(x, E) and not x.N or isinstance(y, E) and not y.N:
            continue
        r = add(it, st, r, mul(it, st, x, y))
    return r


def dot(it, st, a, b):
    x, y = to_nd(it, st, a), to_nd(it, st, b)
    if x is None or y is None or x == 'ragged' or y == 'ragged':
        return I.U('dot')
    (da, sa), (db, sb) = x, y
    if sa == () or sb == ():
        return broadcast(it, st, a, b, lambda p, q: mul(it, st, p, q))
    if len(sa) == 1 and len(sb) == 1:
        if sa != sb:
            return I.Raise('ValueError', 'dot shapes %s %s' % (sa, sb))
        return dotsum(it, st, da, db)
    if len(sa) == 2 and len(sb) == 1:
        if sa[1] != sb[0]:
            return I.Raise('ValueError', 'dot shapes %s %s' % (sa, sb))
        return mk(st, [dotsum(it, st, da[i * sa[1]:(i + 1) * sa[1]], db) for i in range(sa[0])], (sa[0],))
    if len(sa) == 1 and len(sb) == 2:
        if sa[0] != sb[0]:
            return I.Raise('ValueError', 'dot shapes %s %s' % (sa, sb))
        return mk(st, [dotsum(it, st, da, db[j::sb[1]]) for j in range(sb[1])], (sb[1],))
    if len(sa) == 2 and len(sb) == 2:
        if sa[1] != sb[0]:
            return I.Raise('ValueError', 'dot shapes %s %s' % (sa, sb))
        out = []
        for i in range(sa[0]):
            row = da[i * sa[1]:(i + 1) * sa[1]]
            for j in range(sb[1]):
                out.append(dotsum(it, st, row, db[j::sb[1]]))
        return mk(st, out, (sa[0], sb[1]))
    return I.U('dot')


def transpose(st, o):
    if len(o.meta) == 2:
        n, m = o.meta
        return mk(st, [o.data[i * m + j] for j in range(m) for i in range(n)], (m, n))
    if len(o.meta) <= 1:
        return mk(st, o.data, o.meta)
    return I.U('transpose')


def rows(it, st, ref):
    o = st.get(ref)
    sh = o.meta
    if sh == ():
        return None
    k = prodn(sh[1:])
    if len(sh) == 1:
        return list(o.data)
    out = [mk(st, o.data[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]
    for i, r in enumerate(out):
        it.add_view(ref.id, r.id, range(i * k, (i + 1) * k))
    return out


def _axis_index(it, st, i, n):
    """-> ('int', k) | ('list', [k..]) | None | Raise"""
    if isinstance(i, bool):
        return None
    if isinstance(i, E):
        if i.is_const() and i.const().denominator == 1:
            k = int(i.const())
            if not -n <= k < n:
                return I.Raise('IndexError', '%d of %d' % (k, n))
            return ('int', k % n)
        return None
    if isinstance(i, I.SliceV):
        s = it.pyslice(i)
        if s is None:
            return None
        return ('list', list(range(*s.indices(n))))
    x = None
    if isinstance(i, (I.Ref, I.Tup)):
        x = to_nd(it, st, i)
    if x is None or x == 'ragged':
        return None
    if x[0] and all(isinstance(k, bool) for k in x[0]):
        return ('list', [j for j, k in enumerate(x[0]) if k])
    out = []
    for k in x[0]:
        if not (isinstance(k, E) and k.is_const() and k.const().denominator == 1):
            return None
        k = int(k.const())
        if not -n <= k < n:
            return I.Raise('IndexError', '%d of %d' % (k, n))
        out.append(k % n)
    return ('fancy', out, x[1])


def _select(it, st, o, idx):
    """Flat positions selected and resulting shape; None if unknown; Raise."""
    if isinstance(idx, I.Sym) and idx.kind == 'ix':
        return None
    items = list(idx.items) if isinstance(idx, I.Tup) else [idx]
    sh = o.meta
    if any(isinstance(x, I.Sym) and x.kind == 'ellipsis' for x in items):
        return None
    # ix_ grids
    if isinstance(idx, I.Tup) and idx.items and isinstance(idx.items[0], str) and idx.items[0] == 'ix_':
        grids = []
        for x, n in zip(idx.items[1:], sh):
            a = _axis_index(it, st, x, n)
            if a is None or isinstance(a, I.Raise):
                return a
            grids.append(a[1])
        return _outer(grids, sh), tuple(len(g) for g in grids)
    # boolean mask over the whole array
    if len(items) == 1 and isinstance(items[0], I.Ref):
        x = to_nd(it, st, items[0])
        if x and x != 'ragged' and len(x[1]) == len(sh) and x[0] and all(isinstance(k, bool) for k in x[0]) \
                and x[1] == sh:
            pos = [j for j, k in enumerate(x[0]) if k]
            return pos, (len(pos),)
    newaxes = []
    real = []
    for x in items:
        if x is None:
            newaxes.append(len(real) + len(newaxes))
        else:
            real.append(x)
    if len(real) > len(sh):
        return I.Raise('IndexError', 'too many indices')
    axes = []
    for x, n in zip(real, sh):
        a = _axis_index(it, st, x, n)
        if a is None or isinstance(a, I.Raise):
            return a
        axes.append(a)
    for n in sh[len(axes):]:
        axes.append(('list', list(range(n))))
    fancy = [k for k, a in enumerate(axes) if a[0] == 'fancy']
    if len(fancy) > 1:
        shs = [axes[k][2] for k in fancy]
        out = ()
        for s in shs:
            out = _bshape(out, s)
            if out is None:
                return I.Raise('IndexError', 'fancy index shapes')
        if len(fancy) != len(axes):
            return None
        cols = []
        for k in fancy:
            bi = _bindex(axes[k][2], out)
            cols.append([axes[k][1][b] for b in bi])
        pos = []
        for tup in zip(*cols):
            p = 0
            for v, n in zip(tup, sh):
                p = p * n + v
            pos.append(p)
        return pos, out
    pos = _outer([[a[1]] if a[0] == 'int' else a[1] for a in axes], sh)
    shape = []
    for a in axes:
        if a[0] == 'list':
            shape.append(len(a[1]))
        elif a[0] == 'fancy':
            shape.extend(a[2])
    for p in newaxes:
        shape.insert(p, 1)
    return pos, tuple(shape)


def _outer(lists, sh):
    pos = [0]
    for l, n in zip(lists, sh):
        pos = [p * n + v for p in pos for v in l]
    return pos


def getitem(it, st, ref, o, idx):
    if isinstance(idx, Node):
        return I.U('gated index')
    sel = _select(it, st, o, idx)
    if sel is None:
        if isinstance(idx, E) and len(o.meta) == 1 and len(o.data) <= 12:
            return it.seq_item(st, o.data, idx, lambda xs: None)
        return I.U('array index')
    if isinstance(sel, I.Raise):
        return sel
    pos, shape = sel
    r = unbox(it, st, tuple(o.data[p] for p in pos), shape)
    if shape != () and isinstance(r, I.Ref) and all(
            x is None or isinstance(x, (E, I.SliceV)) for x in (idx.items if isinstance(idx, I.Tup) else (idx,))):
        it.add_view(ref.id, r.id, pos)
    return r


def setitem(it, st, ref, o, idx, v):
    sel = _select(it, st, o, idx)
    if sel is None:
        if isinstance(idx, E) and len(o.meta) == 1 and len(o.data) <= 12:
            return I.HObj('nd', o.cls, tuple(ite(it.compare(st, ast.Eq(), idx, t.num(i)), v, x)
                                             for i, x in enumerate(o.data)), o.meta)
        # masked assignment a[a < x] = v
        m = to_nd(it, st, idx) if isinstance(idx, I.Ref) else None
        if m and m != 'ragged' and m[1] == o.meta and not isinstance(v, (I.Ref, I.Tup)):
            return I.HObj('nd', o.cls, tuple(ite(it.clean_cond(c), v, x) for c, x in zip(m[0], o.data)), o.meta)
        return I.HObj('unk', None, (), 'array index')
    if isinstance(sel, I.Raise):
        return None
    pos, shape = sel
    x = to_nd(it, st, v)
    if x is None or x == 'ragged':
        l = list(o.data)
        if len(pos) == 1 and not isinstance(v, (I.Ref, I.Tup)):
            l[pos[0]] = v
            return I.HObj('nd', o.cls, tuple(l), o.meta)
        return I.HObj('unk', None, (), 'array store')
    data, sh = x
    while len(sh) > len(shape) and sh and sh[0] == 1:
        sh = sh[1:]
    if _bshape(sh, shape) != tuple(shape):
        return I.HObj('nd', o.cls, tuple(I.Raise('ValueError', 'store shape %s into %s' % (sh, shape))
                                         for _ in o.data), o.meta)
    bi = _bindex(sh, shape)
    l = list(o.data)
    for p, b in zip(pos, bi):
        l[p] = data[b]
    return I.HObj('nd', o.cls, tuple(l), o.meta)


def attr(it, st, ref, o, name):
    if name == 'T':
        return transpose(st, o)
    if name == 'shape':
        return I.Tup([t.num(x) for x in o.meta])
    if name == 'size':
        return t.num(len(o.data))
    if name == 'ndim':
        return t.num(len(o.meta))
    if name in ('flat', 'real'):
        return mk(st, o.data, (len(o.data),)) if name == 'flat' else ref
    return I.Builtin('nd.' + name, ref)


def ext_const(it, path):
    last = path.split('.')[-1]
    root = path.split('.')[0]
    if root in ('math', 'numpy', 'np'):
        if last == 'pi':
            return t.PI()
        if last in ('inf', 'Inf', 'infty'):
            return t.INF()
        if last == 'e':
            return t.fn('exp', t.UNIT)
        if last == 'newaxis':
            return None
        if last == 'nan':
            return I.U('nan')
    return I.Ext(path)


# ---------------------------------------------------------------- reductions
def flat(it, st, v, axis=None):
    x = to_nd(it, st, v)
    if x is None or x == 'ragged':
        return None
    return x


def reduce_(it, st, v, f, axis=None, empty=None):
    if isinstance(v, Node):
        return it.fmap(st, v, lambda y, s: reduce_(it, s, y, f, axis, empty) if not isinstance(y, (I.U, I.Raise)) else y)
    if isinstance(v, I.Ref) and isinstance(st.get(v), Node):
        return it.content_map(st, v, lambda h: reduce_(it, st, _tmp(st, h), f, axis, empty))
    x = to_nd(it, st, v)
    if x is None or x == 'ragged':
        return I.U('reduction')
    data, sh = x
    if axis is None or len(sh) <= 1:
        if not data:
            return empty if empty is not None else I.Raise('ValueError', 'empty reduction')
        r = data[0]
        for y in data[1:]:
            r = f(r, y)
        return r
    if isinstance(axis, E) and axis.is_const():
        ax = int(axis.const()) % len(sh)
        if len(sh) == 2:
            n, m = sh
            if ax == 0:
                cols = [data[j::m] for j in range(m)]
            else:
                cols = [data[i * m:(i + 1) * m] for i in range(n)]
            out = []
            for c in cols:
                if not c:
                    out.append(empty)
                    continue
                r = c[0]
                for y in c[1:]:
                    r = f(r, y)
                out.append(r)
            return mk(st, out, (len(out),))
    return I.U('reduction axis')


def _tmp(st, h):
    r = st.alloc(h.kind, h.cls, h.data, h.meta)
    return r


def max2(it, st, a, b):
    return it.fmap2(st, a, b, lambda x, y, s: _sel2(it, s, x, y, t.max_))


def min2(it, st, a, b):
    return it.fmap2(st, a, b, lambda x, y, s: _sel2(it, s, x, y, t.min_))


def _sel2(it, st, x, y, f):
    if isinstance(x, I.Raise):
        return x
    if isinstance(y, I.Raise):
        return y
    if isinstance(x, bool):
        x = t.num(int(x))
    if isinstance(y, bool):
        y = t.num(int(y))
    if isinstance(x, I.Sym) and x.kind in ('num', 'any'):
        x = it.symnum(x)
    if isinstance(y, I.Sym) and y.kind in ('num', 'any'):
        y = it.symnum(y)
    if isinstance(x, E) and isinstance(y, E):
        return f([x, y])
    if isinstance(x, str) and isinstance(y, str):
        return max(x, y) if f is t.max_ else min(x, y)
    if isinstance(x, I.U):
        return x
    if isinstance(y, I.U):
        return y
    if x is None or y is None:
        return I.Raise('TypeError', 'max of None')
    return I.U('max')


def numarg(v):
    """int of a constant, else None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, E) and v.is_const() and v.const().denominator == 1:
        return int(v.const())
    return None


def shape_of(it, st, v):
    n = numarg(v)
    if n is not None:
        return (n,)
    its = it.iterate(st, v)
    if its is None:
        return None
    sh = tuple(numarg(x) for x in its)
    if any(x is None or x < 0 for x in sh) or prodn(sh) > 20000:
        return None
    return sh


def cross(it, st, a, b):
    x, y = to_nd(it, st, a), to_nd(it, st, b)
    if not x or not y or x == 'ragged' or y == 'ragged':
        return I.U('cross')
    p, q = x[0], y[0]
    if x[1] == (3,) and y[1] == (3,):
        r = []
        for i, j in ((1, 2), (2, 0), (0, 1)):
            r.append(sub(it, st, mul(it, st, p[i], q[j]), mul(it, st, p[j], q[i])))
        return mk(st, r, (3,))
    if x[1] == (2,) and y[1] == (2,):
        return sub(it, st, mul(it, st, p[0], q[1]), mul(it, st, p[1], q[0]))
    return I.U('cross')


def norm(it, st, v):
    x = to_nd(it, st, v)
    if x is None or x == 'ragged':
        return I.U('norm')
    s = dotsum(it, st, x[0], x[0])
    return elem(it, st, s, lambda y: num1('sqrt', y))


def npround(it, st, v, n=None):
    k = numarg(n) if n is not None else 0

    def f(x):
        if x.is_const() and k is not None:
            c = x.const()
            sc = Fraction(10) ** k
            return t.num(Fraction(round(c * sc)) / sc)
        if it.exact_round is not None and k is not None and k >= it.exact_round:
            return x
        if isinstance(n, E):
            return t.fn('round', x, n)
        return t.fn('round', x, t.ZERO)
    return ufunc(it, st, v, f)


def interp1(it, st, x, xp, fp):
    """Piecewise linear interpolation over concrete-length tables."""
    a, b = to_nd(it, st, xp), to_nd(it, st, fp)
    if not a or not b or a == 'ragged' or b == 'ragged' or len(a[0]) != len(b[0]) or not a[0]:
        return I.U('interp')
    xs, ys = a[0], b[0]
    if not all(isinstance(q, E) for q in xs + ys):
        return I.U('interp')

    def f(v):
        res = ys[-1]
        for i in range(len(xs) - 2, -1, -1):
            dx = t.sub(xs[i + 1], xs[i])
            seg = t.add(ys[i], t.mul(t.div(t.sub(ys[i + 1], ys[i]), dx), t.sub(v, xs[i])))
            c = it.simp(t.sign_node(t.sub(v, xs[i + 1]), True, True, False), st.ctx)
            res = ite(c, seg, res)
        c = it.simp(t.sign_node(t.sub(v, xs[0]), True, False, False), st.ctx)
        return ite(c, ys[0], res)
    return ufunc(it, st, x, f)


def arg_extreme(it, st, v, mx):
    x = to_nd(it, st, v)
    if x is None or x == 'ragged' or not x[0]:
        return I.U('argmax')
    best, bi = x[0][0], t.ZERO
    for i, y in enumerate(x[0][1:], 1):
        c = it.clean_cond(it.compare(st, ast.Gt() if mx else ast.Lt(), y, best))
        best = ite(c, y, best)
        bi = ite(c, t.num(i), bi)
    return bi


def deepcopy(it, st, v, memo=None):
    memo = memo if memo is not None else {}
    if isinstance(v, Node):
        return it.fmap(st, v, lambda x, s: deepcopy(it, s, x, memo))
    if isinstance(v, I.Tup):
        return I.Tup([deepcopy(it, st, x, memo) for x in v.items])
    if isinstance(v, I.Ref):
        if v.id in memo:
            return memo[v.id]
        o = st.get(v)
        if not isinstance(o, I.HObj):
            return I.U('copy')
        if o.meta == 'enum':
            return v
        r = st.alloc(o.kind, o.cls, o.data, o.meta)
        memo[v.id] = r
        if isinstance(o.data, dict):
            d = {k: deepcopy(it, st, x, memo) for k, x in o.data.items()}
        else:
            d = tuple(deepcopy(it, st, x, memo) for x in o.data)
        st.put(r, I.HObj(o.kind, o.cls, d, o.meta))
        return r
    return v


def shallow(it, st, v):
    o = st.get(v) if isinstance(v, I.Ref) else None
    if isinstance(o, I.HObj):
        return st.alloc(o.kind, o.cls, o.data, o.meta)
    return v


def concat(it, st, parts, axis=0):
    for i, p in enumerate(parts):
        if isinstance(p, Node) and all(isinstance(x, (I.Ref, I.Tup)) for x in t.leaves(p)):
            return it.fmap(st, p, lambda x, s: concat(it, s, list(parts[:i]) + [x] + list(parts[i + 1:]), axis))
    xs = [to_nd(it, st, p) for p in parts]
    if any(x is None or x == 'ragged' for x in xs):
        return I.U('concatenate')
    xs = [x if x[1] != () else (x[0], (1,)) for x in xs]
    if all(len(x[1]) == 1 for x in xs):
        d = tuple(y for x in xs for y in x[0])
        return mk(st, d, (len(d),))
    if all(len(x[1]) == 2 for x in xs):
        if axis == 0:
            if len({x[1][1] for x in xs}) != 1:
                return I.Raise('ValueError', 'concatenate')
            d = tuple(y for x in xs for y in x[0])
            return mk(st, d, (sum(x[1][0] for x in xs), xs[0][1][1]))
        if len({x[1][0] for x in xs}) != 1:
            return I.Raise('ValueError', 'concatenate')
        n = xs[0][1][0]
        d = []
        for i in range(n):
            for x in xs:
                m = x[1][1]
                d.extend(x[0][i * m:(i + 1) * m])
        return mk(st, d, (n, sum(x[1][1] for x in xs)))
    return I.U('concatenate')


def is_zero(x):
    return isinstance(x, E) and x.is_const() and x.const() == 0


def det_solve(it, st, A, b=None):
    """Exact determinant and inverse of small matrices by cofactors, block by block (value graphs)."""
    x = to_nd(it, st, A)
    if not x or x == 'ragged' or len(x[1]) != 2 or x[1][0] != x[1][1] or x[1][0] > 24:
        return None
    n = x[1][0]
    M = [[x[0][i * n + j] for j in range(n)] for i in range(n)]
    # blocks of indices coupled by nonzero entries
    label = list(range(n))
    for i in range(n):
        for j in range(n):
            if label[i] != label[j] and not (is_zero(M[i][j]) and is_zero(M[j][i])):
                a, c = label[i], label[j]
                label = [a if y == c else y for y in label]
    blocks = [[i for i in range(n) if label[i] == y] for y in sorted(set(label))]
    if max((len(y) for y in blocks), default=0) > 4:
        return None

    def det(m):
        if len(m) == 1:
            return m[0][0]
        r = t.ZERO
        for j in range(len(m)):
            if is_zero(m[0][j]):
                continue
            minor = [row[:j] + row[j + 1:] for row in m[1:]]
            v = mul(it, st, m[0][j], det(minor))
            r = add(it, st, r, v) if j % 2 == 0 else sub(it, st, r, v)
        return r
    total = t.UNIT
    inv = [[t.ZERO] * n for _ in range(n)]
    for ix in blocks:
        B = [[M[i][j] for j in ix] for i in ix]
        d = det(B)
        total = mul(it, st, total, d)
        for a, i in enumerate(ix):
            for c, j in enumerate(ix):
                minor = [r[:a] + r[a + 1:] for k, r in enumerate(B) if k != c]
                v = det(minor) if len(ix) > 1 else t.UNIT
                if (a + c) % 2:
                    v = elem(it, st, v, t.neg)
                inv[i][j] = it.binop(st, ast.Div(), v, d)
    return total, mk(st, [v for r in inv for v in r], (n, n))


# ---------------------------------------------------------------- ext calls
def ext_call(it, st, path, args, kw):
    if it.ext_hook:
        r = it.ext_hook(it, st, path, args, kw)
        if r is not NotImplemented:
            return r
    parts = path.split('.')
    root, last = parts[0], parts[-1]
    if root == 'np':
        root = 'numpy'
    for a in args:
        if isinstance(a, I.Raise):
            return a
    try:
        if root == 'builtins':
            return I.Sym('exc:' + last, 'exc')
        if root == 'copy':
            hook = '__deepcopy__' if last == 'deepcopy' else '__copy__'
            if isinstance(args[0], I.Ref):
                o = st.get(args[0])
                if isinstance(o, I.HObj) and o.kind == 'inst' and o.cls is not None and o.cls.find(hook)[1] is not None:
                    return it.call(st, it.getattr(st, args[0], hook), [] if last == 'copy' else [st.alloc('dict', None, {})], {})
            return deepcopy(it, st, args[0]) if last == 'deepcopy' else shallow(it, st, args[0])
        if root == 'warnings':
            return None
        if root == 'itertools':
            return itertools_call(it, st, last, args, kw)
        if root == 'functools' and last in ('lru_cache', 'cache', 'wraps'):
            return I.Builtin('identity')
        if root == 'functools' and last == 'reduce' and len(args) >= 2:
            its = it.iterate(st, args[1])
            if its is not None:
                its = list(its)
                acc = args[2] if len(args) > 2 else its.pop(0)
                for x in its:
                    acc = it.call(st, args[0], [acc, x], {})
                return acc
        if root == 'collections' and last in ('OrderedDict', 'defaultdict'):
            return builtin(it, st, I.Builtin('dict'), args if last == 'OrderedDict' else args[1:], kw, None)
        if root == 'operator':
            ops = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div}
            if last in ops:
                return it.binop(st, ops[last](), args[0], args[1])
        if root == 'math' or root == 'numpy' or (root == 'scipy' and False):
            return np_call(it, st, last, args, kw, root, path)
    except (IndexError, KeyError, AttributeError, TypeError) as e:
        return I.U('%s: %s' % (path, e))
    return I.U('call ' + path)


def itertools_call(it, st, last, args, kw):
    import itertools
    ls = [it.iterate(st, a) for a in args[:1 if last in ('combinations', 'permutations') else None]]
    if any(x is None for x in ls):
        return I.U('itertools')
    if last == 'product':
        rep = numarg(kw.get('repeat', t.UNIT)) or 1
        return st.alloc('list', None, tuple(I.Tup(x) for x in itertools.product(*(ls * rep))))
    if last in ('combinations', 'permutations'):
        n = numarg(args[1]) if len(args) > 1 else len(ls[0])
        if n is None:
            return I.U('itertools')
        return st.alloc('list', None, tuple(I.Tup(x) for x in getattr(itertools, last)(ls[0], n)))
    if last == 'chain':
        return st.alloc('list', None, tuple(x for l in ls for x in l))
    return I.U('itertools.' + last)


def _isnone(x):
    return x is None


def np_call(it, st, name, args, kw, root, path):
    name = MATHALIAS.get(name, name)
    a = args[0] if args else None
    if isinstance(a, Node) and name not in UFUNC1 and len(args) == 1:
        pass
    if path.startswith('numpy.linalg') and name == 'norm':
        return norm(it, st, a)
    if path.startswith('numpy.linalg'):
        if name in ('inv', 'det'):
            r = det_solve(it, st, a)
            if r is not None:
                return r[1] if name == 'inv' else r[0]
        if name == 'solve':
            r = det_solve(it, st, a)
            if r is not None:
                return dot(it, st, r[1], args[1])
        return I.U(path)
    if path.startswith('numpy.random'):
        return I.U(path)
    if name == 'log' and root == 'math' and len(args) == 2:
        return it.binop(st, ast.Div(), ufunc(it, st, a, lambda x: num1('log', x)),
                        ufunc(it, st, args[1], lambda x: num1('log', x)))
    if name in UFUNC1:
        return ufunc(it, st, a, lambda x: num1(name, x))
    if name in ('array', 'asarray', 'matrix', 'atleast_1d', 'asmatrix', 'ascontiguousarray'):
        if len(args) > 1 and isinstance(args[1], (I.Ref, I.Tup)):
            return I.Raise('TypeError', 'array data passed as the dtype')
        if isinstance(a, Node):
            return it.fmap(st, a, lambda y, s: np_call(it, s, 'array', [y], {}, root, path)
                           if not isinstance(y, (I.U, I.Raise)) else y)
        x = to_nd(it, st, a)
        if x is None:
            return I.U('array of unknown')
        if x == 'ragged':
            dt = kw.get('dtype')
            if getattr(dt, 'name', None) == 'object' or dt == 'object':
                parts = it.iterate(st, a)
                if parts is not None:
                    return mk(st, tuple(parts), (len(parts),))
                return I.U('object array')
            return I.Raise('ValueError', 'inhomogeneous array')
        if name == 'matrix' and len(x[1]) == 1:
            x = (x[0], (1,) + x[1])
        if name == 'atleast_1d' and x[1] == ():
            x = (x[0], (1,))
        if x[1] == ():
            return mk(st, x[0], ()) if name == 'array' and False else x[0][0]
        return mk(st, x[0], x[1])
    if name in ('zeros', 'ones', 'empty', 'full'):
        sh = shape_of(it, st, kw.get('shape', a))
        if sh is None:
            return I.U(name)
        v = t.ZERO if name in ('zeros', 'empty') else (t.UNIT if name == 'ones' else args[1])
        return mk(st, [v] * prodn(sh), sh)
    if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        x = to_nd(it, st, a)
        if not x or x == 'ragged':
            return I.U(name)
        v = t.ZERO if name.startswith(('zeros', 'empty')) else (t.UNIT if name.startswith('ones') else args[1])
        return unbox(it, st, [v] * len(x[0]), x[1])
    if name in ('eye', 'identity'):
        n = numarg(a)
        if n is None:
            return I.U(name)
        return mk(st, [t.UNIT if i == j else t.ZERO for i in range(n) for j in range(n)], (n, n))
    if name == 'diag':
        x = to_nd(it, st, a)
        if x and x != 'ragged' and len(x[1]) == 1:
            n = x[1][0]
            return mk(st, [x[0][i] if i == j else t.ZERO for i in range(n) for j in range(n)], (n, n))
        if x and x != 'ragged' and len(x[1]) == 2:
            n = min(x[1])
            return mk(st, [x[0][i * x[1][1] + i] for i in range(n)], (n,))
        return I.U('diag')
    if name == 'arange':
        ns = [x.const() if isinstance(x, E) and x.is_const() else None for x in args]
        if any(n is None for n in ns):
            return I.U('arange')
        lo, hi, step = (0, ns[0], 1) if len(ns) == 1 else (ns[0], ns[1], ns[2] if len(ns) > 2 else 1)
        out, k = [], Fraction(lo)
        while (k < hi if step > 0 else k > hi) and len(out) < 3000:
            out.append(t.num(k))
            k += step
        return mk(st, out, (len(out),))
    if name == 'linspace':
        n = numarg(args[2] if len(args) > 2 else kw.get('num', t.num(50)))
        if n is None or n > 500 or not all(isinstance(x, E) for x in args[:2]):
            return I.U('linspace')
        d = t.sub(args[1], args[0])
        return mk(st, [t.add(args[0], t.mul(d, t.num(Fraction(i, n - 1)))) if n > 1 else args[0]
                       for i in range(n)], (n,))
    if name in ('dot', 'matmul'):
        return dot(it, st, args[0], args[1])
    if name == 'inner':
        return dot(it, st, args[0], args[1])
    if name == 'outer':
        x, y = to_nd(it, st, args[0]), to_nd(it, st, args[1])
        if x and y:
            return mk(st, [mul(it, st, p, q) for p in x[0] for q in y[0]], (len(x[0]), len(y[0])))
    if name == 'cross':
        return cross(it, st, args[0], args[1])
    if name == 'transpose':
        if is_nd(st, a):
            return transpose(st, st.get(a))
        x = to_nd(it, st, a)
        if x and x != 'ragged':
            return transpose(st, I.HObj('nd', None, x[0], x[1]))
    if name in ('sum', 'fsum', 'nansum'):
        return reduce_(it, st, a, lambda p, q: add(it, st, p, q), args[1] if len(args) > 1 else kw.get('axis'), t.ZERO)
    if name == 'prod':
        return reduce_(it, st, a, lambda p, q: mul(it, st, p, q), args[1] if len(args) > 1 else kw.get('axis'), t.UNIT)
    if name in ('max', 'amax', 'nanmax'):
        return reduce_(it, st, a, lambda p, q: max2(it, st, p, q), args[1] if len(args) > 1 else kw.get('axis'))
    if name in ('min', 'amin', 'nanmin'):
        return reduce_(it, st, a, lambda p, q: min2(it, st, p, q), args[1] if len(args) > 1 else kw.get('axis'))
    if name in ('maximum', 'fmax'):
        return broadcast(it, st, args[0], args[1], lambda p, q: max2(it, st, p, q))
    if name in ('minimum', 'fmin'):
        return broadcast(it, st, args[0], args[1], lambda p, q: min2(it, st, p, q))
    if name == 'clip':
        r = args[0]
        lo = kw.get('a_min', kw.get('min', args[1] if len(args) > 1 else None))
        hi = kw.get('a_max', kw.get('max', args[2] if len(args) > 2 else None))
        if not _isnone(lo):
            r = broadcast(it, st, r, lo, lambda p, q: max2(it, st, p, q))
        if not _isnone(hi):
            r = broadcast(it, st, r, hi, lambda p, q: min2(it, st, p, q))
        return r
    if name in ('mean', 'average'):
        x = to_nd(it, st, a)
        if x and x != 'ragged' and x[0] and not kw and len(args) == 1:
            s = reduce_(it, st, a, lambda p, q: add(it, st, p, q))
            return it.binop(st, ast.Div(), s, t.num(len(x[0])))
        return I.U('mean')
    if name in ('power', 'pow', 'float_power'):
        return it.binop(st, ast.Pow(), args[0], args[1])
    if name in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
        op = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult}.get(name, ast.Div)()
        if not is_nd(st, args[0]) and not is_nd(st, args[1]):
            return broadcast(it, st, args[0], args[1], lambda p, q: it.binop(st, op, p, q))
        return it.binop(st, op, args[0], args[1])
    if name in ('greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal'):
        op = {'greater': ast.Gt, 'less': ast.Lt, 'greater_equal': ast.GtE, 'less_equal': ast.LtE,
              'equal': ast.Eq, 'not_equal': ast.NotEq}[name]()
        return broadcast(it, st, args[0], args[1], lambda p, q: it.compare(st, op, p, q))
    if name == 'hypot':
        s = add(it, st, mul(it, st, args[0], args[0]), mul(it, st, args[1], args[1]))
        return ufunc(it, st, s, lambda x: num1('sqrt', x))
    if name in ('round', 'around', 'round_'):
        return npround(it, st, a, args[1] if len(args) > 1 else kw.get('decimals'))
    if name == 'interp':
        return interp1(it, st, args[0], args[1], args[2])
    if name in ('argmax', 'argmin'):
        return arg_extreme(it, st, a, name == 'argmax')
    if name in ('where', 'nonzero', 'flatnonzero') and len(args) == 1 and not kw:
        c = to_nd(it, st, a)
        if not c or c == 'ragged' or len(c[1]) != 1:
            return I.U(name)
        out = []
        for i, x in enumerate(c[0]):
            v = it.clean_cond(it.truth(st, x))
            if not isinstance(v, bool):
                return I.U(name)
            if v:
                out.append(t.num(i))
        v = mk(st, tuple(out), (len(out),))
        return v if name == 'flatnonzero' else I.Tup((v,))
    if name == 'delete' and len(args) + len(kw) <= 3 and len(args) >= 2 and set(kw) <= {'axis'}:
        c = to_nd(it, st, a)
        ax = args[2] if len(args) == 3 else kw.get('axis')
        if ax is not None:
            if not (isinstance(ax, E) and ax.is_const()):
                return I.U('delete axis')
            ax = int(ax.const())
        if not c or c == 'ragged':
            return I.U('delete')
        data, sh = c
        if ax is None:
            sh, ax = (len(data),), 0
        if not -len(sh) <= ax < len(sh):
            return I.Raise('ValueError', 'delete axis')
        ax %= len(sh)
        n = sh[ax]
        x = _axis_index(it, st, args[1], n) if to_nd(it, st, args[1]) != ((), (0,)) else ('list', [])
        if x is None or isinstance(x, I.Raise):
            return x or I.U('delete index')
        gone = {x[1]} if x[0] == 'int' else set(x[1])
        keep = [i for i in range(n) if i not in gone]
        pos = _outer([keep if j == ax else list(range(m)) for j, m in enumerate(sh)], sh)
        return mk(st, tuple(data[q] for q in pos), tuple(len(keep) if j == ax else m for j, m in enumerate(sh)))
    if name == 'where' and len(args) == 3:
        c = to_nd(it, st, a)
        if c is None:
            if isinstance(a, (Node, bool)):
                return ite(it.clean_cond(a), args[1], args[2])
            return I.U('where')
        r = broadcast(it, st, args[1], args[2], lambda p, q: I.PairL(p, q))
        rp = to_nd(it, st, r) if isinstance(r, I.Ref) else ((r,), ())
        if c == 'ragged' or rp is None or rp == 'ragged':
            return I.U('where')
        out = _bshape(c[1], rp[1])
        if out is None:
            return I.Raise('ValueError', 'where')
        ic, ir = _bindex(c[1], out), _bindex(rp[1], out)
        return unbox(it, st, tuple(ite(it.clean_cond(it.truth(st, c[0][i])), rp[0][j].a, rp[0][j].b)
                                   for i, j in zip(ic, ir)), out)
    if name in ('concatenate', 'hstack', 'vstack', 'append', 'stack', 'row_stack', 'column_stack'):
        if name == 'append':
            return concat(it, st, args[:2]) if len(args) == 2 and not kw else I.U('append axis')
        parts = it.iterate(st, a)
        if parts is None:
            return I.U(name)
        if name in ('vstack', 'stack', 'row_stack'):
            x = [to_nd(it, st, p) for p in parts]
            if all(y and y != 'ragged' and len(y[1]) == 1 for y in x):
                if len({y[1] for y in x}) != 1:
                    return I.Raise('ValueError', 'vstack')
                return mk(st, tuple(v for y in x for v in y[0]), (len(x),) + x[0][1])
            if name != 'stack' and all(y and y != 'ragged' and len(y[1]) in (1, 2) for y in x):
                return concat(it, st, [mk(st, y[0], (1,) + tuple(y[1])) if len(y[1]) == 1 else p for y, p in zip(x, parts)])
        ax = numarg(kw.get('axis', args[1] if len(args) > 1 and name == 'concatenate' else t.ZERO)) or 0
        if name == 'column_stack':
            x = [to_nd(it, st, p) for p in parts]
            if not all(y and y != 'ragged' and len(y[1]) == 1 for y in x):
                return I.U(name)
            if len({y[1] for y in x}) != 1:
                return I.Raise('ValueError', name)
            n = x[0][1][0]
            return mk(st, tuple(y[0][i] for i in range(n) for y in x), (n, len(x)))
        if name == 'hstack':
            ax = 1
        return concat(it, st, parts, ax)
    if name == 'ix_':
        return I.Tup(('ix_',) + tuple(args))
    if name in ('isnan', 'isinf'):
        return ufunc_bool(it, st, a, lambda x: False)
    if name == 'isfinite':
        return ufunc_bool(it, st, a, lambda x: True)
    if name in ('isclose', 'allclose', 'array_equal'):
        def close(p, q):
            tol = kw.get('atol', kw.get('abs_tol'))
            if name != 'array_equal' and isinstance(tol, E) and tol.is_const() and isinstance(p, E) and isinstance(q, E) \
                    and p.is_const() and q.is_const():
                rel = kw.get('rtol', kw.get('rel_tol', t.num(Fraction(1, 10 ** (5 if 'atol' in kw else 9)))))
                big = t.abs_(q) if 'atol' in kw else t.max_([t.abs_(p), t.abs_(q)])
                d = t.sub(t.abs_(t.sub(p, q)), t.max_([tol, t.mul(rel, big)]) if 'abs_tol' in kw else t.add(tol, t.mul(rel, big)))
                return it.compare(st, ast.LtE(), d, t.ZERO)
            return it.compare(st, ast.Eq(), p, q)
        r = broadcast(it, st, args[0], args[1], close)
        if name != 'isclose' and isinstance(r, I.Ref):
            return it.all_(st, list(st.get(r).data))
        return r
    if name in ('all', 'any'):
        x = to_nd(it, st, a)
        if x and x != 'ragged':
            vs = [it.truth(st, y) for y in x[0]]
            return it.all_(st, vs) if name == 'all' else it.any_(st, vs)
    if name == 'cumsum':
        x = to_nd(it, st, a)
        if x and x != 'ragged' and len(x[1]) == 1:
            out, s = [], t.ZERO
            for y in x[0]:
                s = add(it, st, s, y)
                out.append(s)
            return mk(st, out, x[1])
    if name == 'diff':
        x = to_nd(it, st, a)
        if x and x != 'ragged' and len(x[1]) == 1:
            return mk(st, [sub(it, st, q, p) for p, q in zip(x[0], x[0][1:])], (x[1][0] - 1,))
    if name in ('float64', 'float32', 'int64', 'int32', 'float_', 'double'):
        return a
    if name == 'arctan2':
        return it.fmap2(st, args[0], args[1], lambda x, y, s: t.fn('arctan2', x, y)
                        if isinstance(x, E) and isinstance(y, E) else I.U('atan2'))
    if name == 'copysign':
        return it.fmap2(st, args[0], args[1], lambda x, y, s: apply(
            lambda q: q, t.sign_node(y, t.neg(t.abs_(x)), t.abs_(x), t.abs_(x)))
            if isinstance(x, E) and isinstance(y, E) else I.U('copysign'))
    if name == 'copy':
        return shallow(it, st, a)
    if name in ('setdiff1d', 'union1d', 'intersect1d', 'unique', 'sort', 'in1d', 'isin'):
        xs = []
        for v in args[:1 if name in ('unique', 'sort') else 2]:
            y = to_nd(it, st, v)
            if not y or y == 'ragged' or not all(isinstance(q, E) and q.is_const() for q in y[0]):
                return I.U(name)
            xs.append([q.const() for q in y[0]])
        if name == 'setdiff1d':
            r = sorted(set(xs[0]) - set(xs[1]))
        elif name == 'union1d':
            r = sorted(set(xs[0]) | set(xs[1]))
        elif name == 'intersect1d':
            r = sorted(set(xs[0]) & set(xs[1]))
        elif name == 'unique':
            r = sorted(set(xs[0]))
        elif name == 'sort':
            r = sorted(xs[0])
        else:
            return mk(st, [q in xs[1] for q in xs[0]], (len(xs[0]),))
        return mk(st, [t.num(q) for q in r], (len(r),))
    if name in ('reshape',):
        return nd_method(it, st, 'reshape', args[0], args[1:], kw)
    if name == 'argsort' and len(args) == 1 and not kw:
        x = to_nd(it, st, a)
        if x and x != 'ragged' and len(x[1]) == 1 and all(isinstance(q, E) and q.is_const() for q in x[0]):
            vs = [q.const() for q in x[0]]
            return mk(st, [t.num(i) for i in sorted(range(len(vs)), key=lambda i: vs[i])], (len(vs),))
        return I.U('argsort')
    if name in ('ravel', 'flatten', 'squeeze', 'argsort'):
        if not is_nd(st, a):
            a = np_call(it, st, 'array', [a], {}, root, path)
        return nd_method(it, st, name, a, args[1:], kw) if isinstance(a, I.Ref) else a
    if name == 'trapz':
        return I.U('trapz')
    if name in ('size', 'shape', 'ndim'):
        x = to_nd(it, st, a)
        if x and x != 'ragged':
            return {'size': t.num(len(x[0])), 'shape': I.Tup([t.num(q) for q in x[1]]),
                    'ndim': t.num(len(x[1]))}[name]
    if name in ('vectorize',):
        return a
    if name in ('count_nonzero',):
        return I.U(name)
    if name in ('set_printoptions', 'seterr'):
        return None
    if name == 'polyval' and len(args) == 2:
        cs = it.iterate(st, args[0])
        if cs is not None:
            r = t.ZERO
            for c in cs:
                r = add(it, st, mul(it, st, r, args[1]), c)
            return r
    if name in ('gcd', 'factorial', 'floor_divide', 'mod', 'fmod'):
        if name in ('mod', 'fmod'):
            return it.binop(st, ast.Mod(), args[0], args[1])
    # uninterpreted numeric function
    if args and all(isinstance(x, E) for x in args) and not kw:
        return t.fn(name, *args)
    return I.U(path)


def ufunc_bool(it, st, v, f):
    return ufunc(it, st, v, f)


def nd_method(it, st, m, ref, args, kw):
    o = st.get(ref)
    if isinstance(o, Node):
        return it.content_map(st, ref, lambda h: nd_method(it, st, m, _tmp(st, h), args, kw))
    if o is None:
        return I.U('nd')
    if o.kind != 'nd':
        return I.U('nd ' + m)
    if m == 'dot':
        return dot(it, st, ref, args[0])
    if m in ('copy', 'astype', 'conj', 'view'):
        return st.alloc('nd', o.cls, o.data, o.meta)
    if m in ('sum', 'max', 'min', 'prod', 'mean', 'all', 'any', 'cumsum', 'argmax', 'argmin', 'round', 'clip'):
        return np_call(it, st, m, [ref] + list(args), kw, 'numpy', 'numpy.' + m)
    if m in ('tolist',):
        def lst(data, sh):
            if len(sh) <= 1:
                return st.alloc('list', None, tuple(data))
            k = prodn(sh[1:])
            return st.alloc('list', None, tuple(lst(data[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])))
        return lst(o.data, o.meta)
    if m in ('flatten', 'ravel'):
        return mk(st, o.data, (len(o.data),))
    if m == 'squeeze':
        sh = tuple(x for x in o.meta if x != 1)
        return unbox(it, st, o.data, sh)
    if m == 'transpose':
        return transpose(st, o)
    if m == 'reshape':
        sh = args if len(args) > 1 else (it.iterate(st, args[0]) or [args[0]])
        ns = [numarg(x) for x in sh]
        if any(n is None for n in ns):
            return I.U('reshape')
        if -1 in ns:
            k = prodn([n for n in ns if n != -1])
            ns[ns.index(-1)] = len(o.data) // k if k else 0
        if prodn(ns) != len(o.data):
            return I.Raise('ValueError', 'reshape')
        return mk(st, o.data, tuple(ns))
    if m == 'item':
        return o.data[0] if len(o.data) == 1 else I.U('item')
    if m == 'fill':
        it.note_write(ref, '*')
        st.put(ref, I.HObj('nd', o.cls, tuple(args[0] for _ in o.data), o.meta))
        it.spread(st, ref)
        return None
    if m in ('sort',):
        st.put(ref, I.HObj('unk', None, (), 'sort'))
        return None
    if m == 'diagonal':
        n, k = o.meta
        return mk(st, [o.data[i * k + i] for i in range(min(n, k))], (min(n, k),))
    return I.U('nd.' + m)


# ---------------------------------------------------------------- builtins
def is_type(it, st, v, c):
    """isinstance(v, c) for one class value -> True/False/U/diagram."""
    name = c.name if isinstance(c, I.Builtin) else None
    if isinstance(v, I.Ref):
        o = st.get(v)
        if isinstance(o, Node):
            return apply(lambda h: _type_of(it, st, v, h, c, name), o)
        return _type_of(it, st, v, o, c, name)
    if isinstance(v, E):
        if name in ('float', 'int', 'complex', 'bool'):
            if name == 'bool' or name == 'complex':
                return False
            isint = v.is_const() and v.const().denominator == 1
            if name == 'int':
                return True if isint else (False if v.is_const() else I.U('int?'))
            return I.U('float?') if isint else True
        if isinstance(c, I.Ext):
            l = c.path.split('.')[-1]
            if l in ('Number', 'Real'):
                return True
            if l in ('float64', 'floating'):
                return I.U('np float?')
        return False
    if isinstance(v, bool):
        return name in ('bool', 'int')
    if isinstance(v, str) or (isinstance(v, I.Sym) and v.kind in ('str', 'text')):
        return name == 'str'
    if v is None:
        return False
    if isinstance(v, I.Tup):
        if isinstance(c, I.Ext) and c.path.split('.')[-1] in ('Iterable', 'Sequence', 'Collection'):
            return True
        return name == 'tuple'
    if isinstance(v, I.Sym):
        try:
            return t.mknode(t.pred(('isinst', v, c)), (False, True))
        except TypeError:
            return I.U('isinstance')
    if isinstance(v, (I.Func, I.Bound)):
        return isinstance(c, I.Ext) and c.path.split('.')[-1] in ('Callable', 'FunctionType')
    if isinstance(v, I.Cls):
        return name == 'type'
    return I.U('isinstance')


def _type_of(it, st, v, o, c, name):
    if not isinstance(o, I.HObj):
        return I.U('isinstance')
    if o.kind == 'inst':
        if isinstance(c, I.Cls):
            if o.cls is None:
                return t.mknode(t.pred(('isinst', v, c)), (False, True))
            if o.cls.issub(c):
                return True
            if o.meta and o.meta[0] == 'sym' and c.issub(o.cls) and c is not o.cls:
                return t.mknode(t.pred(('isinst', v, c)), (False, True))
            return False
        if isinstance(c, I.Ext):
            if o.cls is not None and c.path in o.cls.ext_bases():
                return True
            return False
        return name == 'object'
    if o.kind == 'nd':
        return isinstance(c, I.Ext) and c.path.split('.')[-1] in ('ndarray', 'Iterable', 'Sequence', 'Sized')
    if isinstance(c, I.Ext):
        return c.path.split('.')[-1] in ('Iterable', 'Sequence', 'Collection', 'Sized', 'List', 'Container') or \
            (o.kind == 'dict' and c.path.split('.')[-1] in ('Mapping', 'Dict', 'OrderedDict'))
    if o.kind == 'unk':
        return I.U('isinstance')
    return name == o.kind


def builtin(it, st, f, args, kw, cx):
    n = f.name
    for a in args:
        if isinstance(a, I.Raise) and n not in ('noop', 'isinstance'):
            return a
    try:
        return _builtin(it, st, f, n, args, kw, cx)
    except (IndexError, KeyError, AttributeError, TypeError) as e:
        return I.U('%s: %s' % (n, e))


def _gated(it, st, a):
    if isinstance(a, Node):
        return True
    return isinstance(a, I.Ref) and isinstance(st.get(a), Node)


def _builtin(it, st, f, n, args, kw, cx):
    a = args[0] if args else None
    if n in ('noop', 'print', 'delattr'):
        return None
    if n == 'identity':
        return a
    if n == 'super':
        if cx is not None and cx.cls is not None:
            return I.SuperV(cx.cls, cx.selfv)
        return I.U('super')
    if '.' in n:
        head, m = n.split('.', 1)
        if head == 'object':
            if m in ('__setattr__', '__getattribute__', '__init__'):
                obj = f.obj
                rest = list(args)
                if obj is None:
                    obj = rest.pop(0)
                if m == '__setattr__':
                    if isinstance(rest[0], str):
                        return it.default_set(st, obj, rest[0], rest[1])
                    return I.U('setattr')
                if m == '__getattribute__':
                    if isinstance(rest[0], str):
                        return it.content_map(st, obj, lambda h: it.default_get(st, obj, h, rest[0]))
                    return I.U('getattribute')
                return None
            return I.U(n)
        if head == 'list':
            return list_method(it, st, m, f.obj if f.obj is not None else a, args if f.obj is not None else args[1:], kw)
        if head == 'dict':
            return dict_method(it, st, m, f.obj if f.obj is not None else a, args if f.obj is not None else args[1:], kw)
        if head == 'set':
            return set_method(it, st, m, f.obj, args)
        if head == 'nd':
            return nd_method(it, st, m, f.obj, args, kw)
        if head == 'str':
            return str_method(it, st, m, f.obj, args)
        if head == 'symstr':
            if m in ('startswith', 'endswith') and isinstance(a, str) and f.obj.kind == 'str':
                return t.mknode(t.pred(('in', f.obj, m + ':' + a)), (False, True))
            if m in ('upper', 'lower', 'strip', 'replace', 'format', 'capitalize', 'title'):
                return I.text('%s.%s' % (f.obj.name, m), args)
            return I.U('str.' + m)
        if head == 'tuple':
            return I.U(n)
        if head == 'num':
            if m in ('copy', 'astype', 'item', 'tolist', 'max', 'min', 'sum', 'round', 'flatten', 'real'):
                if m == 'round':
                    return npround(it, st, f.obj, a)
                return f.obj
            if m == 'is_integer' and f.obj.is_const():
                return f.obj.const().denominator == 1
            return I.U(n)
        return I.U(n)
    if n == 'len':
        return builtin_len(it, st, a)
    if n == 'range':
        ns = [numarg(x) for x in args]
        if any(x is None for x in ns):
            if any(isinstance(x, Node) for x in args):
                return it.fmap(st, args[0], lambda x, s: _builtin(it, s, f, n, [x], {}, cx)) if len(args) == 1 else I.U('range')
            return I.U('range')
        r = range(*ns)
        if len(r) > 3000:
            return I.U('range')
        return st.alloc('list', None, tuple(t.num(x) for x in r))
    if n == 'enumerate':
        if _gated(it, st, a):
            return gate_map(it, st, a, lambda v: _builtin(it, st, f, n, [v] + list(args[1:]), kw, cx))
        its = it.iterate(st, a)
        if its is None:
            return I.U('enumerate')
        k = numarg(args[1] if len(args) > 1 else kw.get('start', t.ZERO)) or 0
        return st.alloc('list', None, tuple(I.Tup((t.num(i + k), x)) for i, x in enumerate(its)))
    if n == 'zip':
        ls = [it.iterate(st, x) for x in args]
        if any(x is None for x in ls):
            return I.U('zip')
        return st.alloc('list', None, tuple(I.Tup(x) for x in zip(*ls)))
    if n == 'sum':
        if _gated(it, st, a):
            return gate_map(it, st, a, lambda v: _builtin(it, st, f, n, [v] + list(args[1:]), kw, cx))
        its = it.iterate(st, a)
        if its is None:
            return I.U('sum')
        r = args[1] if len(args) > 1 else kw.get('start', t.ZERO)
        for x in its:
            r = add(it, st, r, x)
        return r
    if n in ('min', 'max'):
        return minmax(it, st, f, n, args, kw, cx)
    if n == 'abs':
        return ufunc(it, st, a, t.abs_)
    if n == 'round':
        return npround(it, st, a, args[1] if len(args) > 1 else kw.get('ndigits'))
    if n in ('int', 'float'):
        if not args:
            return t.ZERO

        def num(x, s):
            if isinstance(x, bool):
                return t.num(int(x))
            if isinstance(x, E):
                if n == 'float':
                    return x
                if x.is_const():
                    return t.num(_math.trunc(x.const()))
                return t.fn('trunc', x)
            if isinstance(x, str):
                try:
                    if n == 'int':
                        return t.num(int(x))
                    v = float(x)
                    if v in (float('inf'), float('-inf')):
                        return t.INF() if v > 0 else t.neg(t.INF())
                    return t.num(Fraction(x))
                except ValueError:
                    return I.Raise('ValueError', x)
            if isinstance(x, (I.U, I.Raise)):
                return x
            if isinstance(x, I.Sym):
                return t.sym('%s(%s)' % (n, x.name), t.ANY)
            if is_nd(s, x) and len(s.get(x).data) == 1:
                return s.get(x).data[0]
            if x is None:
                return I.Raise('TypeError', 'float(None)')
            return I.U(n)
        return it.fmap(st, a, num)
    if n == 'str' or n == 'repr' or n == 'format':
        if isinstance(a, str) and n == 'str':
            return a
        if isinstance(a, E) and a.is_const() and a.const().denominator == 1:
            return str(a.const().numerator)
        return I.text(n, args)
    if n == 'bool':
        return it.truth(st, a)
    if n in ('list', 'tuple', 'set', 'frozenset', 'iter'):
        if not args:
            return I.Tup(()) if n == 'tuple' else st.alloc('list' if n != 'set' else 'set', None, ())
        if _gated(it, st, a):
            return gate_map(it, st, a, lambda v: _builtin(it, st, f, n, [v], kw, cx))
        its = it.iterate(st, a)
        if its is None:
            return I.U(n)
        if n == 'tuple':
            return I.Tup(its)
        if n in ('set', 'frozenset'):
            return st.alloc('set', None, it.uniq(its))
        return st.alloc('list', None, tuple(its))
    if n == 'dict':
        d = {}
        if args:
            o = st.get(a) if isinstance(a, I.Ref) else None
            if isinstance(o, I.HObj) and o.kind == 'dict':
                d.update(o.data)
            else:
                its = it.iterate(st, a)
                if its is None:
                    return I.U('dict')
                for p in its:
                    q = it.iterate(st, p)
                    if q is None or len(q) != 2 or it.dkey(q[0]) is None:
                        return I.U('dict')
                    d[it.dkey(q[0])] = q[1]
        for k, v in kw.items():
            d[k] = v
        return st.alloc('dict', None, d)
    if n == 'sorted':
        if _gated(it, st, a):
            return I.U('sorted')
        its = it.iterate(st, a)
        if its is None:
            return I.U('sorted')
        return sort_list(it, st, its, kw)
    if n == 'reversed':
        its = it.iterate(st, a)
        return I.U(n) if its is None else st.alloc('list', None, tuple(reversed(its)))
    if n == 'isinstance':
        return isinstance_(it, st, args[0], args[1])
    if n == 'issubclass':
        if isinstance(args[0], I.Cls):
            cs = args[1].items if isinstance(args[1], I.Tup) else [args[1]]
            return any(isinstance(c, I.Cls) and args[0].issub(c) for c in cs)
        return I.U(n)
    if n == 'hasattr':
        if isinstance(args[1], str):
            o = st.get(a) if isinstance(a, I.Ref) else None
            if isinstance(o, I.HObj) and o.kind == 'inst' and o.cls is not None:
                if args[1] in o.data or o.cls.find(args[1])[0] is not None:
                    return True
                if o.meta and o.meta[0] == 'sym':
                    return I.U('hasattr')
                return False
            if isinstance(a, I.Cls):
                return a.find(args[1])[0] is not None
            if isinstance(a, (E, bool, type(None))):
                return False
        return I.U('hasattr')
    if n == 'getattr':
        if isinstance(args[1], str):
            if len(args) > 2:
                r = it.getattr(st, a, args[1])
                return apply(lambda x, y: y if isinstance(x, I.Raise) and x.exc == 'AttributeError' else x, r, args[2])
            return it.getattr(st, a, args[1])
        if isinstance(args[1], Node):
            return it.fmap_fx(st, args[1], lambda nm, s: it.getattr(s, a, nm) if isinstance(nm, str) else I.U('getattr'))
        return I.U('getattr')
    if n == 'setattr':
        if isinstance(args[1], str):
            it.setattr(st, a, args[1], args[2])
            return None
        return I.U('setattr')
    if n in ('any', 'all'):
        if _gated(it, st, a):
            return gate_map(it, st, a, lambda v: _builtin(it, st, f, n, [v], kw, cx))
        its = it.iterate(st, a)
        if its is None:
            return I.U(n)
        vs = [it.truth(st, x) for x in its]
        return it.any_(st, vs) if n == 'any' else it.all_(st, vs)
    if n == 'map':
        ls = [it.iterate(st, x) for x in args[1:]]
        if any(x is None for x in ls):
            return I.U('map')
        return st.alloc('list', None, tuple(it.call(st, args[0], list(x), {}) for x in zip(*ls)))
    if n == 'filter':
        its = it.iterate(st, args[1])
        if its is None:
            return I.U('filter')
        out = []
        for x in its:
            v = x if args[0] is None else it.call(st, args[0], [x], {})
            out.append((it.clean_cond(it.truth(st, v)), x))
        out = [(c, x) for c, x in out if c is not False]
        if all(c is True for c, _ in out):
            return st.alloc('list', None, tuple(x for _, x in out))
        return it.gated_list(st, out)
    if n == 'type':
        def ty(x, s):
            if isinstance(x, I.Ref):
                o = s.get(x)
                if isinstance(o, I.HObj):
                    if o.kind == 'inst' and o.cls is not None:
                        return o.cls
                    if o.kind == 'nd':
                        return I.Ext('numpy.ndarray')
                    return I.Builtin(o.kind)
            if isinstance(x, str):
                return I.Builtin('str')
            if isinstance(x, bool):
                return I.Builtin('bool')
            if isinstance(x, E):
                if x.is_const() and x.const().denominator == 1:
                    return I.U('type of number')
                return I.Builtin('float')
            if isinstance(x, I.Tup):
                return I.Builtin('tuple')
            return I.U('type')
        return it.fmap(st, a, ty)
    if n == 'pow':
        return it.binop(st, ast.Pow(), args[0], args[1])
    if n == 'divmod':
        return I.Tup((it.binop(st, ast.FloorDiv(), args[0], args[1]), it.binop(st, ast.Mod(), args[0], args[1])))
    if n == 'next':
        its = it.iterate(st, a)
        if its is None:
            return I.U('next')
        return its[0] if its else (args[1] if len(args) > 1 else I.Raise('StopIteration', ''))
    if n == 'callable':
        if isinstance(a, (I.Func, I.Bound, I.Cls, I.Builtin)):
            return True
        if isinstance(a, I.Sym) and a.kind == 'fun':
            return True
        if isinstance(a, (E, str, bool)) or a is None:
            return False
        return I.U('callable')
    if n == 'property':
        return I.Prop(args[0] if args else kw.get('fget'), args[1] if len(args) > 1 else kw.get('fset'))
    if n in ('staticmethod', 'classmethod') and isinstance(a, I.Func):
        return I.Func(a.node, a.mod, a.frame, a.cls, a.name, a.defaults, n, a.flags)
    if n == 'object':
        return st.alloc('inst', None, {})
    if n == 'slice':
        vs = list(args) + [None] * (3 - len(args))
        return I.SliceV(None, vs[0], None) if len(args) == 1 else I.SliceV(*vs[:3])
    if n == 'id' and len(args) == 1 and isinstance(args[0], I.Ref):
        return t.num(100000 + args[0].id)
    return I.U('builtin ' + n)


def gate_map(it, st, v, f):
    """Apply f to every alternative of a gated container."""
    if isinstance(v, Node):
        return it.fmap(st, v, lambda x, s: x if isinstance(x, (I.U, I.Raise)) else f(x))
    return it.content_map(st, v, lambda h: f(_tmp(st, h)))


def builtin_len(it, st, a):
    if _gated(it, st, a):
        return gate_map(it, st, a, lambda v: builtin_len(it, st, v))
    if isinstance(a, str):
        return t.num(len(a))
    if isinstance(a, I.Tup):
        return t.num(len(a.items))
    if isinstance(a, I.Ref):
        o = st.get(a)
        if isinstance(o, I.HObj):
            if o.kind in ('list', 'dict', 'set'):
                return t.num(len(o.data))
            if o.kind == 'nd':
                return t.num(o.meta[0]) if o.meta else I.Raise('TypeError', 'len of scalar')
            if o.kind == 'inst' and o.cls is not None:
                _, m = o.cls.find('__len__')
                if m is not None:
                    return it.call(st, I.Bound(m, a), [], {})
                if not o.meta:
                    return I.Raise('TypeError', 'len of object')
        return I.U('len')
    if isinstance(a, (E, bool)) or a is None:
        return I.Raise('TypeError', 'len of number')
    return I.U('len')


def minmax(it, st, f, n, args, kw, cx):
    if len(args) == 1:
        if _gated(it, st, args[0]):
            return gate_map(it, st, args[0], lambda v: minmax(it, st, f, n, [v], kw, cx))
        its = it.iterate(st, args[0])
        if its is None:
            return args[0] if isinstance(args[0], I.U) else I.U(n)
    else:
        its = list(args)
    if not its:
        return kw['default'] if 'default' in kw else I.Raise('ValueError', 'empty ' + n)
    key = kw.get('key')
    if key is None:
        r = its[0]
        for x in its[1:]:
            r = max2(it, st, r, x) if n == 'max' else min2(it, st, r, x)
        return r
    # (item, key) pairs: the keys are compared one by one
    best = I.PairL(its[0], it.call(st, key, [its[0]], {}))
    op = ast.Gt() if n == 'max' else ast.Lt()
    for x in its[1:]:
        kx = it.call(st, key, [x], {})
        c = apply(lambda p: it.clean_cond(it.compare(st, op, kx, p.b)), best)
        best = ite(it.simp(c, st.ctx), I.PairL(x, kx), best)
    return apply(lambda p: p.a, best)


def sort_list(it, st, its, kw):
    key = kw.get('key')
    ks = [it.call(st, key, [x], {}) if key is not None else x for x in its]
    rev = kw.get('reverse', False)
    if all(isinstance(k, E) and k.is_const() for k in ks):
        order = sorted(range(len(its)), key=lambda i: ks[i].const(), reverse=rev is True)
    elif all(isinstance(k, str) for k in ks):
        order = sorted(range(len(its)), key=lambda i: ks[i], reverse=rev is True)
    elif len(its) <= 1:
        order = range(len(its))
    elif key is None and len(its) == 2 and all(isinstance(k, E) for k in ks):
        lo, hi = t.min_(ks), t.max_(ks)
        return st.alloc('list', None, (hi, lo) if rev is True else (lo, hi))
    else:
        # symbolic keys: insertion network of compare-exchange gates
        xs = list(zip(ks, its))
        for i in range(len(xs)):
            for j in range(len(xs) - 1 - i):
                (k1, v1), (k2, v2) = xs[j], xs[j + 1]
                c = it.simp(it.clean_cond(it.compare(st, ast.Gt() if rev is not True else ast.Lt(), k1, k2)), st.ctx)
                if not isinstance(c, bool) and len(its) > 5:
                    return I.U('sorted')
                xs[j] = (ite(c, k2, k1), ite(c, v2, v1))
                xs[j + 1] = (ite(c, k1, k2), ite(c, v1, v2))
        return st.alloc('list', None, tuple(v for _, v in xs))
    return st.alloc('list', None, tuple(its[i] for i in order))


def isinstance_(it, st, v, c):
    def leaf(x, s):
        if isinstance(x, (I.Raise, I.U)):
            return x
        cs = []
        stack = [c]
        while stack:
            y = stack.pop()
            if isinstance(y, I.Tup):
                stack.extend(y.items)
            else:
                cs.append(y)
        r = False
        for y in cs:
            q = is_type(it, s, x, y)
            r = apply(lambda p, w: True if p is True or w is True else (p if isinstance(p, I.U) else w), r, q)
        # an int-or-float test of a number is always true
        names = {y.name for y in cs if isinstance(y, I.Builtin)}
        if isinstance(x, E) and {'int', 'float'} <= names:
            return True
        return r
    return it.fmap(st, v, leaf)


def _content(it, st, ref):
    o = st.get(ref)
    return o


def list_method(it, st, m, ref, args, kw):
    o = st.get(ref)
    if isinstance(o, Node):
        if m in ('append', 'extend', 'insert'):
            it.note_write(ref, '*')
            if m == 'append':
                st.put(ref, apply(lambda h: I.HObj(h.kind, h.cls, h.data + (args[0],), h.meta)
                                  if isinstance(h, I.HObj) and h.kind == 'list' else h, o))
            else:
                st.put(ref, I.HObj('unk', None, (), 'gated list ' + m))
            return None
        if m in ('copy', 'count', 'index'):
            return I.U('gated list')
        st.put(ref, I.HObj('unk', None, (), 'gated list ' + m))
        return I.U('gated list')
    if o is None or o.kind not in ('list',):
        return I.U('list method')
    d = list(o.data)

    def put(l):
        it.note_write(ref, '*')
        st.put(ref, I.HObj('list', o.cls, tuple(l), o.meta))
    if m == 'append':
        put(d + [args[0]])
        return None
    if m == 'extend':
        its = it.iterate(st, args[0])
        if its is None:
            it.note_write(ref, '*')
            st.put(ref, I.HObj('unk', None, (), 'extend'))
            return None
        put(d + its)
        return None
    if m == 'insert':
        k = numarg(args[0])
        if k is None:
            st.put(ref, I.HObj('unk', None, (), 'insert'))
            return None
        d.insert(k, args[1])
        put(d)
        return None
    if m == 'pop':
        k = numarg(args[0]) if args else -1
        if k is None:
            st.put(ref, I.HObj('unk', None, (), 'pop'))
            return I.U('pop')
        if not d or not -len(d) <= k < len(d):
            return I.Raise('IndexError', 'pop')
        x = d.pop(k)
        put(d)
        return x
    if m == 'remove':
        for i, x in enumerate(d):
            c = it.compare(st, ast.Eq(), x, args[0])
            if c is True:
                del d[i]
                put(d)
                return None
            if c is not False:
                it.note_write(ref, '*')
                st.put(ref, I.HObj('unk', None, (), 'remove'))
                return None
        return I.Raise('ValueError', 'remove')
    if m == 'clear':
        put([])
        return None
    if m == 'reverse':
        put(d[::-1])
        return None
    if m == 'copy':
        return st.alloc('list', o.cls, o.data, o.meta)
    if m == 'index':
        if any(isinstance(l, I.U) for v in d + [args[0]] for l in t.leaves(v)):
            return I.U('index')
        res = I.Raise('ValueError', 'index')
        for i in range(len(d) - 1, -1, -1):
            c = it.clean_cond(it.compare(st, ast.Eq(), d[i], args[0]))
            res = ite(c, t.num(i), res)
        return res
    if m == 'count':
        r = t.ZERO
        for x in d:
            c = it.clean_cond(it.compare(st, ast.Eq(), x, args[0]))
            r = apply(lambda p, q: t.add(p, t.UNIT) if q else p, r, c)
        return r
    if m == 'sort':
        r = sort_list(it, st, d, kw)
        it.note_write(ref, '*')
        st.put(ref, st.get(r) if isinstance(r, I.Ref) else I.HObj('unk', None, (), 'sort'))
        return None
    return I.U('list.' + m)


def dict_method(it, st, m, ref, args, kw):
    o = st.get(ref)
    if not isinstance(o, I.HObj) or o.kind != 'dict':
        return I.U('dict method')
    if m == 'keys':
        return st.alloc('list', None, tuple(it.undkey(k) for k in o.data))
    if m == 'values':
        return st.alloc('list', None, tuple(o.data.values()))
    if m == 'items':
        return st.alloc('list', None, tuple(I.Tup((it.undkey(k), v)) for k, v in o.data.items()))
    if m == 'get':
        dflt = args[1] if len(args) > 1 else None
        return it.fmap(st, args[0], lambda k, s: it.dict_get(s, o, k, lambda: dflt))
    if m == 'copy':
        return st.alloc('dict', o.cls, dict(o.data), o.meta)
    if m == 'update':
        d = dict(o.data)
        src = st.get(args[0]) if args and isinstance(args[0], I.Ref) else None
        if args:
            if not isinstance(src, I.HObj) or src.kind != 'dict':
                it.note_write(ref, '*')
                st.put(ref, I.HObj('unk', None, (), 'update'))
                return None
            d.update(src.data)
        d.update(kw)
        it.note_write(ref, '*')
        st.put(ref, I.HObj('dict', o.cls, d, o.meta))
        return None
    if m == 'setdefault':
        k = it.dkey(args[0])
        if k is None:
            return I.U('setdefault')
        if k in o.data:
            return o.data[k]
        d = dict(o.data)
        d[k] = args[1] if len(args) > 1 else None
        it.note_write(ref, args[0])
        st.put(ref, I.HObj('dict', o.cls, d, o.meta))
        return d[k]
    if m == 'pop':
        k = it.dkey(args[0])
        if k is None:
            return I.U('pop')
        d = dict(o.data)
        if k in d:
            v = d.pop(k)
            it.note_write(ref, args[0])
            st.put(ref, I.HObj('dict', o.cls, d, o.meta))
            return v
        return args[1] if len(args) > 1 else I.Raise('KeyError', '')
    if m == 'clear':
        it.note_write(ref, '*')
        st.put(ref, I.HObj('dict', o.cls, {}, o.meta))
        return None
    return I.U('dict.' + m)


def set_method(it, st, m, ref, args):
    o = st.get(ref)
    if not isinstance(o, I.HObj) or o.kind != 'set':
        return I.U('set method')
    if m == 'add':
        st.put(ref, I.HObj('set', None, it.uniq(o.data + (args[0],)), o.meta))
        return None
    if m in ('union', 'update'):
        its = it.iterate(st, args[0])
        if its is None:
            return I.U('set')
        r = it.uniq(o.data + tuple(its))
        if m == 'update':
            st.put(ref, I.HObj('set', None, r, o.meta))
            return None
        return st.alloc('set', None, r)
    if m in ('difference', 'intersection', 'symmetric_difference') and len(args) == 1:
        its = it.iterate(st, args[0])
        if its is None:
            return I.U('set')
        op = {'difference': ast.Sub, 'intersection': ast.BitAnd, 'symmetric_difference': ast.BitXor}[m]()
        return it.set_op(st, op, o.data, it.uniq(tuple(its)))
    return I.U('set.' + m)


def str_method(it, st, m, s, args):
    if all(isinstance(a, str) for a in args) and m in ('lower', 'upper', 'strip', 'replace', 'startswith',
                                                       'endswith', 'capitalize', 'title', 'lstrip', 'rstrip',
                                                       'isdigit', 'count'):
        r = getattr(s, m)(*args)
        return r if isinstance(r, (str, bool)) else t.num(r)
    if m == 'find' and isinstance(args[0], str):
        return t.num(s.find(args[0]))
    if m == 'split' and all(isinstance(a, str) for a in args):
        return st.alloc('list', None, tuple(s.split(*args)))
    if m == 'join':
        its = it.iterate(st, args[0])
        if its is not None and all(isinstance(x, str) for x in its):
            return s.join(its)
        return I.text('join')
    if m == 'format':
        return I.text('format')
    return I.U('str.' + m)
