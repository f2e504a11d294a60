"""Value numbers: a canonical algebra for the numeric values of the analysed program.

A numeric value is an element of a field of generalised rational functions:
a Laurent polynomial N over *atoms* (symbols, prime radicals, roots of sums,
max/abs/elementary functions, ...) divided by a product D of normalised
multi-term polynomial factors.  All coefficients are exact rationals; nothing is
ever evaluated in floating point, and no solver is involved: two values are equal
when their cross-multiplied normal forms are the same polynomial.

Joins of the control flow are represented by ordered decision diagrams whose
nodes are either the sign of a polynomial (three-way) or an opaque boolean.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

F0 = Fraction(0)
F1 = Fraction(1)


class TooBig(Exception):
    """The value graph grew past its bound: the obligation stays undecided."""


MAX_TERMS = 6000
MAX_NODES = 40000

# --------------------------------------------------------------------- atoms
POS, NONNEG, ANY = '+', '0+', '?'


class Atom:
    __slots__ = ('id', 'key', 'sign')

    def __init__(self, id, key, sign):
        self.id, self.key, self.sign = id, key, sign


class Table:
    """Hash-consing tables, one per process."""
    atoms = []
    by_key = {}
    preds = []
    pred_by_key = {}
    nodes = {}
    ground = {}


T = Table


def reset():
    T.atoms = []
    T.by_key = {}
    T.preds = []
    T.pred_by_key = {}
    T.nodes = {}
    T.ground = {}
    _node_memo.clear()
    _zero_memo.clear()


def atom(key, sign=ANY):
    a = T.by_key.get(key)
    if a is None:
        a = Atom(len(T.atoms), key, sign)
        T.atoms.append(a)
        T.by_key[key] = a
    return a


# --------------------------------------------------- polynomials (dict based)
# mono: tuple of (atom id, exponent) sorted by atom id; exponents int or Fraction
ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                r.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def mono_pow(a, k):
    if k == 1:
        return a
    return tuple((i, _nz(e * k)) for i, e in a)


def _nz(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def poly_add(p, q, k=F1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def raw_mul(p, q):
    if len(p) * len(q) > MAX_TERMS * 40:
        raise TooBig('product')
    if len(p) == 1 and len(q) > 1:
        p, q = q, p
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k)
            r[k] = c * d if v is None else v + c * d
    return {m: c for m, c in r.items() if c != 0}


def poly_key(p):
    return tuple(sorted(p.items(), key=lambda t: _mk(t[0])))


_mk_memo = {}


def _mk(m):
    r = _mk_memo.get(m)
    if r is None:
        if len(_mk_memo) > 400000:
            _mk_memo.clear()
        # lexicographic order from the highest atom down, consistent with multiplication (Laurent)
        r = tuple([(1, i, float(e)) if e > 0 else (-1, -i, float(e)) for i, e in reversed(m)]) + ((0,),)
        _mk_memo[m] = r
    return r


def lead(p):
    return max(p, key=_mk)


PRIME = (1 << 61) - 1
_inv_memo = {}


def _finv(d):
    r = _inv_memo.get(d)
    if r is None:
        r = pow(d, -1, PRIME)
        _inv_memo[d] = r
    return r


def _modval(p, vals):
    """Value of a polynomial at a point modulo PRIME; None with fractional exponents."""
    s = 0
    for m, c in p.items():
        v = c.numerator % PRIME
        if c.denominator != 1:
            v = v * _finv(c.denominator) % PRIME
        for i, e in m:
            if e.__class__ is not int:
                return None
            x = vals.get(i)
            if x is None:
                x = vals[i] = (i * 1000003 + 7919) * 998244353 % PRIME
            v = v * (x if e == 1 else pow(x, e, PRIME)) % PRIME
        s += v
    return s % PRIME


_zero_memo = {}


def _zero_point(f):
    """A point where f vanishes modulo PRIME (f linear in some atom), or None."""
    cnt = {}
    for m in f:
        for i, e in m:
            if e.__class__ is not int:
                return None
            if e == 1:
                cnt[i] = cnt.get(i, 0)
            else:
                cnt[i] = -1000000
    for i, c in cnt.items():
        if c < 0:
            continue
        a, b = {}, {}
        for m, k in f.items():
            if any(j == i for j, _ in m):
                a[tuple(x for x in m if x[0] != i)] = k
            else:
                b[m] = k
        vals = {}
        va, vb = _modval(a, vals), _modval(b, vals)
        if not va or vb is None:
            continue
        vals[i] = -vb * pow(va, -1, PRIME) % PRIME
        if vals[i] == 0:
            continue
        return vals
    return None


def _maybe_divides(f, p):
    """Necessary condition for f | p, evaluated modulo PRIME at a zero of f."""
    k = tuple(f.items())
    if k in _zero_memo:
        z = _zero_memo[k]
    else:
        z = _zero_memo[k] = _zero_point(f)
    if z is None:
        return True
    v = _modval(p, dict(z))
    return v is None or v == 0


def poly_mul(p, q):
    return reduce_poly(raw_mul(p, q))


def poly_pow(p, n):
    r = {ONE: F1}
    for _ in range(n):
        r = poly_mul(r, p)
    return r


def reduce_poly(p):
    """Apply the defining relations of prime radicals, roots of sums and abs."""
    again = True
    guard = 0
    while again:
        again = False
        guard += 1
        if guard > 60:
            raise TooBig('reduce')
        out = {}
        for m, c in p.items():
            hit = None
            for i, e in m:
                k = T.atoms[i].key[0]
                if k == 'prime':
                    if e >= 1 or e < 0:
                        hit = (i, e, k)
                        break
                elif k == 'root':
                    if e >= 1:
                        hit = (i, e, k)
                        break
                elif k == 'abs':
                    if e % 2 == 0:
                        hit = (i, e, k)
                        break
            if hit is None:
                v = out.get(m)
                v = c if v is None else v + c
                if v == 0:
                    out.pop(m, None)
                else:
                    out[m] = v
                continue
            again = True
            i, e, k = hit
            rest = tuple(t for t in m if t[0] != i)
            if k == 'prime':
                fl = e.__floor__()
                fr = _nz(Fraction(e) - fl)
                c2 = c * Fraction(T.atoms[i].key[1]) ** fl
                m2 = mono_mul(rest, ((i, fr),)) if fr != 0 else rest
                _acc(out, m2, c2)
            elif k == 'root':
                fl = e.__floor__()
                fr = _nz(Fraction(e) - fl)
                base = dict(T.atoms[i].key[1])
                m2 = mono_mul(rest, ((i, fr),)) if fr != 0 else rest
                q = {m2: c}
                for _ in range(fl):
                    q = raw_mul(q, base)
                for mm, cc in q.items():
                    _acc(out, mm, cc)
            else:
                inner = T.atoms[i].key[1]          # E
                if inner.D or len(inner.N) != 1:
                    # |s|^(2k) = s^(2k); negative powers stay in the atom
                    if e > 0 and not inner.D:
                        q = {rest: c}
                        for _ in range(int(e)):
                            q = raw_mul(q, inner.N)
                        for mm, cc in q.items():
                            _acc(out, mm, cc)
                    else:
                        _acc(out, m, c)
                        again = False or again
                        # cannot reduce: keep, avoid looping
                        out[m] = out.get(m, F0)
                        return _finish_reduce(p)
                else:
                    (mi, ci), = inner.N.items()
                    _acc(out, mono_mul(rest, mono_pow(mi, e)), c * ci ** int(e))
            if len(out) > MAX_TERMS:
                raise TooBig('poly')
        p = out
    return p


def _finish_reduce(p):
    return p


def _acc(out, m, c):
    v = out.get(m)
    v = c if v is None else v + c
    if v == 0:
        out.pop(m, None)
    else:
        out[m] = v


def content(p, only=None):
    """(rational content >0, monomial content) of a polynomial."""
    from math import gcd
    num = 0
    den = 1
    for c in p.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(first):
            if i in d:
                first[i] = min(first[i], d[i])
            else:
                first[i] = min(first[i], 0)
        for i, e in d.items():
            if i not in first and e < 0:
                # absent so far means exponent 0 in an earlier monomial
                first[i] = e
    # atoms missing from the first monomial but negative elsewhere handled above;
    mono = tuple(sorted((i, e) for i, e in first.items()
                        if e != 0 and (only is None or only(T.atoms[i]))))
    return Fraction(num, den), mono


def exact_div(p, f, limit=None):
    """p / f if exact (Laurent polynomials), else None."""
    if len(f) > len(p) * 3 + 8:
        return None
    if len(p) > 2 and not _maybe_divides(f, p):
        return None
    lf = lead(f)
    cf = f[lf]
    inv = mono_pow(lf, -1)
    q = {}
    r = dict(p)
    steps = 0
    limit = limit or (3 * len(p) + 12)
    while r:
        steps += 1
        if steps > limit or len(r) > 4 * len(p) + 40:
            return None
        lr = lead(r)
        m = mono_mul(lr, inv)
        c = r[lr] / cf
        for n, d in f.items():
            k = mono_mul(m, n)
            v = r.get(k, F0) - c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
        q[m] = q.get(m, F0) + c
        if lr in r:
            return None
    return {m: c for m, c in q.items() if c != 0}


def is_ground(i):
    """Atom that is a number, of whatever form."""
    v = T.ground.get(i)
    if v is None:
        T.ground[i] = False
        k = T.atoms[i].key
        if k[0] == 'prime' or k == ('sym', 'pi'):
            v = True
        elif k[0] == 'root':
            v = all(is_ground(j) for m, _ in k[1] for j, _ in m)
        elif k[0] in ('abs', 'max', 'min', 'powv') or k[0] == 'fn':
            from .model import FN
            v = (k[0] != 'fn' or k[1] in FN) and all(isinstance(x, E) and ground(x) for x in k[(2 if k[0] == 'fn' else 1):])
        else:
            v = False
        T.ground[i] = v
    return v


def ground(e):
    return all(is_ground(i) for m in e.N for i, _ in m) and all(is_ground(i) for f, _ in e.D for m in dict(f) for i, _ in m)


def ground_sign(p):
    """Sign of a number by its value, when that is far from zero."""
    if not all(is_ground(i) for m in p for i, _ in m):
        return ANY
    from .model import Point, Bad
    try:
        v, size = Point({}).poly(p)
    except (Bad, ArithmeticError, ValueError):
        return ANY
    if isinstance(v, complex) or abs(v) <= 1e-9 * size:
        return ANY
    return '+' if v > 0 else '-'


def const_sign(p):
    """Sign of a sum of numbers (rational multiples of roots and powers of pi)."""
    import decimal
    with decimal.localcontext() as c:
        c.prec = 60
        tot = size = decimal.Decimal(0)
        for m, k in p.items():
            v = decimal.Decimal(k.numerator) / k.denominator
            for i, e in m:
                key = T.atoms[i].key
                if not (isinstance(key, tuple) and key[0] == 'prime'):
                    if key != ('sym', 'pi'):
                        return ground_sign(p)
                    b = decimal.Decimal('3.14159265358979323846264338327950288419716939937510582097494')
                else:
                    b = decimal.Decimal(key[1])
                v *= b ** (decimal.Decimal(e.numerator) / e.denominator)
            tot += v
            size += abs(v)
        if abs(tot) < size * decimal.Decimal('1e-40'):
            return ANY
        return '+' if tot > 0 else '-'


def is_number(i):
    key = T.atoms[i].key
    return key == ('sym', 'pi') or (isinstance(key, tuple) and key[0] == 'prime')


def infinite_sign(p):
    """Sign of a sum with infinite terms; None without."""
    top, best = {}, 0
    for m, c in p.items():
        for i, e in m:
            if T.atoms[i].key == ('sym', 'inf') and e > 0 and e >= best:
                if e > best:
                    top, best = {}, e
                top[tuple(x for x in m if x[0] != i)] = c
    return poly_sign(top) if top else None


def INF():
    return sym('inf', POS)


def grouped_sign(p):
    """Sign when terms that differ by numbers only (roots, powers of pi) are taken together."""
    v = infinite_sign(p)
    if v:
        return v
    groups = {}
    for m, c in p.items():
        var = tuple(x for x in m if not is_number(x[0]))
        groups.setdefault(var, {})[tuple(x for x in m if is_number(x[0]))] = c
    if len(groups) == len(p):
        return ground_sign(p)
    res, strict = None, False
    for var, q in groups.items():
        if len(q) == 1:
            sg = '+' if next(iter(q.values())) > 0 else '-'
        else:
            sg = const_sign(q)
        if sg == ANY or (res is not None and sg != res):
            return ANY
        res = sg
        strict = strict or mono_sign(var) == POS
    return res if strict else '0' + res


def poly_sign(p):
    """Sign of a Laurent polynomial from the declared signs of its atoms."""
    s = None
    strict = False
    for m, c in p.items():
        ms = mono_sign(m)
        if ms == ANY:
            return infinite_sign(p) or ground_sign(p)
        sg = 1 if c > 0 else -1
        if s is None:
            s = sg
        elif s != sg:
            return grouped_sign(p)
        if ms == POS:
            strict = True
    if s is None:
        return '0'
    if strict:
        return '+' if s > 0 else '-'
    return '0+' if s > 0 else '0-'


def mono_sign(m):
    res = POS
    for i, e in m:
        sg = T.atoms[i].sign
        if sg == POS:
            continue
        if sg == NONNEG:
            res = NONNEG
            continue
        if isinstance(e, int) and e % 2 == 0:
            res = NONNEG
            continue
        return ANY
    return res


# ------------------------------------------------------------------- numbers
class E:
    """A numeric value: N / prod(D)."""
    __slots__ = ('N', 'D', '_k', '_h')

    def __init__(self, N, D=()):
        self.N = N
        self.D = D          # tuple of (polykey, int power>0) sorted
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = (poly_key(self.N), self.D)
            self._h = hash(self._k)
        return self._k

    def __hash__(self):
        if self._h is None:
            self.key()
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, E) and hash(self) == hash(o) and self.key() == o.key()

    def is_const(self):
        return not self.D and (not self.N or (len(self.N) == 1 and ONE in self.N))

    def const(self):
        return self.N.get(ONE, F0)

    def __repr__(self):
        return show(self)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(repr(x))
    x = Fraction(x)
    return E({ONE: x} if x != 0 else {})


ZERO = num(0)
UNIT = num(1)


def sym(name, sign=POS):
    return E({((atom(('sym', name), sign).id, 1),): F1})


def from_atom(a):
    return E({((a.id, 1),): F1})


def _norm(N, D):
    """Cancel denominator factors that divide the numerator."""
    if not N:
        return ZERO
    if not D:
        return E(N, ())
    out = []
    for f, k in D:
        fp = dict(f)
        while k > 0 and len(N) >= len(fp):
            q = exact_div(N, fp)
            if q is None:
                break
            N = q
            k -= 1
        if k > 0:
            out.append((f, k))
    return E(N, tuple(out))


def add(a, b):
    if not a.N:
        return b
    if not b.N:
        return a
    if a.D == b.D:
        return _norm(poly_add(a.N, b.N), a.D)
    da, db = dict(a.D), dict(b.D)
    Na, Nb = a.N, b.N
    D = dict(da)
    for f, k in db.items():
        D[f] = max(D.get(f, 0), k)
    for f, k in D.items():
        ka, kb = k - da.get(f, 0), k - db.get(f, 0)
        for _ in range(ka):
            Na = poly_mul(Na, dict(f))
        for _ in range(kb):
            Nb = poly_mul(Nb, dict(f))
    return _norm(poly_add(Na, Nb), tuple(sorted(D.items(), key=_fk)))


def _fk(t):
    return (tuple((_mk(m), c) for m, c in t[0]), t[1])


def neg(a):
    return E({m: -c for m, c in a.N.items()}, a.D)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not a.N or not b.N:
        return ZERO
    if a.is_const():
        c = a.const()
        return E({m: c * v for m, v in b.N.items()}, b.D)
    if b.is_const():
        return mul(b, a)
    N = poly_mul(a.N, b.N)
    if not a.D and not b.D:
        return E(N, ()) if N else ZERO
    D = dict(a.D)
    for f, k in b.D:
        D[f] = D.get(f, 0) + k
    return _norm(N, tuple(sorted(D.items(), key=_fk)))


class DivZero(Exception):
    pass


def split(p):
    """p = coef * mono * f with f primitive, sign-normalised (lead coef > 0)."""
    c, m = content(p)
    inv = mono_pow(m, -1) if m else ONE
    f = {mono_mul(k, inv): v / c for k, v in p.items()}
    if f[lead(f)] < 0:
        c = -c
        f = {k: -v for k, v in f.items()}
    return c, m, f


def inv(a):
    if not a.N:
        raise DivZero()
    N = {ONE: F1}
    for f, k in a.D:
        for _ in range(k):
            N = poly_mul(N, dict(f))
    if len(a.N) == 1:
        (m, c), = a.N.items()
        r = reduce_poly(raw_mul(N, {mono_pow(m, -1): 1 / c}))
        return _root_fix(r)
    c, m, f = split(a.N)
    N = reduce_poly(raw_mul(N, {mono_pow(m, -1) if m else ONE: 1 / c}))
    base = _root_fix(N)
    D = dict(base.D)
    D[poly_key(f)] = D.get(poly_key(f), 0) + 1
    return _norm(base.N, tuple(sorted(D.items(), key=_fk)))


def _root_fix(N):
    """Make negative powers of root atoms into denominator factors."""
    negs = {}
    for m in N:
        for i, e in m:
            if e < 0 and T.atoms[i].key[0] == 'root':
                k = -(e.__floor__())
                negs[i] = max(negs.get(i, 0), k)
    if not negs:
        return E(N, ())
    D = {}
    mono = ONE
    for i, k in negs.items():
        mono = mono_mul(mono, ((i, k),))
    N = reduce_poly(raw_mul(N, {mono: F1}))
    res = E(N, ())
    for i, k in negs.items():
        base = dict(T.atoms[i].key[1])
        c, m, f = split(base)
        if len(f) == 1:
            res = mul(res, E({mono_pow(m, -k): F1 / c ** k}))
        else:
            D[poly_key(f)] = D.get(poly_key(f), 0) + k
            res = mul(res, E({mono_pow(m, -k) if m else ONE: F1 / c ** k}))
    if D:
        res = mul(res, E({ONE: F1}, tuple(sorted(D.items(), key=_fk))))
    return res


def div(a, b):
    if b.is_const():
        c = b.const()
        if c == 0:
            raise DivZero()
        return E({m: v / c for m, v in a.N.items()}, a.D)
    if a.is_const() and b == INF():
        return ZERO
    return mul(a, inv(b))


_SMALL = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71]


def _factor_int(n):
    r = {}
    for p in _SMALL:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
    q = 73
    while n > 1 and q * q <= n and q < 5000:
        while n % q == 0:
            r[q] = r.get(q, 0) + 1
            n //= q
        q += 2
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def num_pow(c, r):
    """c**r for rational c>0, as E."""
    res = UNIT
    coef = F1
    mono = ONE
    for p, e in list(_factor_int(c.numerator).items()):
        mono = mono_mul(mono, ((atom(('prime', p), POS).id, _nz(e * r)),))
    for p, e in list(_factor_int(c.denominator).items()):
        mono = mono_mul(mono, ((atom(('prime', p), POS).id, _nz(-e * r)),))
    return E(reduce_poly({mono: coef}))


def power(a, r):
    """a ** r for an exact rational exponent r."""
    r = Fraction(r)
    if r.denominator == 1:
        n = int(r)
        if n == 0:
            return UNIT
        if n < 0:
            return power(inv(a), -n)
        if n > 12 and len(a.N) > 1:
            return from_atom(atom(('powv', a, num(r)), ANY))
        res = a
        for _ in range(n - 1):
            res = mul(res, a)
        return res
    if not a.N:
        if r < 0:
            raise DivZero()
        return ZERO
    if a.is_const() and a.const() < 0:
        return from_atom(atom(('powv', a, num(r)), ANY))
    res = UNIT
    if len(a.N) == 1:
        (m, c), = a.N.items()
        if c < 0:
            # (-x)**r : keep as root of the sum -x
            return mul(_root(a.N, r), _dpow(a.D, -r))
        res = num_pow(c, r)
        for i, e in m:
            res = mul(res, _atom_pow(i, e, r))
    else:
        c, m = content(a.N)
        # only even/positive monomial content may leave the root
        keep = []
        for i, e in m:
            keep.append((i, e))
        mm = tuple(keep)
        iv = mono_pow(mm, -1) if mm else ONE
        f = {mono_mul(k, iv): v / c for k, v in a.N.items()}
        res = num_pow(c, r)
        for i, e in mm:
            res = mul(res, _atom_pow(i, e, r))
        res = mul(res, _root(f, r))
    return mul(res, _dpow(a.D, -r))


def _dpow(D, r):
    res = UNIT
    for f, k in D:
        n = Fraction(k).numerator // 2 * 2 if r.denominator % 2 == 0 and Fraction(k).denominator == 1 else 0
        if n and poly_sign(dict(f)) not in ('+', '0+'):
            # (f**2)**(1/2) is |f|
            res = mul(res, power(abs_(E(dict(f))), r * n))
            k -= n
        if k:
            res = mul(res, _root(dict(f), r * k))
    return res


def _atom_pow(i, e, r):
    a = T.atoms[i]
    if a.key[0] == 'root':
        return _root_raw(i, Fraction(e) * r)
    ne = _nz(Fraction(e) * r)
    if a.sign == ANY and isinstance(e, int) and e % 2 == 0:
        b = abs_(from_atom(a))
        # b is a monomial |a|
        (m, c), = b.N.items()
        return E(reduce_poly({mono_pow(m, ne): c}))
    return E(reduce_poly({((i, ne),): F1}))


def _root_raw(i, e):
    fl = e.__floor__()
    fr = _nz(Fraction(e) - fl)
    base = E(dict(T.atoms[i].key[1]))
    res = power(base, fl) if fl else UNIT
    if fr != 0:
        res = mul(res, E({((i, fr),): F1}))
    return res


def _root(f, r):
    """f ** r for a polynomial f without content."""
    r = Fraction(r)
    if len(f) == 1 and ONE in f and f[ONE] == 1:
        return UNIT
    fl = r.__floor__()
    fr = _nz(r - fl)
    res = power(E(f), fl) if fl else UNIT
    if fr != 0:
        # perfect squares: s^2 -> |s|
        sq = _sqrt_poly(f) if Fraction(fr).denominator == 2 else None
        if sq is not None:
            return mul(res, power(abs_(E(sq)), Fraction(fr) * 2))
        sg = poly_sign(f)
        at = atom(('root', poly_key(f)), POS if sg == '+' else NONNEG)
        res = mul(res, E({((at.id, fr),): F1}))
    return res


def _sqrt_poly(f):
    """Square root of a perfect-square polynomial with few terms, or None."""
    n = len(f)
    if n < 3 or n > 30:
        return None
    lf = lead(f)
    cl = f[lf]
    if cl <= 0:
        return None
    import math
    a, b = math.isqrt(cl.numerator), math.isqrt(cl.denominator)
    if a * a != cl.numerator or b * b != cl.denominator:
        return None
    hm = tuple((i, _nz(Fraction(e) / 2)) for i, e in lf)
    if any(isinstance(e, Fraction) for _, e in hm):
        return None
    s = {hm: Fraction(a, b)}
    rem = poly_add(f, raw_mul(s, s), -F1)
    steps = 0
    while rem:
        steps += 1
        if steps > n + 2:
            return None
        lr = lead(rem)
        m = mono_mul(lr, mono_pow(hm, -1))
        if any(e < 0 for _, e in m):
            return None
        c = rem[lr] / (2 * s[hm])
        if m in s:
            return None
        s2 = dict(s)
        s2[m] = c
        rem = poly_add(f, reduce_poly(raw_mul(s2, s2)), -F1)
        s = s2
        if rem and _mk(lead(rem)) >= _mk(lr):
            return None
    return s


def sign_of(a):
    s = poly_sign(a.N)
    if s in ('?', '0'):
        return s
    flip = 1
    for f, k in a.D:
        if k % 2 == 0:
            continue
        fs = poly_sign(dict(f))
        if fs in ('+', '0+'):
            continue
        if fs in ('-', '0-'):
            flip = -flip
        else:
            return '?'
    if flip < 0:
        s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[s]
    return s


def abs_(a):
    s = sign_of(a)
    if s in ('+', '0+', '0'):
        return a
    if s in ('-', '0-'):
        return neg(a)
    res = UNIT
    if len(a.N) == 1:
        (m, c), = a.N.items()
        res = num(abs(c))
        for i, e in m:
            at = T.atoms[i]
            if at.sign in (POS, NONNEG) or (isinstance(e, int) and e % 2 == 0):
                res = mul(res, E({((i, e),): F1}))
            else:
                b = atom(('abs', from_atom(at)), NONNEG)
                res = mul(res, E(reduce_poly({((b.id, e),): F1})))
    else:
        c, m, f = split(a.N)
        res = num(abs(c))
        if m:
            res = mul(res, abs_(E({m: F1})))
        b = atom(('abs', E(f)), NONNEG)
        res = mul(res, from_atom(b))
    for f, k in a.D:
        fe = E({ONE: F1}, ((f, k),))
        if poly_sign(dict(f)) in ('+', '0+') or k % 2 == 0:
            res = mul(res, fe)
        else:
            b = atom(('abs', E(dict(f))), NONNEG)
            res = mul(res, E(reduce_poly({((b.id, -k),): F1})))
    return res


def _pos_content(es):
    """Common positive scale of several values: (rational, mono)."""
    polys = [e.N for e in es if e.N]
    if not polys:
        return F1, ONE
    allp = {}
    n = 0
    from math import gcd
    numr, den = 0, 1
    common = None
    for p in polys:
        for m, c in p.items():
            numr = gcd(numr, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
            d = {i: e for i, e in m if T.atoms[i].sign in (POS, NONNEG)}
            if common is None:
                common = d
            else:
                for i in set(common) | set(d):
                    v = min(common.get(i, 0), d.get(i, 0))
                    if v == 0:
                        common.pop(i, None)
                    else:
                        common[i] = v
    return Fraction(numr, den), tuple(sorted(common.items()))


def max_(args):
    """n-ary maximum, the only selection atom (min(a,b) = -max(-a,-b))."""
    flat = []
    for a in args:
        flat.extend(_flatten_max(a))
    uniq = []
    for a in flat:
        if not any(a == b or sub(a, b) == ZERO for b in uniq):
            uniq.append(a)
    # drop dominated arguments
    keep = []
    for i, a in enumerate(uniq):
        dom = False
        for j, b in enumerate(uniq):
            if i == j:
                continue
            s = sign_of(sub(b, a))
            if s == '+' or (s == '0+' and (sign_of(sub(a, b)) != '0+' or j < i)):
                dom = True
                break
        if not dom:
            keep.append(a)
    if not keep:
        keep = uniq[:1]
    if len(keep) == 1:
        return keep[0]
    c, m = _pos_content(keep)
    # common denominators with a known positive sign may leave as well
    scale = E({m: c}) if (c != 1 or m) else UNIT
    if scale is not UNIT:
        isc = inv(scale)
        keep = [mul(k, isc) for k in keep]
    D = None
    for k in keep:
        d = dict(k.D)
        if D is None:
            D = d
        else:
            D = {f: min(D[f], d[f]) for f in D if f in d}
    D = {f: k for f, k in (D or {}).items() if poly_sign(dict(f)) in ('+', '0+')}
    if D:
        ds = E({ONE: F1}, tuple(sorted(D.items(), key=_fk)))
        ids = inv(ds)
        keep = [mul(k, ids) for k in keep]
        scale = mul(scale, ds)
    if all(len(k.N) > 1 for k in keep):
        f = None
        for k in keep:
            c, m = content(k.N)
            iv = mono_pow(m, -1) if m else ONE
            g = {mono_mul(q, iv): v / c for q, v in k.N.items()}
            if f is None or len(g) < len(f):
                f = g
        sg = poly_sign(f)
        if sg == '-':
            f = {q: -v for q, v in f.items()}
            sg = '+'
        if sg == '+' and 1 < len(f) <= 12:
            qs = [exact_div(k.N, f) for k in keep]
            if all(q is not None for q in qs):
                keep = [E(q, k.D) for q, k in zip(qs, keep)]
                scale = mul(scale, E(f))
    keep.sort(key=lambda e: e.key().__repr__())
    sgn = ANY
    ss = [sign_of(k) for k in keep]
    if '+' in ss:
        sgn = POS
    elif '0+' in ss or '0' in ss:
        sgn = NONNEG
    key = ('max',) + tuple(keep)
    at = T.by_key.get(key)
    if at is None:
        # semantic look-up: same arguments up to cross multiplication
        for cand in T.atoms:
            if cand.key[0] == 'max' and len(cand.key) == len(key):
                if all(any(sub(x, y) == ZERO for y in cand.key[1:]) for x in keep):
                    at = cand
                    break
        if at is None:
            # all arguments non-positive: the atom is -(min of positives)
            if all(s in ('-', '0-', '0') for s in ss):
                mn = atom(('min',) + tuple(neg(k) for k in keep),
                          POS if all(s == '-' for s in ss) else NONNEG)
                return mul(scale, neg(from_atom(mn)))
            at = atom(key, sgn)
    return mul(scale, from_atom(at))


def _flatten_max(a):
    if not a.D and len(a.N) == 1:
        (m, c), = a.N.items()
        for i, e in m:
            k = T.atoms[i].key
            if e == 1 and ((k[0] == 'max' and c > 0) or (k[0] == 'min' and c < 0)):
                rest = tuple(t for t in m if t[0] != i)
                if all(T.atoms[j].sign in (POS, NONNEG) for j, _ in rest):
                    sc = E({rest: c})
                    out = []
                    for arg in k[1:]:
                        out.extend(_flatten_max(mul(sc, arg)))
                    return out
    return [a]


def min_(args):
    return neg(max_([neg(a) for a in args]))


FN_SIGN = {'exp': POS, 'cosh': POS}


def fn(name, *args):
    """Uninterpreted (or lightly interpreted) function of numeric arguments."""
    a = args[0] if args else None
    if name == 'sqrt':
        return power(a, Fraction(1, 2))
    if len(args) == 1:
        if name in ('sin', 'tan', 'arctan', 'arcsin', 'sinh', 'arctan') or name in ('cos', 'cosh'):
            if not a.N:
                return UNIT if name in ('cos', 'cosh') else ZERO
            # odd / even symmetry
            if a.N[lead(a.N)] < 0:
                r = fn(name, neg(a))
                return r if name in ('cos', 'cosh') else neg(r)
        if name == 'radians':
            return mul(a, div(PI(), num(180)))
        if name == 'degrees':
            return mul(a, div(num(180), PI()))
        if name == 'exp' and not a.N:
            return UNIT
        if name == 'arccos' and a.is_const() and a.const() in (0, 1, -1):
            return {0: div(PI(), num(2)), 1: ZERO, -1: PI()}[int(a.const())]
        if name == 'arcsin' and a == UNIT:
            return div(PI(), num(2))
        if name == 'log' and a == UNIT:
            return ZERO
        if name == 'tan':
            return div(fn('sin', a), fn('cos', a))
        if name in ('sin', 'cos'):
            q = _pi_multiple(a)
            if q is not None:
                q = q % 2
                tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1),
                       Fraction(3, 2): (-1, 0)}
                if q in tab:
                    return num(tab[q][0 if name == 'sin' else 1])
                if q == Fraction(1, 6) or q == Fraction(5, 6):
                    if name == 'sin':
                        return num(Fraction(1, 2))
                if q in (Fraction(1, 4),):
                    return power(num(Fraction(1, 2)), Fraction(1, 2))
            if name == 'cos':
                # cos(x)^2 is kept; identities are not needed by the rules
                pass
    # semantic look-up so that algebraically equal arguments share one atom
    key = ('fn', name) + tuple(args)
    at = T.by_key.get(key)
    if at is None:
        for cand in T.atoms:
            k = cand.key
            if k[0] == 'fn' and k[1] == name and len(k) == len(key):
                if all(isinstance(x, E) and isinstance(y, E) and sub(x, y) == ZERO
                       for x, y in zip(k[2:], args)):
                    at = cand
                    break
    if at is None:
        sg = FN_SIGN.get(name, ANY)
        if name == 'log' and a.is_const() and a.const() > 1:
            sg = POS
        elif sg == ANY and len(args) == 1 and isinstance(a, E) and ground(a):
            from .model import FN
            if name in FN:
                at = atom(key, sg)
                sg = at.sign = POS if ground_sign({((at.id, 1),): Fraction(1)}) == '+' else ANY
        at = at or atom(key, sg)
    return from_atom(at)


def _pi_multiple(a):
    if not a.N:
        return F0
    if a.D or len(a.N) != 1:
        return None
    (m, c), = a.N.items()
    p = T.by_key.get(('sym', 'pi'))
    if p is not None and m == ((p.id, 1),):
        return c
    return None


def PI():
    return sym('pi', POS)


def powv(a, b):
    """a ** b for a non-constant exponent."""
    if b.is_const():
        return power(a, b.const())
    if a == UNIT:
        return UNIT
    key = ('powv', a, b)
    at = T.by_key.get(key)
    if at is None:
        for cand in T.atoms:
            k = cand.key
            if k[0] == 'powv' and sub(k[1], a) == ZERO and sub(k[2], b) == ZERO:
                at = cand
                break
    if at is None:
        s = sign_of(a)
        at = atom(key, POS if s == '+' else (NONNEG if s in ('0+',) else ANY))
    return from_atom(at)


def equal(a, b):
    if a == b:
        return True
    return not sub(a, b).N


# ------------------------------------------------------------ inspection
def atoms_of(e, deep=True, seen=None):
    """All atoms a value depends on."""
    seen = seen if seen is not None else set()
    stack = [e]
    while stack:
        x = stack.pop()
        ids = set()
        for m in x.N:
            for i, _ in m:
                ids.add(i)
        for f, _ in x.D:
            for m, _c in f:
                for i, _e in m:
                    ids.add(i)
        for i in ids:
            if i in seen:
                continue
            seen.add(i)
            if deep:
                k = T.atoms[i].key
                if k[0] == 'root':
                    stack.append(E(dict(k[1])))
                else:
                    for part in k[1:]:
                        if isinstance(part, E):
                            stack.append(part)
    return seen


def symbols_of(e):
    return {T.atoms[i].key[1] for i in atoms_of(e) if T.atoms[i].key[0] == 'sym'}


def subst(e, mp, memo=None):
    """Replace symbols: mp maps symbol name -> E."""
    memo = memo if memo is not None else {}
    return _subst(e, mp, memo)


def _subst_atom(i, mp, memo):
    r = memo.get(i)
    if r is not None:
        return r
    k = T.atoms[i].key
    if k[0] == 'sym':
        r = mp.get(k[1])
        if r is None:
            r = from_atom(T.atoms[i])
    elif k[0] == 'prime':
        r = from_atom(T.atoms[i])
    elif k[0] == 'root':
        r = None     # handled with its exponent
        return ('root', _subst(E(dict(k[1])), mp, memo))
    elif k[0] == 'abs':
        r = abs_(_subst(k[1], mp, memo))
    elif k[0] == 'max':
        r = max_([_subst(x, mp, memo) for x in k[1:]])
    elif k[0] == 'min':
        r = min_([_subst(x, mp, memo) for x in k[1:]])
    elif k[0] == 'fn':
        r = fn(k[1], *[_subst(x, mp, memo) if isinstance(x, E) else x for x in k[2:]])
    elif k[0] == 'powv':
        r = powv(_subst(k[1], mp, memo), _subst(k[2], mp, memo))
    else:
        r = from_atom(T.atoms[i])
    memo[i] = r
    return r


def _subst_poly(p, mp, memo):
    tot = ZERO
    for m, c in p.items():
        t = num(c)
        for i, e in m:
            b = _subst_atom(i, mp, memo)
            if isinstance(b, tuple):
                t = mul(t, power(b[1], e))
            else:
                t = mul(t, power(b, e))
        tot = add(tot, t)
    return tot


def _subst(e, mp, memo):
    r = _subst_poly(e.N, mp, memo)
    for f, k in e.D:
        r = div(r, power(_subst_poly(dict(f), mp, memo), k))
    return r


# ------------------------------------------------------------------ printing
def _sf(c):
    if c.denominator == 1:
        return str(c.numerator)
    d = c.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1:
        return repr(float(c))
    return '%d/%d' % (c.numerator, c.denominator)


def _sa(i):
    k = T.atoms[i].key
    if k[0] == 'sym':
        return str(k[1])
    if k[0] == 'prime':
        return str(k[1])
    if k[0] == 'root':
        return '(' + show_poly(dict(k[1])) + ')'
    if k[0] in ('max', 'min', 'abs'):
        return k[0] + '(' + ', '.join(show(x) for x in k[1:]) + ')'
    if k[0] == 'fn':
        return str(k[1]) + '(' + ', '.join(show(x) if isinstance(x, E) else str(x) for x in k[2:]) + ')'
    if k[0] == 'powv':
        return '(' + show(k[1]) + ')^(' + show(k[2]) + ')'
    return str(k)


def show_mono(m, c):
    s = []
    if c == -1 and m:
        s.append('-')
        c = F1
    elif c < 0:
        s.append('-')
        c = -c
    body = []
    if c != 1 or not m:
        body.append(_sf(c))
    for i, e in m:
        a = _sa(i)
        body.append(a if e == 1 else '%s^%s' % (a, _sf(Fraction(e))))
    return ''.join(s) + '*'.join(body)


def show_poly(p, lim=14):
    items = sorted(p.items(), key=lambda t: _mk(t[0]), reverse=True)
    parts = [show_mono(m, c) for m, c in items[:lim]]
    if len(items) > lim:
        parts.append('...(%d terms)' % len(items))
    return ' + '.join(parts).replace('+ -', '- ') or '0'


def show(e, lim=400):
    if not isinstance(e, E):
        return repr(e)
    s = show_poly(e.N)
    if e.D:
        d = '*'.join('(%s)%s' % (show_poly(dict(f)), '' if k == 1 else '^%d' % k) for f, k in e.D)
        s = '(%s)/(%s)' % (s, d) if len(e.N) > 1 else '%s/(%s)' % (s, d)
    return s if len(s) <= lim else s[:lim] + '...'


# -------------------------------------------------------- decision diagrams
class Pred:
    __slots__ = ('id', 'key', 'kind')

    def __init__(self, id, key):
        self.id = id
        self.key = key
        self.kind = key[0]

    def __repr__(self):
        return show_pred(self)


def pred(key):
    p = T.pred_by_key.get(key)
    if p is None:
        p = Pred(len(T.preds), key)
        T.preds.append(p)
        T.pred_by_key[key] = p
    return p


def show_pred(p):
    if p.kind == 'sign':
        return 'sign(%s)' % show(p.key[1])
    return '%s(%s)' % (p.kind, ', '.join(str(x) for x in p.key[1:]))


class Node:
    """Decision node; kids = (neg, zero, pos) for signs, (false, true) otherwise."""
    __slots__ = ('pred', 'kids', '_h')

    def __init__(self, pred, kids):
        self.pred = pred
        self.kids = kids
        self._h = hash((pred.id, kids))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Node) and self._h == o._h
                             and self.pred is o.pred and self.kids == o.kids)

    def __repr__(self):
        return showv(self)


_node_memo = {}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, E) and isinstance(b, E):
        return equal(a, b)
    if type(a) is not type(b):
        return False
    return a == b


def mknode(p, kids):
    if p.kind == 'sign':
        n, z, q = kids
        if same(n, q):
            if same(n, z) or _same_mod(z, n, p):
                return n
        # canonical value on the boundary
        if isinstance(z, E):
            if isinstance(n, E) and not same(z, n) and _same_mod(z, n, p):
                z = n
            elif isinstance(q, E) and not same(z, q) and _same_mod(z, q, p):
                z = q
                if isinstance(n, E) and _same_mod(z, n, p):
                    z = n
        if isinstance(n, E) and isinstance(q, E) and isinstance(z, E):
            r = _as_max(p, n, z, q)
            if r is not None:
                return r
        kids = (n, z, q)
    else:
        if same(kids[0], kids[1]):
            return kids[0]
    key = (p.id, kids)
    r = T.nodes.get(key)
    if r is None:
        if len(T.nodes) > MAX_NODES * 20:
            raise TooBig('nodes')
        r = Node(p, kids)
        T.nodes[key] = r
    return r


def _same_mod(a, b, p):
    """a == b on the set where the predicate polynomial vanishes."""
    if not (isinstance(a, E) and isinstance(b, E)):
        return False
    if same(a, b):
        return True
    d = sub(a, b)
    f = p.key[1].N
    if len(f) == 1:
        return False
    return exact_div(d.N, f) is not None


def _as_max(p, n, z, q):
    d = sub(q, n)
    if not d.N:
        return None
    f = p.key[1]
    try:
        r = div(d, f)
    except DivZero:
        return None
    s = sign_of(r)
    if s not in ('+', '-'):
        return None
    if not (same(z, n) or same(z, q) or _same_mod(z, n, p) or _same_mod(z, q, p)):
        return None
    return max_([n, q]) if s == '+' else min_([n, q])


def cmp_sign(d):
    """(pred, flip) for the sign of the numeric value d, or a constant -1/0/1.
    Returns ('c', s) | ('nn', pred, flip)...  flip=-1 when the sign is reversed."""
    s = sign_of(d)
    if s == '+':
        return 1, None
    if s == '-':
        return -1, None
    if s == '0':
        return 0, None
    N = d.N
    for f, k in d.D:
        if k % 2 and poly_sign(dict(f)) not in ('+', '0+'):
            N = poly_mul(N, dict(f))
    N = dict(N)
    c, m = content(N, only=lambda a: a.sign in (POS, NONNEG))
    iv = mono_pow(m, -1) if m else ONE
    f = {mono_mul(k, iv): v / c for k, v in N.items()}
    # clear negative exponents of unknown-sign atoms by even powers
    flip = 1
    ld = lead(f)
    if f[ld] < 0:
        flip = -1
        f = {k: -v for k, v in f.items()}
    # normalise the leading coefficient to 1 for thresholds
    lc = f[ld]
    f = {k: v / lc for k, v in f.items()}
    return flip, pred(('sign', E(f)))


def sign_node(d, neg_v, zero_v, pos_v):
    flip, p = cmp_sign(d)
    if p is None:
        return {1: pos_v, -1: neg_v, 0: zero_v}[flip]
    s = sign_of(d)
    if s in ('0+',):
        neg_v = pos_v if flip > 0 else pos_v
        kids = (pos_v, zero_v, pos_v) if True else None
        # unreachable side takes the reachable value
        return _ordered(p, (pos_v, zero_v, pos_v))
    if s in ('0-',):
        return _ordered(p, (neg_v, zero_v, neg_v))
    kids = (neg_v, zero_v, pos_v) if flip > 0 else (pos_v, zero_v, neg_v)
    return _ordered(p, kids)


def _ordered(p, kids):
    if all(not isinstance(k, Node) for k in kids):
        return mknode(p, kids)
    return apply(lambda *a: a[0], _sel(p, kids)) if False else _build(p, kids)


def _build(p, kids):
    """ite over p with kids that may contain smaller predicates."""
    if all(not isinstance(k, Node) or k.pred.id > p.id for k in kids):
        return mknode(p, kids)
    # find the smallest predicate among the kids
    top = min((k.pred for k in kids if isinstance(k, Node)), key=lambda x: x.id)
    if top.id > p.id:
        return mknode(p, kids)
    n = 3 if top.kind == 'sign' else 2
    if top is p:
        ks = []
        for idx, k in enumerate(kids):
            ks.append(k.kids[idx] if isinstance(k, Node) and k.pred is p else k)
        return _build(p, tuple(ks))
    out = []
    for b in range(n):
        out.append(_build(p, tuple(k.kids[b] if isinstance(k, Node) and k.pred is top else k
                                   for k in kids)))
    return mknode(top, tuple(out))


def _sel(p, kids):
    return None


class Budget:
    left = 400000


def apply(f, *vs):
    """Apply f to the leaves of several diagrams."""
    memo = {}

    def go(vs):
        top = None
        for v in vs:
            if isinstance(v, Node) and (top is None or v.pred.id < top.id):
                top = v.pred
        if top is None:
            return f(*vs)
        key = vs
        r = memo.get(key)
        if r is not None:
            return r
        Budget.left -= 1
        if Budget.left < 0:
            raise TooBig('apply budget')
        n = 3 if top.kind == 'sign' else 2
        out = []
        for b in range(n):
            out.append(go(tuple(v.kids[b] if isinstance(v, Node) and v.pred is top else v
                                for v in vs)))
        r = _build(top, tuple(out))
        memo[key] = r
        return r

    return go(vs)


def ite(c, a, b):
    """c: diagram over True/False leaves."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    memo = {}

    def go(c):
        if c is True:
            return a
        if c is False:
            return b
        if not isinstance(c, Node):
            raise TypeError('non boolean leaf %r' % (c,))
        r = memo.get(c)
        if r is None:
            r = _build(c.pred, tuple(go(k) for k in c.kids))
            memo[c] = r
        return r

    return go(c)


def leaves(v, out=None):
    out = out if out is not None else []
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Node):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.kids)
        else:
            out.append(x)
    return out


def preds_of(v):
    out = set()
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Node) and x not in seen:
            seen.add(x)
            out.add(x.pred)
            stack.extend(x.kids)
    return out


def showv(v, lim=1200, ind=0):
    if not isinstance(v, Node):
        return show(v) if isinstance(v, E) else repr(v)
    names = ('<0', '=0', '>0') if v.pred.kind == 'sign' else ('no', 'yes')
    s = 'if %s: {' % (show(v.pred.key[1], 120) if v.pred.kind == 'sign' else show_pred(v.pred))
    s += '; '.join('%s -> %s' % (n, showv(k, 300)) for n, k in zip(names, v.kids))
    s += '}'
    return s if len(s) < lim else s[:lim] + '...'


# ----------------------------------------------- contexts (path facts) and
# equality of diagrams modulo facts
class Ctx:
    """Signs of polynomials and values of opaque predicates known on a branch."""

    def __init__(self, facts=(), bools=()):
        self.facts = tuple(facts)     # (E poly, sign in -1,0,1, -2 (<=0), 2 (>=0), 3 (!=0))
        self.bools = dict(bools)

    def with_sign(self, poly, s):
        return Ctx(self.facts + ((poly, s),), self.bools)

    def with_bool(self, p, b):
        d = dict(self.bools)
        d[p] = b
        return Ctx(self.facts, d)

    def bool_value(self, p):
        if p in self.bools:
            return self.bools[p]
        if p.kind == 'eqs':
            for q, b in self.bools.items():
                if b and q.kind == 'eqs' and q.key[1] == p.key[1] and q.key[2] != p.key[2]:
                    return False
        if p.kind == 'isinst':
            for q, b in self.bools.items():
                if q.kind == 'isinst' and q.key[1] == p.key[1]:
                    if b and q.key[2] != p.key[2]:
                        rel = _class_rel(q.key[2], p.key[2])
                        if rel is not None:
                            return rel
        return None

    def possible(self, q, depth=0):
        """Set of possible signs of the polynomial value q."""
        s = sign_of(q)
        pos = {'+': {1}, '-': {-1}, '0': {0}, '0+': {0, 1}, '0-': {0, -1}, '?': {-1, 0, 1}}[s]
        if len(pos) == 1:
            return pos
        for f, fs in self.facts:
            pos = pos & _imply(q, f, fs)
            if len(pos) <= 1:
                return pos
        if len(pos) > 1 and len(self.facts) > 1:
            fl = self.facts[-6:]
            for a in range(len(fl)):
                for b in range(a + 1, len(fl)):
                    pos = pos & _imply2(q, fl[a], fl[b])
                    if len(pos) <= 1:
                        return pos
        if len(pos) > 1 and self.facts and depth < 3:
            q2 = self.resolve(q, depth)
            if q2 is not q:
                return pos & self.possible(q2, depth + 1)
        return pos

    def resolve(self, q, depth=0):
        """Replace |x|, max and min whose choice the known facts decide."""
        for i in sorted(atoms_of(q, deep=False)):
            k = T.atoms[i].key
            by = None
            if k[0] == 'abs':
                p = self.possible(k[1], depth + 1)
                by = k[1] if -1 not in p else neg(k[1]) if 1 not in p else None
            elif k[0] in ('max', 'min') and len(k) == 3:
                p = self.possible(sub(k[1], k[2]), depth + 1)
                hi, lo = (k[1], k[2]) if k[0] == 'max' else (k[2], k[1])
                by = hi if -1 not in p else lo if 1 not in p else None
            if by is not None:
                try:
                    return replace_atom(q, i, by)
                except (DivZero, TooBig):
                    return q
        return q


_class_rel_hook = [None]


def _class_rel(a, b):
    h = _class_rel_hook[0]
    return h(a, b) if h else None


def _imply(q, f, fs):
    """Signs of q possible when f has sign fs."""
    allp = {-1, 0, 1}
    if not f.N:
        return allp
    # q = k f + r with sign(r) known
    tried = 0
    for m, c in list(f.N.items()):
        if m == ONE and len(f.N) > 1:
            continue
        cq = q.N.get(m)
        if cq is None or q.D != f.D:
            continue
        k = cq / c
        r = sub(q, mul(num(k), f))
        rs = sign_of(r)
        tried += 1
        res = _comb(k, fs, rs)
        if res is not None:
            return res
        if tried > 3:
            break
    # monomial multiples (positive atoms)
    try:
        g = div(q, f)
    except DivZero:
        return allp
    s = sign_of(g)
    if s in ('+', '-') and not isinstance(g, Node):
        if len(g.N) <= 4:
            sg = 1 if s == '+' else -1
            return {x * sg for x in _fset(fs)}
    if not q.D and not f.D and 1 < len(q.N) < len(f.N) <= 40:
        g = exact_div(f.N, q.N)
        if g is not None:
            sg = poly_sign(g)
            if sg in ('+', '-'):
                return {x * (1 if sg == '+' else -1) for x in _fset(fs)}
    return allp


def _fset(fs):
    return {1: {1}, -1: {-1}, 0: {0}, 2: {0, 1}, -2: {0, -1}, 3: {-1, 1}}[fs]


def _comb(k, fs, rs):
    if rs == '?':
        return None
    S = {x * (1 if k > 0 else -1) for x in _fset(fs)}
    R = {'+': {1}, '-': {-1}, '0': {0}, '0+': {0, 1}, '0-': {0, -1}}[rs]
    out = set()
    for a in S:
        for b in R:
            if a == 0:
                out.add(b)
            elif b == 0 or a == b:
                out.add(a)
            else:
                out |= {-1, 0, 1}
    return out if len(out) < 3 else None


def _imply2(q, fa, fb):
    allp = {-1, 0, 1}
    (f, s), (g, t) = fa, fb
    if q.D or f.D or g.D:
        return allp
    for m, c in f.N.items():
        if m == ONE:
            continue
        cq = q.N.get(m)
        if cq is None:
            continue
        k = cq / c
        r = sub(q, mul(num(k), f))
        for m2, c2 in g.N.items():
            if m2 == ONE:
                continue
            cr = r.N.get(m2)
            if cr is None:
                continue
            k2 = cr / c2
            r2 = sub(r, mul(num(k2), g))
            rs = sign_of(r2)
            if rs == '?':
                continue
            S = {x * (1 if k > 0 else -1) for x in _fset(s)}
            U = {x * (1 if k2 > 0 else -1) for x in _fset(t)}
            R = {'+': {1}, '-': {-1}, '0': {0}, '0+': {0, 1}, '0-': {0, -1}}[rs]
            out = set()
            for a in S:
                for b in U:
                    for d in R:
                        nz = {x for x in (a, b, d) if x}
                        if len(nz) == 0:
                            out.add(0)
                        elif len(nz) == 1:
                            out |= nz
                        else:
                            out |= {-1, 0, 1}
            if len(out) < 3:
                return out
    return allp


def branch(p, ctx):
    """Feasible (index, ctx') pairs of a predicate under ctx."""
    if p.kind == 'sign':
        poss = ctx.possible(p.key[1])
        for idx, s in enumerate((-1, 0, 1)):
            if s in poss:
                yield idx, (ctx if len(poss) == 1 else ctx.with_sign(p.key[1], s))
    else:
        b = ctx.bool_value(p)
        for idx in (0, 1):
            if b is None or b == bool(idx):
                yield idx, (ctx.with_bool(p, bool(idx)) if b is None else ctx)


def simplify(v, ctx=None):
    """Remove branches contradicted by the facts collected above them."""
    ctx = ctx or Ctx()

    def go(v, ctx):
        if not isinstance(v, Node):
            return v
        Budget.left -= 1
        if Budget.left < 0:
            raise TooBig('simplify budget')
        opts = list(branch(v.pred, ctx))
        if len(opts) == 0:
            return go(v.kids[0], ctx)
        if len(opts) == 1:
            return go(v.kids[opts[0][0]], opts[0][1])
        kids = [None] * len(v.kids)
        last = None
        for idx, c in opts:
            kids[idx] = go(v.kids[idx], c)
            last = kids[idx]
        for i in range(len(kids)):
            if kids[i] is None:
                # infeasible side: copy the neighbour so the node can vanish
                if v.pred.kind == 'sign':
                    if i == 1:
                        kids[i] = kids[0] if kids[0] is not None else kids[2]
                    else:
                        kids[i] = kids[1] if kids[1] is not None else last
                else:
                    kids[i] = last
        return mknode(v.pred, tuple(kids))

    return go(v, ctx)


def zero_under(d, ctx):
    """Is the numeric value d zero given the facts (equalities) in ctx?"""
    if not d.N:
        return True
    for f, s in ctx.facts:
        if s == 0 and f.N:
            if len(f.N) > 1 or True:
                q = exact_div(d.N, f.N)
                if q is not None:
                    return True
                # solve f=0 for a symbol occurring linearly
                r = _solve_subst(d, f)
                if r is not None and not r.N:
                    return True
    return False


def _solve_subst(d, f):
    for m, c in f.N.items():
        if len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].key[0] == 'sym':
            i = m[0][0]
            if sum(1 for mm in f.N for a, _ in mm if a == i) == 1:
                rest = {k: -v / c for k, v in f.N.items() if k != m}
                name = T.atoms[i].key[1]
                try:
                    return subst(d, {name: E(rest)})
                except (DivZero, TooBig):
                    return None
    return None


def _pick_select(d):
    """A max/min/abs atom occurring at top level of d."""
    for i in sorted(atoms_of(d)):
        k = T.atoms[i].key
        if k[0] in ('max', 'min', 'abs'):
            return i
    return None


def replace_atom(e, i, by):
    """Replace atom i by the value `by` everywhere in e."""
    memo = {i: by}
    return _subst(e, {}, memo)


def diff(u, v, ctx=None, eq=None, limit=4000, confirm=None):
    """None if the diagrams are equal on every feasible branch; otherwise a tuple
    (ctx, leaf_u, leaf_v) naming the first branch where they differ."""
    eq = eq or (lambda a, b: None)
    state = {'n': 0}

    def report(ctx, a, b):
        if confirm is not None and not confirm(ctx, a, b):
            return None
        return (ctx, a, b)

    def leafdiff(a, b, ctx, depth=0):
        if isinstance(a, E) and isinstance(b, E):
            if equal(a, b):
                return None
            d = sub(a, b)
            if zero_under(d, ctx):
                return None
            if depth < 8:
                i = _pick_select(d)
                if i is not None:
                    k = T.atoms[i].key
                    if k[0] == 'abs':
                        cases = [(k[1], {0, 1}, k[1]), (k[1], {-1}, neg(k[1]))]
                    elif len(k) == 3:
                        x, y = k[1], k[2]
                        dd = sub(x, y)
                        if k[0] == 'max':
                            cases = [(dd, {0, 1}, x), (dd, {-1}, y)]
                        else:
                            cases = [(dd, {0, 1}, y), (dd, {-1}, x)]
                    else:
                        x = k[1]
                        rest = (max_ if k[0] == 'max' else min_)(list(k[2:]))
                        dd = sub(x, rest)
                        if k[0] == 'max':
                            cases = [(dd, {0, 1}, x), (dd, {-1}, rest)]
                        else:
                            cases = [(dd, {0, 1}, rest), (dd, {-1}, x)]
                    bad = None
                    for cond, signs, by in cases:
                        poss = ctx.possible(cond) & signs
                        for s in sorted(poss, key=lambda x: (x == 0, x)):
                            state['n'] += 1
                            if state['n'] > limit:
                                raise TooBig('diff')
                            c2 = ctx.with_sign(cond, s)
                            try:
                                na, nb = replace_atom(a, i, by), replace_atom(b, i, by)
                            except DivZero:
                                continue
                            r = leafdiff(na, nb, c2, depth + 1)
                            if r is not None:
                                return r
                    return None
            return report(ctx, a, b)
        if same(a, b):
            return None
        r = eq(a, b)
        if r is True:
            return None
        if isinstance(r, tuple):
            return r
        return report(ctx, a, b)

    def go(a, b, ctx):
        state['n'] += 1
        if state['n'] > limit:
            raise TooBig('diff')
        if a is b:
            return None
        top = None
        for x in (a, b):
            if isinstance(x, Node) and (top is None or x.pred.id < top.id):
                top = x.pred
        if top is None:
            return leafdiff(a, b, ctx)
        for idx, c in sorted(branch(top, ctx), key=lambda x: (x[0] == 1 and top.kind == 'sign', x[0])):
            na = a.kids[idx] if isinstance(a, Node) and a.pred is top else a
            nb = b.kids[idx] if isinstance(b, Node) and b.pred is top else b
            r = go(na, nb, c)
            if r is not None:
                return r
        return None

    return go(u, v, ctx or Ctx())


def show_ctx(ctx):
    parts = []
    for f, s in ctx.facts:
        parts.append('%s %s 0' % (show(f, 90), {1: '>', -1: '<', 0: '=', 2: '>=', -2: '<=', 3: '!='}[s]))
    for p, b in ctx.bools.items():
        parts.append(('' if b else 'not ') + show_pred(p))
    return ' and '.join(parts) or 'always'
