"""Models of branch conditions.

A deviation between two value graphs is reported only for a branch whose condition has a
model: a point of the term algebra that satisfies every fact of the branch and at which the two
terms differ.  Branches that are contradictory for reasons the sign rules do not see (non-linear
combinations of comparisons), or on which two differently written terms coincide, have none and
are dropped.  Nothing of the analysed program is run: only the terms already derived are
evaluated."""
import math
import random
import time

from . import terms as t

# m: tolerance; strict inequalities need a margin, so that equalities met by bisection do not pass for them
OK = {1: lambda v, m: v > 100 * m, -1: lambda v, m: v < -100 * m, 0: lambda v, m: abs(v) <= 0.1 * m,
      2: lambda v, m: v >= -m, -2: lambda v, m: v <= m, 3: lambda v, m: abs(v) > 100 * m}

FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan, 'atan': math.atan,
      'arcsin': math.asin, 'asin': math.asin, 'arccos': math.acos, 'acos': math.acos, 'exp': math.exp,
      'log': math.log, 'log10': math.log10, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
      'floor': math.floor, 'ceil': math.ceil}


# {symbol: (low, high)}: where models are sought first
HINTS = {}


class Bad(Exception):
    pass


def real(v):
    if abs(v.imag) > 1e-9 * abs(v):
        raise Bad
    return v.real


class Point:
    def __init__(self, vals):
        self.vals = vals
        self.memo = {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            v = self._atom(i)
            if isinstance(v, complex) or v != v or abs(v) > 1e200:
                raise Bad
            self.memo[i] = v
        return v

    def _atom(self, i):
        a = t.T.atoms[i]
        k = a.key
        if k[0] == 'sym' and k[1] == 'pi':
            return math.pi
        if k[0] == 'prime':
            return float(k[1])
        if k[0] == 'root':
            v, m = self.poly(dict(k[1]))
            if isinstance(v, complex):
                v = real(v)
            if v < 0 and v > -1e-12 * m:
                v = 0.0
            return v
        if k[0] == 'abs':
            return abs(self.e(k[1]))
        if k[0] == 'max':
            return max(self.e(x) for x in k[1:])
        if k[0] == 'min':
            return min(self.e(x) for x in k[1:])
        if k[0] == 'powv':
            b, x = self.e(k[1]), self.e(k[2])
            if b < 0 or (b == 0 and x < 0):
                raise Bad
            return b ** x
        if k[0] == 'fn' and k[1] in FN and len(k) == 3:
            return float(FN[k[1]](self.e(k[2])))
        if k[0] == 'fn':
            args = tuple(round(self.e(x), 9) if isinstance(x, t.E) else str(x) for x in k[2:])
            h = random.Random('%s%r%s' % (k[1], args, self.vals.get('seed')))
            return sample(h, a.sign)
        v = self.vals.get(i)
        if v is None:
            v = self.vals[i] = sample(self.vals['rng'], a.sign)
        return v

    def poly(self, p):
        tot = mag = 0.0
        for m, c in p.items():
            x = float(c)
            for i, e in m:
                b = self.atom(i)
                if e == 1:
                    x *= b
                elif b < 0 and getattr(e, 'denominator', 1) != 1:
                    # square roots of both parts of a quotient
                    if e.denominator != 2:
                        raise Bad
                    x *= complex(0.0, math.sqrt(-b)) ** int(2 * e)
                elif b == 0 and e < 0:
                    raise Bad
                else:
                    x *= b ** (e if isinstance(e, int) else float(e))
            tot += x
            mag += abs(x)
        return tot, mag

    def em(self, e):
        """(value, magnitude of its terms)"""
        try:
            v, m = self.poly(e.N)
            for f, k in e.D:
                d, dm = self.poly(dict(f))
                if abs(d) <= 1e-10 * dm:
                    raise Bad
                v /= d ** k
                m /= abs(d) ** k
            if isinstance(v, complex):
                v = real(v)
            return v, m
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Bad

    def e(self, e):
        return self.em(e)[0]


def sample(rng, sign):
    r = rng.random()
    if r < 0.5:
        v = 10 ** rng.uniform(-1, 2)
    elif r < 0.9:
        v = 10 ** rng.uniform(-2.5, 3.5)
    else:
        v = float(rng.choice([1, 2, 3, 4, 5, 10, 0.5, 0.25]))
    if sign == '+':
        return v
    if sign == '0+':
        return 0.0 if rng.random() < 0.05 else v
    return v if rng.random() < 0.5 else -v


def sample_atom(rng, i):
    a = t.T.atoms[i]
    if HINTS and a.key[0] == 'sym' and a.key[1] in HINTS and rng.random() < 0.85:
        lo, hi = HINTS[a.key[1]]
        if lo > 0:
            return math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return rng.uniform(lo, hi)
    return sample(rng, a.sign)


def _free(es):
    out = set()
    for e in es:
        for i in t.atoms_of(e):
            k = t.T.atoms[i].key
            if k[0] in ('prime', 'root', 'abs', 'max', 'min', 'fn', 'powv') or k == ('sym', 'pi'):
                continue
            out.add(i)
    return out


def satisfied(facts, pt):
    """List of violated facts (raises Bad when a term is undefined)."""
    bad = []
    for f, s in facts:
        v, m = pt.em(f)
        if not OK[s](v, 1e-8 * (m or 1e-300)):
            bad.append((f, s))
    return bad


def _repair(f, s, i, vals, rng, sign):
    """New value of atom i that makes fact (f, s) true, or None."""
    def at(x):
        v = dict(vals)
        v[i] = x
        try:
            return Point(v).em(f)
        except Bad:
            return None
    cur = vals[i]
    grid = [cur * g for g in (1e-3, 1e-2, 0.1, 0.3, 0.5, 0.7, 0.85, 0.95, 1.05, 1.15, 1.4, 2, 3, 10, 100, 1e3)]
    if sign == '?':
        grid += [-g for g in grid] + [0.0]
    elif sign == '0+':
        grid.append(0.0)
    rng.shuffle(grid)
    pts = [(x, at(x)) for x in grid]
    pts = [(x, p) for x, p in pts if p is not None]
    if s == 0:
        pos = [x for x, p in pts if p[0] > 0]
        ng = [x for x, p in pts if p[0] < 0]
        for x, p in pts:
            if abs(p[0]) <= 1e-9 * p[1]:
                return x
        if not pos or not ng:
            return None
        a, b = rng.choice(pos), rng.choice(ng)
        for _ in range(90):
            m = (a + b) / 2
            p = at(m)
            if p is None:
                return None
            if p[0] > 0:
                a = m
            else:
                b = m
        return (a + b) / 2
    for x, p in pts:
        if OK[s](p[0], 1e-8 * p[1]):
            return x
    return None


def confirm(ctx, a, b, seconds=1.5, seed=7):
    """'model' when the branch has a point at which a and b differ, else a reason."""
    facts = [(f, s) for f, s in ctx.facts if isinstance(f, t.E)]
    num = isinstance(a, t.E) and isinstance(b, t.E)
    es = [f for f, _ in facts] + ([a, b] if num else [])
    free = sorted(_free(es))
    rng = random.Random(seed)
    end = time.time() + seconds
    eqs = [x for x in facts if x[1] == 0]
    found = 0
    n = 0
    same = 0
    while (n < 60 or time.time() < end) and n < 4000:
        if time.time() > end and n >= 25:
            break
        n += 1
        vals = {'rng': rng, 'seed': n}
        for i in free:
            vals[i] = sample_atom(rng, i)
        pt = None
        try:
            for step in range(12 + 6 * len(facts)):
                pt = Point(vals)
                bad = satisfied(facts, pt)
                if not bad:
                    break
                # equalities last: they pin an atom
                f, s = rng.choice([x for x in bad if x[1] != 0] or bad)
                cand = [i for i in _free([f])]
                rng.shuffle(cand)
                for i in cand:
                    x = _repair(f, s, i, vals, rng, t.T.atoms[i].sign)
                    if x is not None:
                        vals[i] = x
                        break
                else:
                    pt = None
                    break
                pt = None
                if time.time() > end and n > 25:
                    break
            if pt is None:
                continue
            if satisfied(facts, pt):
                continue
            if not num:
                return 'model'
            (x, mx), (y, my) = pt.em(a), pt.em(b)
        except Bad:
            continue
        found += 1
        if abs(x - y) > 1e-6 * max(abs(x), abs(y)) and abs(x - y) > 1e-9 * max(mx, my):
            return 'model'
        same += 1
        if same >= 40:
            return 'the terms coincide on the branch'
    if found:
        return 'the terms coincide on the branch'
    return 'no model of the branch was found'
