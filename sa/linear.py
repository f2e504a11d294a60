"""Contradictory branch conditions: exact Fourier-Motzkin elimination, every monomial taken as a variable."""
from fractions import Fraction

from . import terms as t


def mono_sign(m):
    """'+', '0+' or None (unknown) of a monomial."""
    s = '+'
    for i, e in m:
        a = t.T.atoms[i].sign
        if a == t.POS:
            continue
        if a == t.NONNEG or (isinstance(e, int) and e % 2 == 0):
            if isinstance(e, int) and e < 0:
                continue
            s = '0+'
        else:
            return None
    return s


def primitive(N):
    """The polynomial without the positive atoms every monomial has in common."""
    ms = list(N)
    if not ms or t.ONE in N:
        return N
    low = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        low = {i: min(e, d[i]) for i, e in low.items() if i in d}
    low = {i: e for i, e in low.items() if t.T.atoms[i].sign == t.POS}
    if not low:
        return N
    out = {}
    for m, c in N.items():
        out[tuple((i, e - low.get(i, 0)) for i, e in m if e != low.get(i, 0))] = c
    return out


def rows(facts):
    """[(coefficients by monomial, constant, kind)]: kind '>' , '>=' or '=' 0; None for a fact outside the fragment."""
    out = []
    ms = set()
    for f, s in facts:
        if not isinstance(f, t.E) or s == 3:
            continue
        flip = 1
        if f.D:
            ok = True
            for q, k in f.D:
                if k % 2 == 0:
                    continue
                qs = t.poly_sign(dict(q))
                if qs == '-':
                    flip = -flip
                elif qs != '+':
                    ok = False
            if not ok:
                continue
        if s in (-1, -2):
            flip = -flip
        co = {}
        c0 = Fraction(0)
        for m, c in primitive(f.N).items():
            if m == t.ONE:
                c0 += c * flip
            else:
                co[m] = co.get(m, Fraction(0)) + c * flip
                ms.add(m)
        out.append((co, c0, '=' if s == 0 else ('>' if abs(s) == 1 else '>=')))
    for m in ms:
        sg = mono_sign(m)
        if sg:
            out.append(({m: Fraction(1)}, Fraction(0), '>' if sg == '+' else '>='))
    return out


def extremum(rs):
    """(atom index, sign, arguments) of a max, min or abs atom in the rows; None without one."""
    for co, _, _ in rs:
        for m in co:
            for i, e in m:
                k = t.T.atoms[i].key
                if k[0] in ('max', 'min', 'abs') and len(m) == 1 and e == 1:
                    return i, k
    return None


def replaced(f, i, g):
    """The term f with atom i (to the power one) replaced by g."""
    out = t.num(0)
    for m, c in f.N.items():
        if any(j == i for j, _ in m):
            out = t.add(out, t.mul(t.num(c), g))
        else:
            out = t.add(out, t.E({m: c}, ()) if m != t.ONE else t.num(c))
    return out


def contradictory(facts, limit=1500, depth=5):
    """True when the facts, linear in their monomials (each case of a maximum or an absolute value taken), have no solution."""
    facts = [(f, s) for f, s in facts if isinstance(f, t.E)]
    x = extremum(rows(facts)) if depth else None
    if x is None or any(f.D and any(j == x[0] for m in f.N for j, _ in m) for f, _ in facts):
        return unsolvable(rows(facts), limit)
    i, k = x
    args = [k[1], t.neg(k[1])] if k[0] == 'abs' else list(k[1:])
    if not all(isinstance(a, t.E) for a in args):
        return unsolvable(rows(facts), limit)
    for n, a in enumerate(args):
        case = [(replaced(f, i, a) if any(j == i for m in f.N for j, _ in m) else f, s) for f, s in facts]
        case += [(t.sub(a, b), -2 if k[0] == 'min' else 2) for m, b in enumerate(args) if m != n]
        case = [(f, s) for f, s in case if isinstance(f, t.E)]
        if not contradictory(case, limit, depth - 1):
            return False
    return True


def unsolvable(rs, limit):
    eqs = [r for r in rs if r[2] == '=']
    ins = [r for r in rs if r[2] != '=']
    while eqs:
        co, c0, _ = eqs.pop()
        if not co:
            if c0 != 0:
                return True
            continue
        v, a = next(iter(co.items()))

        def subst(r):
            b = r[0].get(v)
            if not b:
                return r
            k = -b / a
            n = dict(r[0])
            for m, c in co.items():
                x = n.get(m, 0) + k * c
                if x:
                    n[m] = x
                else:
                    n.pop(m, None)
            return n, r[1] + k * c0, r[2]
        eqs = [subst(r) for r in eqs]
        ins = [subst(r) for r in ins]
    while True:
        left = []
        seen = set()
        for co, c0, k in ins:
            if not co:
                if c0 < 0 or (c0 == 0 and k == '>'):
                    return True
                continue
            n = abs(next(iter(co[m] for m in sorted(co))))
            key = (tuple(sorted((m, c / n) for m, c in co.items())), c0 / n, k)
            if key not in seen:
                seen.add(key)
                left.append((co, c0, k))
        ins = left
        if not ins:
            return False
        if len(ins) > limit:
            return False
        best = None
        for v in {m for co, _, _ in ins for m in co}:
            p = sum(1 for co, _, _ in ins if co.get(v, 0) > 0)
            q = sum(1 for co, _, _ in ins if co.get(v, 0) < 0)
            if best is None or p * q - p - q < best[0]:
                best = (p * q - p - q, v)
        v = best[1]
        if best[0] + len(ins) > limit:
            return False
        P = [r for r in ins if r[0].get(v, 0) > 0]
        Q = [r for r in ins if r[0].get(v, 0) < 0]
        new = [r for r in ins if not r[0].get(v)]
        for p in P:
            for q in Q:
                a, b = p[0][v], -q[0][v]
                n = {}
                for m, c in p[0].items():
                    if m != v:
                        n[m] = c * b
                for m, c in q[0].items():
                    if m != v:
                        x = n.get(m, 0) + c * a
                        if x:
                            n[m] = x
                        else:
                            n.pop(m, None)
                new.append((n, p[1] * b + q[1] * a, '>' if '>' in (p[2], q[2]) else '>='))
        ins = new
