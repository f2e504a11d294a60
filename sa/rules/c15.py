"""C15: load combinations (EN 1990, Finnish annex)."""
from ..kit import Kit
from .. import terms as t
from ..interp import Ref, HObj

EXPLAIN = ('Value graphs of the combined line loads of every limit state on symbolic load values, frame spacing and all structure and '
           'consequence classes, for sets of loads of fixed composition, compared with EN 1990 (6.10a,b, 6.14-6.16, 6.11) and the '
           'combination factors of the Finnish annex.')
RULE = 'combined loads = EN 1990'
M = 'metku.eurocodes.en1991.en1991'
CLS = {'load': 'Load', 'area': 'AreaLoad', 'imposed': 'ImposedLoad', 'snow': 'SnowLoad', 'wind': 'WindLoad'}
SETS = {
    'roof': [('load', 'y', [0]), ('area', 'y', [0]), ('snow', 'y', [0]), ('wind', 'x', [0])],
    'floor': [('load', 'y', [0]), ('imposed', 'y', [0]), ('snow', 'y', [0]), ('wind', 'y', [0])],
    'parts': [('area', 'y', [0, 2]), ('imposed', 'y', [0]), ('imposed', 'y', [2]), ('wind', 'x', [2, 1])],
    'one': [('area', 'y', [0]), ('load', 'x', [1]), ('snow', 'y', [0])],
    'imposed': [('area', 'y', [0]), ('imposed', 'y', [0])],
    'two': [('load', 'y', [0]), ('wind', 'x', [0]), ('imposed', 'y', [1]), ('imposed', 'x', [1])],
    'dead': [('area', 'y', [1]), ('load', 'y', [1])],
}
COMB = {'uls': 'ULSCombiner', 'char': 'SLSCombiner', 'freq': 'SLSCombiner', 'quasi': 'SLSCombiner', 'acc': 'ACCCombiner'}
HINTS = {'v%d' % i: (0.5, 8) for i in range(5)}
HINTS.update(sp=(1, 8), ln=(1, 30))


def run(r):
    for name in SETS:
        for state in COMB:
            for heavy in ((False, True) if any(s[0] == 'snow' for s in SETS[name]) else (False,)):
                case(r, name, state, heavy, 'A' if name != 'parts' else 'D', 2, None)
    for cls in 'BCDE':
        for state in COMB:
            case(r, 'floor', state, False, cls, {'B': 1, 'C': 3, 'D': 2, 'E': 1}[cls], None)
    for cc in (1, 3):
        case(r, 'roof', 'uls', True, 'E', cc, None)
    for cls in 'ACE':
        for length in ('full', 'part', 'none'):
            if not (cls == 'E' and length == 'full'):
                case(r, 'imposed', 'char', False, cls, 2, length)
    case(r, 'imposed', 'multi', False, 'C', 3, None)
    case(r, 'imposed', 'multi', False, 'A', 2, 'part')
    case(r, 'one', 'multi', False, 'C', 1, None)
    for name in ('floor', 'parts'):
        for state in ('char', 'freq', 'quasi'):
            splits(r, name, state)
    factors(r)


class Setup:
    """Loads of a set, and the contexts in which each of its combinations governs."""

    def __init__(self, r, name, heavy, cls, cc, length):
        self.k = k = Kit(r, 'actions', hints=HINTS)
        k.it.exact_round = 2
        self.name, self.cls, self.cc = name, cls, cc
        self.vals = [k.s('v%d' % i) for i in range(len(SETS[name]))]
        self.sp = k.s('sp')
        self.ln = k.s('ln') if length else None
        self.n = 1 + max(max(s[2]) for s in SETS[name])
        ctx = t.Ctx()
        for v, s in zip(self.vals, SETS[name]):
            if s[0] == 'snow':
                ctx = ctx.with_sign(t.sub(v, t.div(k.n(11), k.n(4))), 2 if heavy else -1)
        if length:
            area = t.mul(self.sp, self.ln)
            # reduction by 0.7, by the formula, or none
            psi0 = t.div(k.n(7), k.n(10)) if cls != 'E' else k.n(1)

            def over(x):
                """area*(reduction factor - x)"""
                return t.add(t.mul(area, t.sub(t.mul(t.div(k.n(5), k.n(7)), psi0), x)), k.n(10))
            if length == 'none':
                ctx = ctx.with_sign(over(k.n(1)), 1)
            elif length == 'part':
                ctx = ctx.with_sign(over(k.n(1)), -1).with_sign(over(t.div(k.n(7), k.n(10))), 1)
            else:
                ctx = ctx.with_sign(over(t.div(k.n(7), k.n(10))), -1).with_sign(over(k.n(1)), -1)
        self.ctx = ctx

    def loads(self, st):
        k = self.k
        return [k.lst(st, k.new(st, M, CLS[s[0]], v), s[1], k.lst(st, *[k.n(i) for i in s[2]])) for v, s in zip(self.vals, SETS[self.name])]

    def ref(self, st):
        k = self.k
        return k.lst(st, *[k.lst(st, s[0], v, s[1], k.lst(st, *[k.n(i) for i in s[2]])) for v, s in zip(self.vals, SETS[self.name])])

    def governing(self, states):
        """[(tag, context)]: one combination larger than every other one of each limit state."""
        k = self.k
        out = [('', self.ctx)]
        for s in states:
            st = k.st()
            st.ctx = self.ctx
            tot = k.items(st, k.sp(st, 'totals', s, self.ref(st), self.cls, k.n(self.cc), self.sp, self.ln))
            tot = [t.simplify(x, self.ctx) for x in tot]
            new = []
            for tag, c in out:
                for i, x in enumerate(tot):
                    c2 = c
                    for j, y in enumerate(tot):
                        d = t.sub(x, y)
                        if j == i or d.is_const():
                            continue
                        if 1 not in c2.possible(d):
                            c2 = None
                            break
                        c2 = c2.with_sign(d, 1)
                    if c2 is not None:
                        new.append((tag + '.%d' % i if len(tot) > 1 else tag, c2))
            out = new
        return out


def case(r, name, state, heavy, cls, cc, length):
    """One obligation for each combination that may govern."""
    for i in range(len(Setup(r, name, heavy, cls, cc, length).governing(states_of(state)))):
        s = Setup(r, name, heavy, cls, cc, length)
        tag, ctx = s.governing(states_of(state))[i]
        one(s, state, heavy, length, tag, ctx)


def states_of(state):
    return ['uls', 'char', 'freq', 'acc'] if state == 'multi' else [state]


def one(s, state, heavy, length, tag, ctx):
    k, n, cls, cc, sp, ln = s.k, s.n, s.cls, s.cc, s.sp, s.ln
    comb = COMB.get(state, 'MultiCombiner')

    def code(st):
        c = k.new(st, M, comb, cls, k.n(cc), sp)
        for x in s.loads(st):
            k.call(st, c, 'add', x)
        if ln is not None:
            k.call(st, c, 'use_reduction_factor', ln)
        res = k.call(st, c, 'get_result')
        if state == 'multi':
            g = k.it.getitem
            sls = g(st, res, 'sls')
            parts = [g(st, res, 'uls'), g(st, sls, 'char'), g(st, sls, 'freq'), g(st, sls, 'quasi'), g(st, res, 'acc')]
            return k.tup(*[k.sp(st, 'flat', x, k.n(n)) for x in parts])
        if state in ('char', 'freq', 'quasi'):
            res = k.it.getitem(st, res, state)
        return k.sp(st, 'flat', res, k.n(n))

    def want(st):
        if state == 'multi':
            return k.tup(*[k.sp(st, 'combine', x, s.ref(st), cls, k.n(cc), sp, k.n(n), ln) for x in ('uls', 'char', 'freq', 'quasi', 'acc')])
        return k.sp(st, 'combine', state, s.ref(st), cls, k.n(cc), sp, k.n(n), ln)
    key = '%s.%s%s.%s%d%s%s' % (s.name, state, '.heavy' if heavy else '', cls, cc, '.reduced-' + length if length else '', tag)
    k.eq(key, (M, comb + '.get_result'), RULE, code, want, ctx=ctx, assume=True)


def splits(r, name, state):
    for i in range(len(Setup(r, name, False, 'A', 2, None).governing([state]))):
        s = Setup(r, name, False, 'A', 2, None)
        tag, ctx = s.governing([state])[i]
        split(s, state, tag, ctx)


def split(s, state, tag, ctx):
    k = s.k

    def code(st):
        c = k.new(st, M, 'SLSCombiner', 'A', k.n(2), s.sp)
        k.call(st, c, 'add', *s.loads(st))
        res = k.it.getitem(st, k.call(st, c, 'get_result', True), state)
        return k.sp(st, 'split_of', res, k.n(s.n))
    k.eq('split.%s.%s%s' % (s.name, state, tag), (M, 'SLSCombiner.get_result'), RULE, code,
         lambda st: k.sp(st, 'split', state, s.ref(st), 'A', k.n(2), s.sp, k.n(s.n)), ctx=ctx, assume=True)


def factors(r):
    k = Kit(r, 'actions', hints=HINTS)
    v, a, b, c = k.ss('v a b c')
    for i in range(3):
        for kind in ('snow', 'wind'):
            k.eq('combined.%s.%d' % (kind, i), (M, CLS[kind]), RULE,
                 lambda st, kind=kind, i=i: k.call(st, k.new(st, M, CLS[kind], v), 'combined', k.n(i)),
                 lambda st, kind=kind, i=i: t.mul(v, k.it.getitem(st, k.sp(st, 'psi', kind, v, 'A'), k.n(i))) if kind == 'wind' else
                 k.sp(st, 'psi_value', kind, v, k.n(i)))
        k.eq('combined.load.%d' % i, (M, 'Load.combined'), RULE,
             lambda st, i=i: k.call(st, k.new(st, M, 'Load', v, k.lst(st, a, b, c)), 'combined', k.n(i)),
             lambda st, i=i: t.mul(v, [a, b, c][i]))
