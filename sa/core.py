"""Obligations, comparison of value graphs, reports and evidence."""
import json
import os
import sys
import time
import traceback

from . import terms as t
from . import interp as I
from . import model, linear
from .project import Project, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class Undecided(Exception):
    pass


class OutOfTime(BaseException):
    pass


class Dev:
    """One deviation found by an obligation."""

    def __init__(self, what, branch='', got='', want='', where=None):
        self.what, self.branch, self.got, self.want, self.where = what, branch, got, want, where


class Ob:
    __slots__ = ('key', 'where', 'rule', 'status', 'devs', 'note', 'secs', 'known')

    def __init__(self, key, where, rule):
        self.key, self.where, self.rule = key, where, rule
        self.status = 'ok'
        self.devs = []
        self.note = ''
        self.secs = 0
        self.known = None


class Spec(Project):
    """Project that also contains the reference modules of /verif/spec as `spec.*`."""

    def __init__(self):
        super().__init__()
        d = os.path.join(VERIF, 'spec')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                self.paths['spec.' + f[:-3]] = os.path.join(d, f)


class Run:
    def __init__(self, prop, tier='quick', only=None, limit=700):
        self.prop = prop
        self.tier = tier
        self.only = only
        self.obs = []
        self.t0 = time.time()
        self.limit = limit
        self.ob_limit = 60 if tier != 'thorough' else 240
        self.deadline = None     # the watchdog of check.py interrupts an obligation past this time
        self.proj = Spec()
        self.visited = {}
        self.assumptions = []
        self.seen_keys = set()

    # ------------------------------------------------------------ engines
    def interp(self, **kw):
        it = I.Interp(self.proj, **kw)
        it.run = self
        return it

    def note(self, it):
        for k, v in it.visited.items():
            if not k[0].startswith('spec'):
                self.visited[k] = v

    def fresh(self):
        """Reset the global value tables (each obligation group starts clean)."""
        t.reset()
        t.Budget.left = 400000

    # ------------------------------------------------------------ obligations
    def ob(self, key, where, rule, thunk):
        """Evaluate one obligation.  thunk() returns a list of Dev (empty: holds)."""
        if self.only and key != self.only:
            return
        if key in self.seen_keys:
            raise RuntimeError('duplicate obligation ' + key)
        self.seen_keys.add(key)
        o = Ob(key, where, rule)
        self.obs.append(o)
        if time.time() - self.t0 > self.limit:
            o.status, o.note = 'undecided', 'time limit'
            return
        t0 = time.time()
        t.Budget.left = 400000
        try:
            self.deadline = t0 + self.ob_limit
            try:
                devs = thunk() or []
            finally:
                self.deadline = None
            o.devs = [d for d in devs if isinstance(d, Dev)]
            und = [d for d in devs if isinstance(d, str)]
            if o.devs:
                o.status = 'violation'
            elif und:
                o.status, o.note = 'undecided', und[0]
        except Undecided as e:
            o.status, o.note = 'undecided', str(e)
        except t.TooBig as e:
            o.status, o.note = 'undecided', 'value graph bound: %s' % e
        except OutOfTime:
            o.status, o.note = 'undecided', 'time limit'
        except RecursionError:
            o.status, o.note = 'undecided', 'recursion bound'
        except Exception as e:
            o.status, o.note = 'undecided', 'analysis error: %s: %s' % (type(e).__name__, e)
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        o.secs = time.time() - t0

    def line(self, where):
        """file:line of a (module, qualname) anchor in the current source."""
        if not where:
            return ''
        mod, qual = where[0], where[1]
        m = self.proj.module(mod)
        if m is None or m.tree is None:
            return mod
        import ast
        node = m.tree
        for part in (qual or '').split('.'):
            nxt = None
            for s in ast.iter_child_nodes(node):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == part:
                    nxt = s
            if nxt is None:
                break
            node = nxt
        rel = os.path.relpath(m.path, REPO)
        return '%s:%s' % (rel, getattr(node, 'lineno', 1))


# ------------------------------------------------------------- comparisons
def has_u(v, st=None, depth=0):
    """Does the value depend on anything widened?"""
    for x in t.leaves(v):
        if isinstance(x, I.U):
            return x.why
        if isinstance(x, I.Tup):
            for y in x.items:
                r = has_u(y, st, depth)
                if r:
                    return r
        if isinstance(x, I.Ref) and st is not None and depth < 3:
            o = st.get(x)
            if isinstance(o, I.HObj) and o.kind in ('list', 'nd'):
                for y in o.data:
                    r = has_u(y, st, depth + 1)
                    if r:
                        return r
            elif isinstance(o, I.HObj) and o.kind == 'unk':
                return str(o.meta)
    if isinstance(v, t.Node):
        for p in t.preds_of(v):
            if p.kind in ('unk',):
                return 'undecided condition: %s' % (p.key[-1],)
    return None


def flatten(st, v, path=''):
    """Structured value -> ordered list of (path, scalar diagram); None when unknown."""
    if isinstance(v, I.Tup):
        items = list(v.items)
    elif isinstance(v, I.Ref):
        o = st.get(v)
        if isinstance(o, t.Node):
            return None
        if o is None:
            return None
        if o.kind in ('list', 'nd'):
            if o.kind == 'nd' and len(o.meta) == 2:
                n, m = o.meta
                return [('%s[%d,%d]' % (path, i, j), o.data[i * m + j]) for i in range(n) for j in range(m)]
            items = list(o.data)
        elif o.kind == 'dict':
            out = []
            for k, x in o.data.items():
                r = flatten(st, x, '%s[%s]' % (path, k if isinstance(k, str) else I.show(k)))
                if r is None:
                    return None
                out.extend(r)
            return out
        else:
            return [(path, v)]
    elif isinstance(v, t.Node):
        ls = t.leaves(v)
        seqs = [x for x in ls if isinstance(x, (I.Tup, I.Ref)) and _isseq(st, x)]
        if not seqs:
            return [(path, v)]
        # gated sequences of equal length: distribute
        parts = []
        n = None
        for x in ls:
            if isinstance(x, (I.U, I.Raise)):
                continue
            s = _items(st, x)
            if s is None:
                return None
            if n is None:
                n = len(s)
            elif n != len(s):
                return None
        out = []
        for i in range(n):
            vi = t.apply(lambda x: x if isinstance(x, (I.U, I.Raise)) else I.PairL(_items(st, x)[i], None), v)
            vi = _unpair(vi)
            r = flatten(st, vi, '%s[%d]' % (path, i))
            if r is None:
                return None
            out.extend(r)
        return out
    else:
        return [(path, v)]
    out = []
    for i, x in enumerate(items):
        r = flatten(st, x, '%s[%d]' % (path, i))
        if r is None:
            return None
        out.extend(r)
    return out


def _unpair(v):
    memo = {}

    def go(n):
        if isinstance(n, t.Node):
            r = memo.get(n)
            if r is None:
                r = t._build(n.pred, tuple(go(k) for k in n.kids))
                memo[n] = r
            return r
        return n.a if isinstance(n, I.PairL) else n
    return go(v)


def _isseq(st, x):
    if isinstance(x, I.Tup):
        return True
    o = st.get(x)
    return isinstance(o, I.HObj) and o.kind in ('list', 'nd')


def _items(st, x):
    if isinstance(x, I.Tup):
        return x.items
    o = st.get(x) if isinstance(x, I.Ref) else None
    if isinstance(o, I.HObj) and o.kind in ('list', 'nd') and (o.kind == 'list' or len(o.meta) == 1):
        return o.data
    return None


def fixb(x):
    return t.num(int(x)) if isinstance(x, bool) else x


def scalar_diff(got, want, ctx=None, name=''):
    """-> (Dev or None, undecided reason or None)"""
    und = []

    def eq(a, b):
        if isinstance(a, I.U) or isinstance(b, I.U):
            und.append((a if isinstance(a, I.U) else b).why)
            return True
        if isinstance(a, bool) and isinstance(b, t.E):
            return t.equal(fixb(a), b)
        if isinstance(b, bool) and isinstance(a, t.E):
            return t.equal(a, fixb(b))
        if isinstance(a, I.Raise) and isinstance(b, I.Raise):
            return True
        if isinstance(a, I.Undef) or isinstance(b, I.Undef):
            return None
        return None
    c = ctx or t.Ctx()
    miss = []
    calls = [0]

    def confirm(c, a, b):
        if any(p.kind in ('unk',) for p in c.bools):
            return True
        if len(miss) >= 12:
            return False
        if linear.contradictory(c.facts):
            return False
        why = model.confirm(c, a, b, 0.6 if any(s == 0 for _, s in c.facts) else 1.5)
        if why == 'model':
            return True
        if 'coincide' not in why and sum(s == 0 for _, s in c.facts) < 2:
            miss.append(why)
        calls[0] += 1
        if calls[0] > 60:
            miss.extend([why] * 12)
        return False
    r = t.diff(got, want, c, eq=eq, limit=20000, confirm=confirm)
    if r is None and miss:
        und.append('deviation on a branch for which %s' % miss[0])
    while r is not None and any(p.kind in ('unk',) for p in r[0].bools):
        und.append('deviation only under an undecided condition')
        return None, und[0]
    if r is None:
        return None, (und[0] if und else None)
    c2, a, b = r
    return Dev(name or 'value', t.show_ctx(c2), shorten(a), shorten(b)), None


def shorten(v, n=700):
    s = I.show(v) if not isinstance(v, t.E) else t.show(v, n)
    return s if len(s) <= n else s[:n] + '...'


def compare(it_st, got, want_st, want, name='', ctx=None):
    """Compare two (possibly structured) values; list of Dev / undecided strings."""
    out = []
    if isinstance(got, I.U):
        return ['%s: %s' % (name, got.why)]
    fg = flatten(it_st, got)
    fw = flatten(want_st, want)
    if fg is None or fw is None:
        return ['%s: unresolved container' % name]
    if len(fg) != len(fw):
        u = has_u(got, it_st)
        if u:
            return ['%s: %s' % (name, u)]
        if len(fg) == 1 and isinstance(fg[0][1], I.Raise):
            return [Dev(name, 'always', shorten(fg[0][1]), '%d values' % len(fw))]
        if len(fg) == 1 and isinstance(fg[0][1], t.Node):
            return ['%s: shapes differ under a condition' % name]
        return [Dev(name, 'shape', '%d values' % len(fg), '%d values' % len(fw))]
    for (pg, g), (pw, w) in zip(fg, fw):
        d, u = scalar_diff(g, w, ctx, name + pg)
        if d is not None:
            out.append(d)
            if len(out) >= 4:
                break
        elif u:
            out.append('%s%s: %s' % (name, pg, u))
    devs = [d for d in out if isinstance(d, Dev)]
    return devs or out


# ------------------------------------------------------------- known findings
def load_known():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> key=<obligation key> [dev=<text>] :: what'."""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(p):
        return out
    for line in open(p, encoding='utf-8'):
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        head, _, what = line[len('finding:'):].partition('::')
        kv = {}
        for tok in head.split():
            k, _, v = tok.partition('=')
            kv[k] = v
        out.setdefault((kv.get('property'), kv.get('key')), []).append((kv.get('sig'), what.strip()))
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(obj, f, indent=1, sort_keys=True, ensure_ascii=False)
        f.write('\n')


def finish(run, explain, seed=1):
    """Print the report, write evidence; return the exit status."""
    known = load_known()
    viol, kf, und, ok = [], [], [], []
    for o in run.obs:
        if o.status == 'violation':
            ent = known.get((run.prop, o.key))
            rest = list(o.devs)
            if ent:
                matched = []
                for d in rest:
                    for sig, what in ent:
                        if sig is None or sig == getattr(d, 'sig', None):
                            matched.append((d, what))
                            break
                rest = [d for d in rest if all(d is not m for m, _ in matched)]
                for what in dict.fromkeys(w for _, w in matched):
                    kf.append((o, what))
            if rest:
                o.devs = rest
                viol.append(o)
            elif ent:
                o.status = 'known'
        elif o.status == 'undecided':
            und.append(o)
        else:
            ok.append(o)
    for o, what in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (run.prop, o.key, what))
    for o in viol:
        rp = os.path.join(EVID, 'replay', '%s-%s.json' % (run.prop, _safe(o.key)))
        write_json(rp, {'property': run.prop, 'obligation': o.key, 'rule': o.rule,
                        'where': run.line(o.where), 'function': '%s.%s' % tuple(o.where[:2]) if o.where else '',
                        'deviations': [d.__dict__ for d in o.devs],
                        'rerun': 'python3 check.py %s --only %s' % (run.prop, o.key)})
        print('%s: rule %s: obligation %s (%s)' % (run.line(o.where), o.rule, o.key,
                                                   '.'.join(str(x) for x in (o.where or ())[:2])))
        for d in o.devs[:4]:
            print('    %s%s' % (d.what, (' at ' + d.where) if d.where else ''))
            if d.branch:
                print('      when     %s' % d.branch[:600])
            if d.got != '' or d.want != '':
                print('      code     %s' % d.got)
                print('      required %s' % d.want)
        print('VIOLATION property=%s replay=%s' % (run.prop, rp))
    n = len(run.obs)
    wall = time.time() - run.t0
    decided = n - len(und)
    print('%s: %d obligations, %d hold, %d known, %d violated, %d undecided; %d functions analysed; %.1f s' %
          (run.prop, n, len(ok), len({id(o) for o, _ in kf}), len(viol), len(und), len(run.visited), wall))
    for o in und[:60]:
        print('  undecided %s: %s' % (o.key, o.note[:160]))
    rules = {}
    for o in run.obs:
        rules[o.rule] = rules.get(o.rule, 0) + 1
    ev = {
        'property': run.prop, 'tier': run.tier, 'seed': seed, 'level': 'other',
        'wall_s': round(wall, 2), 'violations': len(viol),
        'coverage': {
            'explanation': explain,
            'obligations': n, 'decided': decided, 'hold': len(ok), 'undecided': len(und),
            'known_findings': len(kf), 'rules': rules,
            'functions_analysed': len(run.visited),
            'functions': sorted('%s.%s' % k for k in run.visited)[:400],
            'obligation_list': [{'key': o.key, 'where': run.line(o.where), 'rule': o.rule, 'status': o.status,
                                 'note': o.note} for o in run.obs],
        },
        'assumptions': run.assumptions,
    }
    write_json(os.path.join(EVID, run.prop + '.json'), ev)
    if viol:
        return 1
    if n == 0 or decided == 0:
        print('%s: nothing could be decided' % run.prop)
        return 2
    return 0


def _safe(k):
    return ''.join(c if c.isalnum() or c in '-_.' else '_' for c in k)[:120]
