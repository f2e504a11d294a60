"""Source model of the analysed repository: modules, classes, functions (syntax only)."""
import ast
import os
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = None
        self.error = None
        self.source = None
        try:
            with open(path, encoding='utf-8-sig') as f:
                self.source = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = ast.parse(self.source, path)
        except (SyntaxError, UnicodeDecodeError, ValueError) as e:
            self.error = e


class Project:
    """All python modules under /repo/metku, by dotted name."""

    def __init__(self, root=None):
        self.root = root or REPO
        self.paths = {}
        for d, dn, fn in os.walk(os.path.join(self.root, 'metku')):
            dn[:] = sorted(x for x in dn if x not in ('__pycache__', '.git'))
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.paths[rel] = p
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.paths.get(name)
        m = Module(name, p) if p else None
        self.mods[name] = m
        return m

    def resolve(self, name, level=0, package=None):
        """Dotted import name -> module name in the repository or None."""
        if level:
            base = package.split('.')
            base = base[:len(base) - (level - 1)] if level > 1 else base
            name = '.'.join(base + ([name] if name else []))
        if name in self.paths:
            return name
        if name.split('.')[0] == 'metku':
            # namespace packages without __init__
            if any(k.startswith(name + '.') for k in self.paths):
                return name
            return None
        # bare imports as when run from inside metku/ (sys.path = metku)
        cand = 'metku.' + name
        if cand in self.paths:
            return cand
        return None

    def is_package(self, name):
        p = self.paths.get(name)
        return (p is None) or p.endswith('__init__.py')

    def all_modules(self):
        for n in sorted(self.paths):
            yield self.module(n)
