"""Loads the repository's source (syntax trees only, nothing is imported or executed)."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnchorMissing(Exception):
    """the analysed tree no longer contains something the check is anchored to"""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.env = {}
        self.state = 'new'

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Project:
    ROOTS = ('CommDspy', 'example_simulation')

    def __init__(self):
        self.modules = {}
        self.files = 0
        self.errors = []
        for root in self.ROOTS:
            base = os.path.join(REPO, root)
            for dp, dn, fn in os.walk(base):
                dn[:] = [d for d in dn if not d.startswith('.') and d != '__pycache__']
                for f in sorted(fn):
                    if f.endswith('.py'):
                        self._load(os.path.join(dp, f))
        # namespace packages (directories without __init__)
        for name in list(self.modules):
            parts = name.split('.')
            for i in range(1, len(parts)):
                p = '.'.join(parts[:i])
                if p not in self.modules:
                    self.modules[p] = Module(p, os.path.join(REPO, *parts[:i]), ast.parse(''), True)
        if 'CommDspy' not in self.modules:
            raise AnchorMissing('package CommDspy not found in %s' % REPO)

    def _load(self, path):
        rel = os.path.relpath(path, REPO)[:-3].replace(os.sep, '.')
        is_pkg = rel.endswith('.__init__')
        name = rel[:-9] if is_pkg else rel
        src = open(path, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        self.files += 1
        self.modules[name] = Module(name, path, tree, is_pkg)
