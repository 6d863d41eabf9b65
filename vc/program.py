"""Reads /repo's current source: modules, classes and functions as ast, resolved by name."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith("__init__.py")
        self.bind = {}
        self.stars = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.bind[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.bind[a.asname] = ("mod", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.bind[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.bind[t.id] = ("expr", n.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.bind[e.id] = ("item", n.value, i)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.bind[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.Try):
                before = dict(self.bind)
                for h in n.handlers:
                    self._collect(h.body)
                self.bind.update(before)
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.If):
                self._collect(n.orelse)
                self._collect(n.body)
            elif isinstance(n, ast.With):
                self._collect(n.body)


class Program(object):
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = overrides or {}

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        if name.split(".")[0] == "oa":
            path = self.path_of(name)
            if path:
                with open(path, encoding="utf8") as f:
                    src = f.read()
                if name in self.overrides:
                    src = self.overrides[name]
                m = Module(name, path, src)
        self.mods[name] = m
        return m

    def find(self, qual):
        """'oa.mod:Class.meth' -> (module, classnode or None, functionnode)."""
        mname, path = qual.split(":")
        m = self.module(mname)
        if m is None:
            return None
        parts = path.split(".")
        node = m.bind.get(parts[0])
        cls = None
        for p in parts[1:]:
            if not isinstance(node, ast.ClassDef):
                return None
            cls = node
            nxt = None
            for b in node.body:
                if isinstance(b, ast.FunctionDef) and b.name == p:
                    nxt = b
            node = nxt
        if not isinstance(node, ast.FunctionDef):
            return None
        return m, cls, node
