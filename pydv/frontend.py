"""Mechanical extraction: locate the AST of a function/class in /repo's working tree."""
import ast, hashlib, os

REPO = os.environ.get('VERIF_REPO', '/repo')


class Missing(Exception):
    pass


class Module:
    cache = {}

    def __init__(self, relpath):
        self.relpath = relpath
        with open(os.path.join(REPO, relpath), encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.aliases = {}
        self._top(self.tree.body)

    def _top(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) >= 1:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[(a.asname or a.name).split('.')[0]] = (a.name, None)
            elif isinstance(n, (ast.If, ast.Try)):
                self._top(n.body)

    @classmethod
    def get(cls, relpath):
        if relpath not in cls.cache:
            cls.cache[relpath] = Module(relpath)
        return cls.cache[relpath]

    def methods(self, cname):
        """name -> FunctionDef for a class (own + inherited within the module), plus aliases `a = b`."""
        c = self.classes.get(cname)
        if c is None:
            raise Missing(f'{self.relpath}: class {cname}')
        out = {}
        for b in reversed(c.bases):
            if isinstance(b, ast.Name) and b.id in self.classes and b.id != cname:
                out.update(self.methods(b.id))
        for n in c.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in out:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[t.id] = out[n.value.id]
        return out

    def find(self, qual):
        """`f`, `C.m`, or `f.g` / `C.m.g` for a function nested in another."""
        parts = qual.split('.')
        if parts[0] in self.classes and len(parts) > 1:
            ms = self.methods(parts[0])
            node = ms.get(parts[1])
            rest = parts[2:]
        else:
            node = self.funcs.get(parts[0])
            rest = parts[1:]
        if node is None:
            raise Missing(f'{self.relpath}: {qual}')
        for p in rest:
            node = next((n for n in ast.walk(node) if isinstance(n, ast.FunctionDef) and n.name == p), None)
            if node is None:
                raise Missing(f'{self.relpath}: {qual}')
        return node


def source_digest(relpath, node):
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:16]


def is_generator(node):
    class G(ast.NodeVisitor):
        found = False
        def visit_Yield(self, n): self.found = True
        def visit_YieldFrom(self, n): self.found = True
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
    g = G()
    for s in node.body:
        g.visit(s)
    return g.found
