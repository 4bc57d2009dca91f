"""Source loading: every module of the package, parsed from /repo's working tree."""
import ast
import os


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg, src):
        self.name, self.path, self.relpath, self.tree, self.is_pkg, self.src = name, path, relpath, tree, is_pkg, src
        self.defined = set()
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defined.add(n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defined.add(x.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.defined.add((a.asname or a.name).split(".")[0])


class Program:
    def __init__(self, root="/repo", package="bartpy"):
        self.root, self.package = root, package
        self.modules = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                src = open(p, encoding="utf-8").read()
                self.modules[".".join(parts)] = Module(".".join(parts), p, rel, ast.parse(src, p), is_pkg, src)

    def functions(self):
        n = 0
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    n += 1
        return n
