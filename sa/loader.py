"""Parses every module of /repo/jVMC and resolves names (imports, aliases, re-exports)."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class FuncInfo:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        p = self.module.name
        if self.cls:
            p += "." + self.cls.name
        return p + "." + self.name

    def where(self, node=None):
        return "%s:%d" % (self.module.rel, (node or self.node).lineno)


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}
        self.attrs = {}      # class level assignments name -> expr
        self.fields = []     # annotated fields in order (dataclass style)
        self.bases = node.bases
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # property setters share the name: keep both
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in st.decorator_list):
                    self.methods[st.name + ".setter"] = FuncInfo(module, st, self)
                else:
                    self.methods[st.name] = FuncInfo(module, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append(st.target.id)
                if st.value is not None:
                    self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return self.module.name + "." + self.name


class Module:
    def __init__(self, name, path, rel, is_pkg):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        self.src = open(path).read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.stars = {}, {}, {}, []
        self.assigns = {}    # module level name -> last expr
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    pkg = self.name if self.is_pkg else self.name.rpartition(".")[0]
                    for _ in range(st.level - 1):
                        pkg = pkg.rpartition(".")[0]
                    base = pkg + ("." + base if base else "")
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, (ast.Assign,)):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.assigns[n.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.assigns[st.target.id] = st.value
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                # names bound only in handlers / else
                for b in (st.orelse, st.finalbody):
                    self._scan(b)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.With):
                self._scan(st.body)


class Program:
    def __init__(self, repo=None, overlay=None):
        """overlay: {rel path: source} replaces file contents (checker self-tests)"""
        self.repo = repo or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        root = os.path.join(self.repo, "jVMC")
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                m = Module(name, path, rel, is_pkg)
                if overlay and rel in overlay:
                    m.src = overlay[rel]
                    m.tree = ast.parse(m.src, path)
                    m.funcs, m.classes, m.imports, m.stars, m.assigns = {}, {}, {}, [], {}
                    m._scan(m.tree.body)
                self.modules[name] = m
                self.digest.update(rel.encode())
                self.digest.update(m.src.encode())
        if not self.modules:
            raise SystemExit("no jVMC sources found under %s" % self.repo)

    # ------------------------------------------------------------------
    def lookup(self, modname, attr, _seen=None):
        """resolve attribute of a repo module -> ('func'|'class'|'assign'|'module'|'ext', obj)"""
        _seen = _seen or set()
        if (modname, attr) in _seen:
            return None
        _seen.add((modname, attr))
        m = self.modules.get(modname)
        if m is None:
            return None
        if attr in m.funcs:
            return ("func", m.funcs[attr])
        if attr in m.classes:
            return ("class", m.classes[attr])
        if attr in m.assigns:
            return ("assign", (m, attr))
        if attr in m.imports:
            return self.resolve(m.imports[attr], _seen)
        if modname + "." + attr in self.modules:
            return ("module", modname + "." + attr)
        for s in m.stars:
            if s in self.modules:
                r = self.lookup(s, attr, _seen)
                if r:
                    return r
        return None

    def resolve(self, dotted, _seen=None):
        """dotted absolute name -> descriptor"""
        if dotted in self.modules:
            return ("module", dotted)
        if dotted.split(".")[0] != "jVMC":
            return ("ext", dotted)
        head, _, tail = dotted.rpartition(".")
        if not head:
            return ("ext", dotted)
        if head in self.modules:
            r = self.lookup(head, tail, _seen)
            return r if r else None
        r = self.resolve(head, _seen)
        if r and r[0] == "module":
            return self.lookup(r[1], tail, _seen)
        if r and r[0] == "class":
            ci = r[1]
            if tail in ci.methods:
                return ("func", ci.methods[tail])
        return None

    def func(self, dotted):
        """public anchor -> FuncInfo (raises AnchorMissing)"""
        parts = dotted.split(".")
        r = self.resolve(dotted)
        if r and r[0] == "func":
            return r[1]
        # Class.method
        r = self.resolve(".".join(parts[:-1]))
        if r and r[0] == "class":
            fi = self.find_method(r[1], parts[-1])
            if fi:
                return fi
        raise AnchorMissing(dotted)

    def cls(self, dotted):
        r = self.resolve(dotted)
        if r and r[0] == "class":
            return r[1]
        raise AnchorMissing(dotted)

    def base_classes(self, ci):
        out = []
        for b in ci.bases:
            d = self.expr_dotted(ci.module, b)
            if d:
                r = self.resolve(d)
                if r and r[0] == "class":
                    out.append(r[1])
        return out

    def mro(self, ci):
        out, todo = [], [ci]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += self.base_classes(c)
        return out

    def find_method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def expr_dotted(self, module, e):
        """dotted absolute name for a Name/Attribute chain at module scope"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        head = e.id
        if head in module.imports:
            head = module.imports[head]
        elif head in module.classes or head in module.funcs or head in module.assigns:
            head = module.name + "." + head
        else:
            r = self.lookup(module.name, head)
            if r and r[0] in ("class", "func"):
                head = r[1].qual
            elif r and r[0] == "ext":
                head = r[1]
            elif r and r[0] == "module":
                head = r[1]
        return ".".join([head] + parts[::-1])


class AnchorMissing(Exception):
    pass
