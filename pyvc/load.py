"""Parses the real modules of /repo on every run. Nothing is dropped but docstrings;
names of private attributes are mangled per class as Python does."""
import ast, os, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class Func:
    def __init__(self, node, cls, module):
        self.node, self.cls, self.module = node, cls, module
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        decs = [d.id if isinstance(d, ast.Name) else ast.dump(d) for d in getattr(node, "decorator_list", [])]
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = "property" in decs
        self.other_decs = [d for d in decs if d not in ("staticmethod", "classmethod", "property")]
        self.is_gen = has_yield(node)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "Func(%s)" % self.qual


def has_yield(fn):
    if isinstance(fn, ast.Lambda):
        return False
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases, self.methods, self.consts = [], {}, {}

    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__"):
            return "_" + self.name.lstrip("_") + n
        return n

    def lookup(self, name):
        if name in self.methods:
            return self.methods[name]
        for b in self.bases:
            r = b.lookup(name)
            if r is not None:
                return r
        return None

    def lookup_const(self, name):
        if name in self.consts:
            return self.consts[name], self
        for b in self.bases:
            r = b.lookup_const(name)
            if r is not None:
                return r
        return None

    def mro_names(self):
        return [self.name] + [n for b in self.bases for n in b.mro_names()]

    def __repr__(self):
        return "Class(%s)" % self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.names = {}


def load():
    files = {}
    root = os.path.join(REPO, "dynetworkx")
    for d, _, fs in os.walk(root):
        if "test" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                mod = os.path.relpath(p, REPO)[:-3].replace("/", ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                files[mod] = p
    mods = {m: Module(m, p) for m, p in sorted(files.items())}
    classes = {}
    for m in mods.values():
        for st in m.tree.body:
            if isinstance(st, ast.ClassDef):
                c = Class(st.name, st, m)
                m.names[st.name] = c
                classes[(m.name, st.name)] = c
            elif isinstance(st, ast.FunctionDef):
                m.names[st.name] = Func(st, None, m)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.names[a.asname or a.name] = ("import", st.module, a.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                m.names[st.targets[0].id] = ("expr", st.value)
    for c in classes.values():
        for b in c.node.bases:
            if isinstance(b, ast.Name):
                r = resolve(mods, c.module, b.id)
                if isinstance(r, Class):
                    c.bases.append(r)
                elif b.id != "object":
                    c.foreign_base = True
        for st in c.node.body:
            if isinstance(st, ast.FunctionDef):
                f = Func(st, c, c.module)
                if any("setter" in d for d in f.other_decs):
                    continue
                c.methods[c.mangle(st.name)] = f
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                c.consts[c.mangle(st.targets[0].id)] = st.value
    return mods, classes


def resolve(mods, m, name, depth=0):
    r = m.names.get(name)
    if isinstance(r, tuple) and r[0] == "import" and depth < 5:
        if r[1] in mods:
            q = resolve(mods, mods[r[1]], r[2], depth + 1)
            if q is not None:
                return q
            if r[1] + "." + r[2] in mods:
                return ("module", r[1] + "." + r[2])
        return r
    return r


def digest(mods):
    h = hashlib.sha256()
    for m in sorted(mods):
        h.update(mods[m].src.encode())
    return h.hexdigest()[:16]
