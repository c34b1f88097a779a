"""Every name, attribute and call in the package resolves."""
import ast
import builtins
import os
import re
import symtable

from ..lib import modules
from .registry import about, check

about("C24", "Every documented function can be called as documented",
      "Scope analysis of every function (each global name has a definition "
      "in its module or the built-ins), resolution of every attribute of a "
      "package module and every import from one, binding of the arguments "
      "of every call to a package function or class against its signature, "
      "and existence of every name in __all__ and in the documentation.",
      ["Names are not defined by exec, setattr or monkey-patching."])
PKG = "calkulate"
MAGIC = {"__name__", "__file__", "__doc__", "__path__", "__package__",
         "__spec__", "__loader__", "__builtins__", "__annotations__",
         "__dict__", "__class__", "__module__", "__qualname__"}


class Mod:
    def __init__(self, repo, name):
        self.name = name
        p = os.path.join(repo, *name.split("."))
        self.is_pkg = os.path.isdir(p)
        self.path = os.path.join(p, "__init__.py") if self.is_pkg \
            else p + ".py"
        with open(self.path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}      # name -> list of ("func", node) / ("class", node)
        #                     / ("import", module, attr) / ("value", node)
        self.star = False
        for s in self.tree.body:
            self.bind(s)

    def add(self, n, d):
        self.defs.setdefault(n, []).append(d)

    def bind(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.add(s.name, ("func", s))
        elif isinstance(s, ast.ClassDef):
            self.add(s.name, ("class", s))
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    self.add(a.asname, ("import", a.name, None))
                else:
                    self.add(a.name.split(".")[0],
                             ("import", a.name.split(".")[0], None))
        elif isinstance(s, ast.ImportFrom):
            m = self.resolve_from(s)
            for a in s.names:
                if a.name == "*":
                    self.star = True
                else:
                    self.add(a.asname or a.name, ("import", m, a.name))
        else:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.add(n.id, ("value", s))
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import,
                                    ast.ImportFrom)) and n is not s:
                    self.bind(n)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.add(n.name, ("value", s))
        for n in ast.walk(s):   # names made global by functions
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.add(x, ("value", n))

    def resolve_from(self, s):
        if not s.level:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))


class Package:
    def __init__(self, repo):
        self.mods = {m: Mod(repo, m) for m in modules(repo)}

    def member(self, mod, name, depth=0):
        """Definition of mod.name: list of definitions, [] or None."""
        m = self.mods.get(mod)
        if m is None or depth > 8:
            return None
        if m.star or name in MAGIC or "__getattr__" in m.defs:
            return None
        if name in m.defs:
            out = []
            for d in m.defs[name]:
                if d[0] == "import":
                    out.append(self.target(d[1], d[2], depth + 1))
                else:
                    out.append((mod,) + d)
            if None in out:
                return None
            return [x for x in out if x != []] or []
        if mod + "." + name in self.mods:
            return [(mod + "." + name, "module", None)]
        return []

    def target(self, mod, attr, depth):
        if attr is None:
            return (mod, "module", None) if mod in self.mods else None
        if mod not in self.mods:
            return None
        r = self.member(mod, attr, depth)
        if r is None:
            return None
        return r[0] if len(r) == 1 else ([] if r == [] else None)


def signature(kind, node):
    """(posonly+normal names, required, keyword-only, required keyword-only,
    varargs, varkw) or None if the signature is not plain."""
    if kind == "func":
        if node.decorator_list:
            return None
        a = node.args
    elif kind == "class":
        if node.decorator_list or node.keywords:
            return None
        bases = [ast.unparse(b) for b in node.bases]
        fields = [s for s in node.body if isinstance(s, ast.AnnAssign)]
        if any(b.split(".")[-1] == "NamedTuple" for b in bases):
            names = [s.target.id for s in fields]
            req = [s.target.id for s in fields if s.value is None]
            return names, req, [], [], False, False
        init = [s for s in node.body if isinstance(s, ast.FunctionDef)
                and s.name == "__init__"]
        if not init or bases or any(
                isinstance(s, ast.FunctionDef) and s.name == "__new__"
                for s in node.body):
            return None
        a = init[0].args
        if init[0].decorator_list:
            return None
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        n = len(a.defaults)
        return (pos, pos[:len(pos) - n] if n else pos,
                [x.arg for x in a.kwonlyargs],
                [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is None], a.vararg is not None, a.kwarg is not None)
    else:
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    n = len(a.defaults)
    return (pos, pos[:len(pos) - n] if n else pos,
            [x.arg for x in a.kwonlyargs],
            [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None],
            a.vararg is not None, a.kwarg is not None)


def binding_error(sig, call):
    pos, req, ko, rko, var, kw = sig
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if npos > len(pos) and not var:
        return f"{npos} positional arguments, at most {len(pos)} accepted"
    given = set(pos[:npos]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in ko and not kw:
            return f"unexpected keyword {k.arg!r}"
        if k.arg in given:
            return f"argument {k.arg!r} given twice"
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in req + rko if x not in given]
        if miss:
            return "missing " + ", ".join(miss)
    return None


class Scan(ast.NodeVisitor):
    """Calls and module attributes, with the names shadowed by scopes."""

    def __init__(self, pkg, mod):
        self.pkg, self.mod = pkg, mod
        self.where = ["<module>"]
        self.shadow = [set()]
        self.out = []

    def locals_of(self, node):
        s = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [
                y for y in (a.vararg, a.kwarg) if y]:
            s.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and not isinstance(
                        n.ctx, ast.Load):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.alias):
                    s.add((n.asname or n.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Global):
                    s -= set(n.names)
        return s

    def visit_FunctionDef(self, n):
        for d in n.decorator_list + n.args.defaults + [
                x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.where.append(n.name)
        self.shadow.append(self.locals_of(n))
        for b in n.body:
            self.visit(b)
        self.where.pop()
        self.shadow.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.shadow.append(self.locals_of(n))
        self.visit(n.body)
        self.shadow.pop()

    def visit_ClassDef(self, n):
        for b in n.bases + n.decorator_list:
            self.visit(b)
        self.where.append(n.name)
        names = set()
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                names.add(b.name)
        self.shadow.append(set())
        for b in n.body:
            self.visit(b)
        self.shadow.pop()
        self.where.pop()

    def comp(self, n):
        s = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    s.add(x.id)
        self.shadow.append(s)
        self.generic_visit(n)
        self.shadow.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = comp
    visit_GeneratorExp = comp

    def resolve(self, e):
        """Definitions of an expression, [] if certainly none, None if
        unknown."""
        if isinstance(e, ast.Name):
            if any(e.id in s for s in self.shadow):
                return None
            if e.id not in self.mod.defs:
                return None      # the scope rule judges plain names
            return self.pkg.member(self.mod.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value)
            if b and all(x[1] == "module" for x in b) and len(b) == 1:
                return self.pkg.member(b[0][0], e.attr)
        return None

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            b = self.resolve(n.value)
            if b and len(b) == 1 and b[0][1] == "module":
                r = self.pkg.member(b[0][0], n.attr)
                self.out.append((
                    "attributes of package modules exist", n,
                    f"{b[0][0]}.{n.attr}",
                    "undecided" if r is None else
                    "proved" if r else "refuted", "no such attribute"))
        self.generic_visit(n)

    def visit_Call(self, n):
        d = self.resolve(n.func)
        if d and len(d) == 1 and d[0][1] in ("func", "class"):
            sig = signature(d[0][1], d[0][2])
            if sig is not None:
                e = binding_error(sig, n)
                self.out.append((
                    "calls match the signature of what they call", n,
                    ast.unparse(n.func), "refuted" if e else "proved", e))
        self.generic_visit(n)


def scopes(t, path=""):
    yield path, t
    for c in t.get_children():
        yield from scopes(c, path + "." + c.get_name() if path
                          else c.get_name())


@check("C24")
def integrity(R):
    def go(R):
        pkg = Package(R.repo)
        for name, m in sorted(pkg.mods.items()):
            R.anchors.add(name)
            short = name[len(PKG) + 1:] or PKG
            # names
            if not m.star:
                top = symtable.symtable(m.src, m.path, "exec")
                for path, t in scopes(top):
                    bad = set()
                    for s in t.get_symbols():
                        if not s.is_referenced():
                            continue
                        if t is top:
                            if s.is_assigned() or s.is_imported():
                                continue
                        elif not s.is_global():
                            continue
                        n = s.get_name()
                        if n in m.defs or n in MAGIC or hasattr(builtins, n):
                            continue
                        bad.add(n)
                    w = f"{short}.{path}" if path else short
                    if bad:
                        for n in sorted(bad):
                            R.record("names are defined", f"{w}: {n}",
                                     "refuted", "undefined name")
                    else:
                        R.record("names are defined", w, "proved")
            # imports
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    src = m.resolve_from(n)
                    if src.split(".")[0] != PKG:
                        continue
                    for a in n.names:
                        if a.name == "*":
                            continue
                        r = pkg.member(src, a.name) if src in pkg.mods \
                            else []
                        R.record("imports resolve",
                                 f"{short}: from {src} import {a.name}",
                                 "undecided" if r is None and
                                 a.name not in pkg.mods[src].defs else
                                 "refuted" if r == [] else "proved",
                                 "no such name")
            sc = Scan(pkg, m)
            sc.visit(m.tree)
            for rule, n, what, v, why in sc.out:
                R.record(rule, f"{short}: {what}", v,
                         f"line {n.lineno}: {why}" if v != "proved" else "")
        # public names
        root = pkg.mods.get(PKG)
        if root is None:
            return
        for s in root.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == "__all__"
                    for t in s.targets):
                try:
                    names = ast.literal_eval(s.value)
                except ValueError:
                    continue
                for n in names:
                    r = pkg.member(PKG, n)
                    R.record("exported names exist", n,
                             "proved" if r or r is None and n in root.defs
                             else "undecided" if r is None else "refuted",
                             "not defined")
        for n in PUBLIC:
            mod, _, attr = n.rpartition(".")
            r = pkg.member(PKG + ("." + mod if mod else ""), attr)
            R.record("documented names exist", n,
                     "undecided" if r is None and (
                         PKG + ("." + mod if mod else "")) not in pkg.mods
                     else "refuted" if r == [] else "proved", "not defined")
        cls = pkg.mods.get(PKG + ".classes")
        for c, names in METHODS.items():
            d = cls and [x for x in cls.defs.get(c, ()) if x[0] == "class"]
            if not d:
                R.record("documented methods exist", c, "undecided",
                         "class is defined elsewhere")
                continue
            node = d[0][1]
            have = set()
            for s in node.body:
                if isinstance(s, ast.FunctionDef):
                    have.add(s.name)
                elif isinstance(s, ast.ImportFrom):
                    have |= {a.asname or a.name for a in s.names}
                elif isinstance(s, ast.Assign):
                    have |= {t.id for t in s.targets
                             if isinstance(t, ast.Name)}
            other = [b for b in node.bases
                     if ast.unparse(b).split(".")[0] not in ("pd", "pandas",
                                                             "object")]
            dyn = re.search(r"setattr\(\s*" + c + r"\b|\b" + c + r"\.\w+ = ",
                            cls.src)
            for n in names:
                R.record("documented methods exist", f"{c}.{n}",
                         "proved" if n in have else
                         "undecided" if other or dyn else "refuted",
                         "not defined")
    R.job("package", go)


def documented(text):
    """(setting, default) pairs stated in the documentation."""
    out, cur = [], []
    for line in text.splitlines():
        m = re.match(r'\s*\?\?\? \w+ "(.*)"', line)
        if m:
            cur = re.findall(r"`(\w+)`", m.group(1))
            continue
        if len(cur) != 1:
            continue
        for m in re.finditer(r"`([^`]+)`[^`]*?\(default\b|"
                             r"[Dd]efault is `([^`]+)`", line):
            try:
                out.append((cur[0], ast.literal_eval(m.group(1) or
                                                     m.group(2))))
            except (ValueError, SyntaxError):
                pass
    return out


def value_of(pkg, mod, e):
    """Constant value of a default expression: (known, value)."""
    try:
        return True, ast.literal_eval(e)
    except ValueError:
        pass
    sc = Scan(pkg, mod)
    d = sc.resolve(e)
    if d and len(d) == 1 and d[0][1] == "value" and isinstance(
            d[0][2], ast.Assign) and isinstance(d[0][2].targets[0], ast.Name):
        return value_of(pkg, pkg.mods[d[0][0]], d[0][2].value)
    return False, None


@check("C24")
def defaults(R):
    def go(R):
        pkg = Package(R.repo)
        try:
            with open(os.path.join(R.repo, "docs", "metadata.md")) as f:
                doc = documented(f.read())
        except OSError:
            return R.record("documented defaults", "docs/metadata.md",
                            "undecided", "no documentation")
        for k, v in doc:
            for name, m in sorted(pkg.mods.items()):
                for d in m.tree.body:
                    if not isinstance(d, ast.FunctionDef):
                        continue
                    a = d.args
                    pos = a.posonlyargs + a.args
                    ds = dict(zip([x.arg for x in pos[len(pos) - len(
                        a.defaults):]], a.defaults))
                    ds.update({x.arg: y for x, y in zip(
                        a.kwonlyargs, a.kw_defaults) if y})
                    if k not in ds:
                        continue
                    ok, x = value_of(pkg, m, ds[k])
                    R.record("documented default is the one used",
                             f"{name[len(PKG) + 1:]}.{d.name}: {k}",
                             "undecided" if not ok else
                             "proved" if x == v and type(x) is type(v)
                             else "refuted",
                             f"documented {v!r}, used {x!r}")
    R.job("documented defaults", go)


PUBLIC = ("Dataset", "Titration", "to_Titration", "calibrate", "calkulate",
          "solve", "read_dat", "write_dat", "read_csv", "read_clipboard",
          "read_dbs", "read_excel", "read_fwf", "read_table", "hello",
          "say_hello", "__version__", "plot.titrant_molinity",
          "plot.alkalinity_offset", "dataset.get_total_salts",
          "dataset.calibrate", "dataset.solve", "dataset.calkulate",
          "simulate.titration")
METHODS = {"Dataset": ("calibrate", "solve", "calkulate", "to_Titration",
                       "to_pandas", "plot_titrant_molinity",
                       "plot_alkalinity_offset"),
           "Titration": ("plot_emf", "plot_pH", "plot_gran_emf0",
                         "plot_gran_alkalinity", "plot_alkalinity",
                         "plot_components")}
