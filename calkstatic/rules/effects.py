"""What a call leaves behind: caller's data and shared state."""
import ast

from ..interp import HDict
from ..alias import AV, Alias
from .common import *
from .dataset import BASE
from .integrity import Package
from .pipeline import ALL, GROUPS, MODES, base, cert, fn, opt, sal, settings
from .registry import about, check
from .titration import IDX, KG, ROW

about("C13", "Nothing but the documented results is changed",
      "Heap effects of every public function (stores into dicts, tables and "
      "objects that the caller or a module owns), an alias analysis that "
      "follows the caller's arrays through views, calls and callbacks to "
      "every in-place operation, a column-by-column comparison of the table "
      "after a call with the table before it, and an inventory of calls "
      "that change the process (warning filters, numpy error state, "
      "directories, environment, random seeds).",
      ["Arrays passed by the caller do not overlap each other."])

ARR, DICT = "array", "dict of arrays"
TT = dict(titrant_mass=ARR, emf=ARR, temperature=ARR)
TP = dict(titrant_mass=ARR, pH=ARR, temperature=ARR)
CHEM = dict(totals=DICT, k_constants=DICT)
# records of arrays
DATDATA = ("titrant_amount", "measurement", "temperature")
CONVERTED = ("titrant_mass", "measurement", "temperature")
ENTRIES = {
    "core": {
        "gran_function": TT, "gran_alkalinity": dict(
            titrant_mass=ARR, gfunc=ARR, gran_function=ARR, use_points=ARR),
        "gran_emf0s": dict(TT, use_points=ARR, HF=ARR, HSO4=ARR),
        "gran_guesses": dict(TT, use_points=ARR),
        "totals_ks": dict(converted=CONVERTED),
        "add_titrant_totals": dict(titrant_mass=ARR),
        "solve_emf": dict(TT, **CHEM), "solve_pH": dict(TP, **CHEM),
        "solve_pH_gran": dict(TP, **CHEM),
        "calibrate_emf": dict(TT, **CHEM),
        "calibrate_pH": dict(TP, **CHEM),
        "calibrate_pH_gran": dict(TP, **CHEM),
        "_lsqfun_solve_emf": dict(TT, **CHEM),
        "_lsqfun_calibrate_emf": dict(TT, **CHEM),
        "_lsqfun_calibrate_pH": dict(TP, **CHEM),
        "_lsqfun_calibrate_pH_gran": dict(TP, **CHEM)},
    "convert": {
        "get_dilution_factor": dict(titrant_mass=ARR),
        "dilute_totals": dict(totals=DICT, titrant_mass=ARR),
        "dilute_totals_pyco2": dict(totals_pyco2=DICT, titrant_mass=ARR),
        "totals_to_pyco2": dict(totals=DICT),
        "dilute_totals_H2SO4": dict(totals=DICT, titrant_mass=ARR),
        "dilute_totals_pyco2_H2SO4": dict(totals_pyco2=DICT,
                                          titrant_mass=ARR),
        "emf_to_h": dict(emf=ARR, temperature=ARR),
        "emf_to_pH": dict(emf=ARR, temperature=ARR),
        "h_to_emf": dict(h=ARR, temperature=ARR),
        "pH_to_emf": dict(pH=ARR, temperature=ARR),
        "f_to_demf0": dict(f=ARR, temperature=ARR),
        "amount_units": dict(dat_data=DATDATA)},
    "density": {
        "seawater_1atm_MP81": dict(temperature=ARR, salinity=ARR),
        "HCl_NaCl_25C_DSC07": dict(molinity_HCl=ARR, molinity_NaCl=ARR),
        "H2SO4_25C_EAIM": dict(titrant_molinity=ARR)},
    "interface": {
        "get_totals": dict(salinity=ARR),
        "get_k_constants": dict(totals_pyco2=DICT, temperature=ARR)},
    "loss": {
        "dic_loss_model_fitted": dict(i_titrant_mass=ARR, i_delta_fCO2=ARR),
        "_lsqfun_dic_loss_model": dict(i_titrant_mass=ARR, i_delta_fCO2=ARR,
                                       i_dic_loss=ARR),
        "get_fCO2_from_dic_pH": dict(dic=ARR, pH=ARR, k0=ARR, k1=ARR,
                                     k2=ARR),
        "dic_loss_model_future": dict(f_titrant_mass=ARR, f_pH=ARR,
                                      f_k0=ARR, f_k1=ARR, f_k2=ARR),
        "get_dic_loss_hires": dict(
            titrant_mass=ARR, pH=ARR, dic_loss=ARR, fCO2_loss=ARR,
            k_CO2=ARR, k_carbonic_1=ARR, k_carbonic_2=ARR),
        "get_dic_loss": dict(
            titrant_mass=ARR, pH=ARR, dic_loss=ARR, fCO2_loss=ARR,
            k_CO2=ARR, k_carbonic_1=ARR, k_carbonic_2=ARR)},
    "simulate": {
        "alkalinity_components": dict(pH=ARR, **CHEM),
        "alkalinity": dict(pH=ARR, **CHEM)},
    "read.titrations": {
        "write_dat": dict(titrant_amount=ARR, measurement=ARR,
                          temperature=ARR)},
}


@check("C13")
def arrays(R):
    def one(R, pkg, mod, name, kinds):
        rule = "the caller's arrays are not changed in place"
        d = pkg.member("calkulate." + mod, name)
        if not d or len(d) != 1 or d[0][1] != "func":
            R.missing.add(f"calkulate.{mod}.{name}")
            return
        a = Alias(pkg)
        node = d[0][2]
        args = {}
        for x in node.args.posonlyargs + node.args.args + \
                node.args.kwonlyargs:
            k = kinds.get(x.arg)
            if k == ARR:
                args[x.arg] = AV(frozenset([x.arg]))
            elif isinstance(k, tuple):
                args[x.arg] = AV(items={
                    i: AV(frozenset([f"{x.arg}[{n}]"]))
                    for j, n in enumerate(k) for i in (j, "." + n)})
            elif k == DICT:
                # stores into the dict itself: see ``objects`` below
                args[x.arg] = AV(rest=frozenset([x.arg + "[...]"]))
            else:
                args[x.arg] = AV()
        if node.args.kwarg:
            args[node.args.kwarg.arg] = AV()
        if node.args.vararg:
            args[node.args.vararg.arg] = AV()
        a.analyse(d[0][0], node, args)
        R.anchors.add(f"calkulate.{mod}.{name}")
        for v in a.visited:
            R.I.analysed.add(".".join(v))
        R.I.callsites += a.writes
        bad = {}
        for (tok, m, f, line, how), chain in a.found.items():
            bad.setdefault(tok.split("[")[0], []).append(
                f"{m}.{f} line {line}: {how} on {tok}, via "
                + " > ".join(chain))
        for p in args:
            if p in kinds:
                R.record(rule, f"{mod}.{name} argument {p}",
                         "refuted" if p in bad else "proved",
                         "; ".join(bad.get(p, []))[:400])

    def go(R, mod, fs):
        pkg = Package(R.repo)
        for name, kinds in fs.items():
            R.guard("arrays", f"{mod}.{name}",
                    lambda: one(R, pkg, mod, name, kinds))
    for mod, fs in ENTRIES.items():
        R.job(f"arrays {mod}", go, mod, fs)


def clean(R, rule, what, res, allow=()):
    """No store into an object of the caller or of a module."""
    bad = []
    for e in res.of("mutate"):
        owner, how, key = e.data[:3]
        k = key.args[1] if isinstance(key, T.Node) and key.op == "const" \
            else key
        if owner is None or (owner, k) in allow or (owner, None) in allow:
            continue
        if e.cond is FALSE:
            continue
        bad.append(f"{owner}: {how} {k}")
    R.true(rule, what, not bad, "; ".join(sorted(set(map(str, bad))))[:300])


@check("C13")
def objects(R):
    rule = "dicts, rows and module state are left as they were"

    def files(R, mode, names, what):
        kw = settings(names, False)
        g = R.run("calkulate.files.solve", fn, mol, sal,
                  solve_mode=const(mode), **kw)
        clean(R, rule, f"files.solve ({mode}) {what}", g)
        g = R.run("calkulate.files.calibrate", fn, cert, sal,
                  solve_mode=const(mode), **kw)
        clean(R, rule, f"files.calibrate ({mode}) {what}", g)
    for mode in MODES:
        for gname, G in GROUPS.items():
            R.job(f"files {mode} {gname}", files, mode, tuple(G),
                  f"with {gname} settings")

    def core(R):
        for f, data, last in (
                ("solve_emf", (tm, emf, temp), mol),
                ("solve_pH", (tm, pH, temp), mol),
                ("solve_pH_gran", (tm, pH, temp), mol),
                ("calibrate_emf", (tm, emf, temp), None),
                ("calibrate_pH", (tm, pH, temp), None),
                ("calibrate_pH_gran", (tm, pH, temp), None)):
            if last is None:
                g = R.run("calkulate.core." + f, cert, *data, am, totals(R),
                          ks(R))
            else:
                g = R.run("calkulate.core." + f, mol, *data, am, totals(R),
                          ks(R))
            clean(R, rule, f"core.{f}", g)
        for f in ("alkalinity_components", "alkalinity"):
            g = R.run("calkulate.simulate." + f, pH, totals(R), ks(R))
            clean(R, rule, f"simulate.{f}", g)
        py = {k: A("py." + k) for k in (
            "total_sulfate", "total_borate", "total_fluoride", "dic")}
        for f, a in (("dilute_totals", (tm, am)),
                     ("dilute_totals_H2SO4", (mol, tm, am))):
            g = R.run("calkulate.convert." + f, totals(R), *a)
            clean(R, rule, f"convert.{f}", g)
        for f, a in (("dilute_totals_pyco2", (tm, am)),
                     ("dilute_totals_pyco2_H2SO4", (mol, tm, am))):
            g = R.run("calkulate.convert." + f, R.dict(py, "caller:totals"),
                      *a)
            clean(R, rule, f"convert.{f}", g)
        g = R.run("calkulate.convert.totals_to_pyco2", totals(R), sal)
        clean(R, rule, "convert.totals_to_pyco2", g)
    R.job("core", core)

    def restored(R, f, data, k):
        t = totals(R)
        g = R.run("calkulate.core." + f, cert, *data, am, t, ks(R),
                  **{"titrant_" + k: S("factor")})
        for key in TOTALS:
            R.same("contents are as before after calibration",
                   f"core.{f} with titrant_{k}: {key}",
                   R.item(g, t, key), A("totals." + key))
    for f, data in (("calibrate_emf", (tm, emf, temp)),
                    ("calibrate_pH", (tm, pH, temp)),
                    ("calibrate_pH_gran", (tm, pH, temp))):
        for k in ("total_sulfate", "total_phosphate"):
            R.job(f"restored {f} {k}", restored, f, data, k)

    def titration(R, mode, k):
        cols = ROW + (() if k is None or k in ROW else (k,))
        kw = dict(KG, solve_mode=const(mode))
        for f in ("to_Titration", "Dataset.to_Titration"):
            g = R.run("calkulate.classes." + f, R.table(cols), IDX, **kw)
            clean(R, rule, f"classes.{f} ({mode})"
                  + (f" with column {k}" if k else ""), g)
    for mode in MODES:
        R.job(f"titration {mode}", titration, mode, None)
    for k in ("titrant_amount_unit", "pH_min", "total_borate", "read_dat",
              "temperature_override", "titrant_normality"):
        R.job(f"titration {k}", titration, "pH", k)

    def row(R, mode):
        """A row (Series) handed over directly."""
        kw = dict(KG, solve_mode=const(mode))
        items = {const("file_name"): (TRUE, fn),
                 const("salinity"): (TRUE, sal),
                 const("titrant_molinity"): (TRUE, mol),
                 const("analyte_mass"): (TRUE, am),
                 const("alkalinity_certified"): (TRUE, cert),
                 const("analysis_batch"): (TRUE, num(0)),
                 const("reference_good"): (TRUE, TRUE),
                 const("file_good"): (TRUE, TRUE)}
        for f in ("classes.Titration", "dataset.solve_row",
                  "dataset.calibrate_row"):
            r = R.I.new(HDict(dict(items), kind="series",
                              owner="caller:row"), R.I.st)
            g = R.run("calkulate." + f, r, **kw)
            clean(R, rule, f"{f} ({mode})", g)
    for mode in MODES:
        R.job(f"row {mode}", row, mode)

    def tables(R, f, mode, cols, what):
        kw = dict(solve_mode=const(mode), titrant_amount_unit=const("kg"))
        g = R.run("calkulate.dataset." + f, R.table(cols), **kw)
        clean(R, "module state is left as it was", f"dataset.{f} {what}", g,
              allow={("caller:ds", None)})
    for f in ("solve", "calibrate", "calkulate"):
        for mode in MODES:
            R.job(f"module state {f} {mode}", tables, f, mode, BASE,
                  f"({mode})")

    def nested(R, f):
        """Settings that are themselves dicts or lists."""
        rule = "settings given as dicts or lists are left as they were"
        old = R.dict({"delimiter": S("old.delimiter"),
                      "skip_header": S("old.skip_header")},
                     "caller:read_dat_kwargs")
        kw = dict(KG, solve_mode=const("pH"), read_dat_kwargs=old,
                  pH_range=R.list([S("old.min"), S("old.max")],
                                  "caller:pH_range"))
        if f.startswith("classes"):
            g = R.run("calkulate." + f, R.table(ROW), IDX, **kw)
        else:
            g = R.run("calkulate." + f, R.table(BASE), **kw)
        clean(R, rule, f, g, allow={("caller:ds", None)})
    for f in ("dataset.solve", "dataset.calibrate", "dataset.calkulate",
              "classes.to_Titration", "classes.Dataset.to_Titration"):
        R.job(f"nested {f}", nested, f)


@check("C13")
def columns(R):
    """What the user entered stays in the table."""
    rule = "the user's table entries are kept"
    both = [k for k in ALL] + ["file_name", "salinity", "dic",
                               "alkalinity_certified", "analysis_batch",
                               "reference_good", "file_good", "user_note"]

    def go(R, f, names, mode):
        cols = tuple(dict.fromkeys(BASE + tuple(names)))
        kw = dict(solve_mode=const(mode), titrant_amount_unit=const("kg"))
        if "titrant_amount_unit" in names:
            del kw["titrant_amount_unit"]
        g = R.run("calkulate.dataset." + f, R.table(cols), **kw)
        for c in cols:
            if c == "titrant_molinity" and f != "solve":
                continue
            R.same(rule, f"dataset.{f} ({mode}) column {c}",
                   R.item(g, g.value, c), R.col(c),
                   assume=not_(T.isnull(R.col(c))))
    n = 8
    for f in ("solve", "calibrate", "calkulate"):
        for mode in ("pH", "emf") if R.tier == "quick" else MODES:
            if R.tier == "quick" and f != "solve" and mode != "pH":
                continue
            for i in range(0, len(both), n):
                R.job(f"columns {f} {mode} {i}", go, f, both[i:i + n], mode)


STATE = {
    "seterr", "seterrcall", "set_printoptions", "set_option", "chdir",
    "putenv", "unsetenv", "umask", "setlocale", "simplefilter",
    "filterwarnings", "resetwarnings", "setdefaulttimeout", "setrecursionlimit",
    "register_matplotlib_converters", "use", "switch_backend", "rc",
}
SEEDS = {"numpy.random.seed", "random.seed"}


READS = {"open", "genfromtxt", "loadtxt", "read_csv", "read_excel",
         "read_table", "read_fwf", "read_clipboard"}


def refs(pkg, mod, x, q, reads, out, seen=None):
    """Package functions that x mentions, directly or through a module-level
    value; q is added to ``reads`` if x calls a file-reading routine."""
    seen = set() if seen is None else seen
    for y in ast.walk(x):
        if isinstance(y, ast.Call):
            f = y.func
            n = f.attr if isinstance(f, ast.Attribute) else (
                f.id if isinstance(f, ast.Name) else None)
            if n in READS:
                reads.add(q)
        d = None
        if isinstance(y, ast.Name):
            d = pkg.member(mod, y.id)
        elif isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name):
            b = pkg.member(mod, y.value.id)
            if b and len(b) == 1 and b[0][1] == "module":
                d = pkg.member(b[0][0], y.attr)
        for t in d or ():
            if t[1] == "func":
                out.add((t[0], t[2].name))
            elif t[1] == "value" and id(t[2]) not in seen:
                seen.add(id(t[2]))
                refs(pkg, t[0], t[2], q, reads, out, seen)


@check("C13")
def process(R):
    """Process-wide settings."""
    rule = "process-wide settings are not changed"

    def go(R):
        pkg = Package(R.repo)
        for name, m in pkg.mods.items():
            ext = {}
            for n, ds in m.defs.items():
                for d in ds:
                    if d[0] == "import" and d[1].split(".")[0] != "calkulate":
                        ext[n] = d[1] + ("." + d[2] if d[2] else "")

            def dotted(e):
                if isinstance(e, ast.Name):
                    return ext.get(e.id)
                if isinstance(e, ast.Attribute):
                    b = dotted(e.value)
                    return b and b + "." + e.attr
                return None
            safe = set()
            for w in ast.walk(m.tree):
                if isinstance(w, ast.With) and any(
                        "catch_warnings" in ast.unparse(i.context_expr)
                        or "errstate" in ast.unparse(i.context_expr)
                        or "context" in ast.unparse(i.context_expr)
                        for i in w.items):
                    safe |= {id(x) for x in ast.walk(w)}
            bad = []
            for x in ast.walk(m.tree):
                if id(x) in safe:
                    continue
                if isinstance(x, ast.Call):
                    d = dotted(x.func)
                    if d and (d in SEEDS or (
                            d.split(".")[-1] in STATE and d.split(".")[0] in
                            ("numpy", "pandas", "os", "locale", "warnings",
                             "socket", "sys", "matplotlib"))):
                        bad.append(f"line {x.lineno}: {d}()")
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, ast.AugAssign):
                    tg = [x.target]
                for t in tg:
                    d = None
                    if isinstance(t, ast.Attribute):
                        d = dotted(t)
                    elif isinstance(t, ast.Subscript):
                        d = dotted(t.value)
                    if d:
                        bad.append(f"line {x.lineno}: {d} = ...")
            R.true(rule, name, not bad, "; ".join(bad)[:300])
    R.job("process", go)

    def memo(R):
        """A function that reads a file must read it at every call."""
        pkg = Package(R.repo)
        reads = set()
        calls = {}
        cached = []
        for name, m in pkg.mods.items():
            for x in ast.walk(m.tree):
                if not isinstance(x, ast.FunctionDef):
                    continue
                q = (name, x.name)
                calls.setdefault(q, set())
                refs(pkg, name, x, q, reads, calls[q])
                for dec in x.decorator_list:
                    t = ast.unparse(dec)
                    if "cache" in t.lower() or "memo" in t.lower():
                        cached.append(q)
        while True:
            more = {q for q, c in calls.items() if c & reads} - reads
            if not more:
                break
            reads |= more
        for q in sorted(reads):
            R.true("files are read again at every call", ".".join(q),
                   q not in cached, "the result of reading is cached")
    R.job("memo", memo)
