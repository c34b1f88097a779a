"""Writes properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS, CHECKS, NA = [], [], []
TECH = ("static analysis: flow- and context-sensitive value-flow (value "
        "numbering) abstract interpretation of the AST; ")


def P(id, title, statement, over, text, why, files, mech, technique=None,
      note="", na=None):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files.split(),
                    "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({
            "property": id,
            "quick_cmd": f"python3 -m calkstatic.run {id} quick",
            "thorough_cmd": f"python3 -m calkstatic.run {id} thorough",
            "technique": TECH + technique,
            "level": "other", "level_note": note})


EQ = ("Every obligation is an equality of value-flow terms that is decided "
      "for all inputs at once (no bounds on array length or values); sound "
      "relative to the library summaries and real arithmetic.  Undecided "
      "obligations never raise an alarm and are counted in the evidence.")
F, C = "calkulate/files.py", "calkulate/core.py"

P("C01", "Every recognised setting reaches the stage it controls",
  "Solving or calibrating a titration file gives the result obtained by "
  "reading that file, converting its amounts to mass, computing contents and "
  "constants, and solving in the requested mode, where every documented "
  "setting (reading, amounts, contents, constants, options, solver, titrant "
  "contents) acts at exactly the step it belongs to, in every solve mode and "
  "in any combination.  A setting that is not given takes its documented "
  "default, and the name of the solve mode is case-insensitive.",
  "inputs configurations",
  "all titration files, all settings present or absent in any combination, "
  "all solve modes",
  "There are about fifty settings, four modes and two directions; tests "
  "sample a handful of combinations, and a dropped or misrouted keyword "
  "changes results only when that setting differs from its default.",
  f"{F} {C} calkulate/meta.py calkulate/convert.py calkulate/interface.py",
  [("file-level solve and calibrate", "calkulate/files.py: solve, calibrate"),
   ("keyword routing", "calkulate/meta.py: _get_kwargs_for and the keys_* "
    "sets")],
  "keyword routing decided by comparing the file-level result term with an "
  "independently written chain, per setting and group, with symbolic "
  "presence", EQ)

P("C03", "Calibration inverts solving",
  "The titrant molinity found by calibrating a reference titration is the "
  "one at which solving that same titration, with the same settings, gives "
  "the certified alkalinity.  This includes the titrant's own contribution "
  "to the contents, and holds at every trial value the search visits, "
  "whatever was tried before.",
  "inputs configurations histories",
  "all titrations, settings, certified values and trial sequences",
  "Round trips are only tested with default settings; a setting used on one "
  "side only, or state carried between trial evaluations, shows up only for "
  "non-default settings.",
  f"{C} {F}",
  [("calibration residuals", "calkulate/core.py: _lsqfun_calibrate_*"),
   ("solvers", "calkulate/core.py: solve_*")],
  "the residual handed to the optimiser is extracted as a term and compared "
  "with the term for the alkalinity that solve reports", EQ)

P("C04", "Reported alkalinity closes the acid-base mass balance",
  "The alkalinity reported for a titration minimises, over the points used, "
  "the misfit between alkalinity computed from pH and the alkalinity left "
  "after mixing the analyte with the acid added; with pH data it is the mean "
  "over the used points of the per-point alkalinity corrected for acid and "
  "dilution.  The reported per-point values, spread and count belong to that "
  "same solution, and with EMF data the reported EMF0 and pH do too.",
  "inputs configurations",
  "all titration data, contents, constants, solver settings",
  "Tests compare a few published numbers to a tolerance; sign, unit, "
  "dilution or normality errors that vanish for the sampled titrations are "
  "invisible.",
  f"{C}",
  [("EMF solver", "calkulate/core.py: solve_emf, _lsqfun_solve_emf"),
   ("pH solver", "calkulate/core.py: solve_pH")],
  "residuals and reported fields compared with the mass balance as "
  "normalised rational/exponential terms", EQ)

P("C05", "Speciation and alkalinity follow their definitions on each pH scale",
  "For every pH, every set of contents that is present and every accepted pH "
  "scale, each computed species is the one its acid-base equilibrium gives, "
  "and alkalinity is the charge-weighted sum of exactly the species that "
  "are present.  Acidic and basic forms of the extra acid-base systems count "
  "according to whether their pK is at most 4.5, and fluoride and sulfate "
  "species enter only on scales where they are not part of [H+].",
  "inputs configurations",
  "all pH values, all subsets of contents present, pH scales 1 to 3",
  "There are thousands of presence/scale combinations and only seawater-like "
  "ones are sampled; minor species barely move a test's total.",
  "calkulate/simulate.py",
  [("speciation", "calkulate/simulate.py: alkalinity_components"),
   ("alkalinity", "calkulate/simulate.py: alkalinity, "
    "component_multipliers")],
  "each species' term compared with its equilibrium for symbolic presence "
  "of every content", EQ)

P("C06", "EMF, [H+] and pH conversions follow Nernst and invert each other",
  "Converting EMF to hydrogen ion content or pH and back returns the "
  "original value for every EMF, EMF0 and temperature, and each conversion "
  "is the Nernst equation with temperature in degrees Celsius.  Solvers use "
  "these same conversions.",
  "inputs", "all EMF, pH, EMF0 and temperature values, scalars or arrays",
  "Inverse laws are universally quantified over reals; tests sample points "
  "near 25 degrees.",
  "calkulate/convert.py calkulate/constants.py",
  [("conversions", "calkulate/convert.py: emf_to_h, h_to_emf, emf_to_pH, "
    "pH_to_emf")],
  "terms compared with the Nernst equation; compositions must normalise to "
  "the identity under exp/log axioms", EQ)

P("C07", "Densities follow the published equations",
  "The densities of seawater and of the two acid titrants are the published "
  "functions of temperature, salinity and molinity in kg per litre, for "
  "scalars and arrays.",
  "inputs", "all temperatures, salinities and molinities",
  "Check values sample single points; a wrong coefficient of a high-order "
  "term is invisible near them.",
  "calkulate/density.py",
  [("densities", "calkulate/density.py: seawater_1atm_MP81, "
    "HCl_NaCl_25C_DSC07, H2SO4_25C_EAIM")],
  "polynomial normal forms compared coefficient by coefficient with the "
  "published equations", EQ)

P("C08", "Amounts are converted to mass with the right units",
  "Titrant given in ml, g or kg and analyte given as a mass or a volume are "
  "converted to kilograms with the density that belongs to the liquid, its "
  "temperature, salinity and molinity, an explicit density or mass taking "
  "precedence over an estimated one.  A temperature override replaces every "
  "temperature, including the one used for the analyte's density, and "
  "measurements pass through unchanged.",
  "inputs configurations",
  "all amounts, units, titrants, densities, masses, volumes, temperatures",
  "Branches on unit, titrant and provided-or-not combine; tests use one "
  "unit and titrant per dataset.",
  "calkulate/convert.py calkulate/density.py",
  [("amount conversion", "calkulate/convert.py: amount_units")],
  "gated terms over symbolic unit, titrant, mass and volume compared with "
  "the specification; rejected settings decided from raise conditions", EQ)

P("C09", "Dilution and titrant contributions conserve mass",
  "After any titrant has been added, the content of every substance in the "
  "mixture times the total mass equals what the analyte brought plus what "
  "the titrant brought, for every substance, and replacing a previous "
  "titrant contribution with a new one leaves no residue of the old one.",
  "inputs configurations histories",
  "all masses, molinities, substances present or absent, sequences of "
  "contributions",
  "Tests check a few substances; a substance skipped or diluted twice "
  "changes alkalinity by less than their tolerance.",
  "calkulate/convert.py calkulate/core.py",
  [("dilution", "calkulate/convert.py: dilute_totals, "
    "dilute_totals_pyco2, get_dilution_factor"),
   ("titrant contribution", "calkulate/core.py: add_titrant_totals")],
  "content terms key by key, with symbolic presence, compared with the mass "
  "balance; update-then-update normalises to a single update", EQ)

P("C10", "User-supplied contents and constants are used in their own slots",
  "A content or equilibrium constant that the user supplies is used, in the "
  "documented units, for that substance or reaction and no other; everything "
  "not supplied is estimated from salinity, temperature and the chosen "
  "options.  Substances that are absent stay absent.",
  "inputs configurations",
  "all combinations of supplied/blank contents, constants and options",
  "Twenty-odd independent optional inputs; tests vary two or three.",
  "calkulate/interface.py calkulate/core.py",
  [("contents", "calkulate/interface.py: get_totals"),
   ("constants", "calkulate/interface.py: get_k_constants"),
   ("combination", "calkulate/core.py: totals_ks")],
  "dictionary-shape analysis with symbolic presence/nullness of each user "
  "value; each slot's term compared with the specification", EQ)

P("C14", "Exactly the points inside the pH window are used",
  "The points used in a final solution are exactly those whose pH lies "
  "within the chosen window, both ends included, where pH is the measured "
  "one or, with EMF data, the one given by the EMF0 that the final fit "
  "starts from.  The reported alkalinity, spread and count use those points "
  "and no others.",
  "inputs configurations",
  "all titration data and pH windows",
  "Whether a boundary point counts matters only for data lying exactly on "
  "it, and pass-to-pass differences in the window need specific data.",
  f"{C}",
  [("window", "calkulate/core.py: solve_emf, solve_pH, solve_pH_gran")],
  "mask terms and the sets reduced over compared with the inclusive window",
  EQ)

P("C21", "Gran-plot estimates follow their definitions",
  "The initial estimates of alkalinity, EMF0 and pH come from a straight-"
  "line fit of the Gran function over the points that the chosen selection "
  "rule picks, with the documented scaling for mass and normality, and are "
  "replaced by user-supplied starting values where given.",
  "inputs configurations",
  "all titration data, both selection rules, user-supplied starting values",
  "Final results are insensitive to the starting point on well-behaved test "
  "data, so errors here surface only on difficult titrations.",
  f"{C}",
  [("Gran estimates", "calkulate/core.py: gran_*")],
  "terms of the Gran function, selection mask, regression and estimates "
  "compared with their definitions", EQ)

D = "calkulate/dataset.py"
P("C02", "A table entry overrides the call's setting; blanks fall back",
  "When a whole table is solved or calibrated, each row uses, for every "
  "setting, its own non-blank table entry, else the value given in the call, "
  "else the value estimated for it or the documented default.  Old-style "
  "names of settings act as their current equivalents.",
  "inputs configurations",
  "all tables (entries present, blank or absent) and all call-level settings",
  "Fifty-odd settings times three ways of giving them times per-row "
  "blankness; tests give each setting in one way only.",
  f"{D} calkulate/meta.py calkulate/files.py",
  [("merging of row and call", "calkulate/meta.py: _get_kwargs_for"),
   ("table-wide estimates", "calkulate/dataset.py: get_total_salts, "
    "prepare")],
  "per-row result terms, with symbolic nullness of each table cell, compared "
  "with an independent precedence rule", EQ)

P("C11", "One bad titration never affects the others",
  "When a table is processed, a titration that cannot be read, converted, "
  "calibrated or solved leaves its own result entries blank and nothing "
  "else: no error leaves the run and no other row's result changes.  Files "
  "marked as bad are never opened, and rows without the value they need "
  "stay blank.",
  "inputs fault_sequences histories",
  "all tables, all subsets and kinds of failing rows, any order of rows",
  "Failures can occur at any step of any row; tests include at most a "
  "missing file.",
  f"{D}",
  [("row functions", "calkulate/dataset.py: solve_row, calibrate_row"),
   ("row application", "calkulate/dataset.py: solve, calibrate")],
  "exception-escape and try-coverage analysis of the row functions, value of "
  "every result column under each failing step, guard conditions of file "
  "access, two-row non-interference of shared state", EQ)

P("C12", "Each batch is calibrated by its own good references alone",
  "After calibration the titrant molinity of every row is the mean of the "
  "individually calibrated values of the good reference rows in the same "
  "batch and of no other rows; rows with a blank batch, and batches without "
  "a good reference, get none.  Where no goodness is given, every reference "
  "that could be calibrated counts, and where no batch is given all rows "
  "form one.",
  "inputs configurations",
  "all tables, batches, goodness flags, failed references",
  "Leaks between batches need several batches with unusual flags, blanks or "
  "order.",
  f"{D}",
  [("batch means", "calkulate/dataset.py: get_group_calibration, "
    "get_batches, calibrate")],
  "grouped-aggregate terms compared with the batch rule; solving after "
  "calibration compared with solving a table that has those molinities", EQ)

P("C25", "Result columns are complete, consistent and in stated units",
  "Each reported column (alkalinity, its spread and count, EMF0, Gran "
  "estimates, initial pH and temperature, offset from the certified value) "
  "holds the quantity of the same titration solution in its stated unit, in "
  "every mode, with blanks where the mode does not define it.  Calibrating "
  "also solves, the one-step function equals calibrating then solving, and "
  "the columns the user gave are kept.",
  "inputs configurations", "all tables, modes and settings",
  "Tests look at one or two columns of one dataset per mode.",
  f"{D}",
  [("result columns", "calkulate/dataset.py: add_solve_results, solve_row, "
    "solve")],
  "every column's term compared with the row-by-row description", EQ)

P("C26", "Running the same step again gives the same results",
  "Running the same step again on a table that already holds results gives "
  "the same results: columns written by an earlier run do not change a "
  "later one.  A later run with another setting uses its own, apart from "
  "estimated contents, which stay in the table once written.",
  "histories configurations",
  "all sequences of repeated runs over one table",
  "Histories of runs over one mutable table are not exercised by tests.",
  f"{D}",
  [("columns written and read", "calkulate/dataset.py: prepare, solve, "
    "calibrate")],
  "the functions are analysed twice in sequence on one abstract table and "
  "the result terms compared", EQ)

RD = "calkulate/read/titrations.py"
BND = ("Obligations are equalities of value-flow terms, decided for all "
       "values at once; loops whose length depends on data are compared by "
       "transition terms for any length where possible, otherwise unrolled "
       "with gated joins for lengths up to N (see the evidence).  Undecided "
       "obligations never raise an alarm.")

P("C15", "Readers return the recorded columns of the file they are given",
  "Reading a titration file gives, for every data line, the amount of "
  "titrant, the measurement and the temperature recorded in it, in the order "
  "recorded, for every supported file type and every choice of columns, "
  "delimiter and header length; the starting volume of a Tiamo file is added "
  "to every amount, and a PC LIMS file gives its first uninterrupted block of "
  "data lines.",
  "inputs configurations",
  "all files, all reader settings, all file types",
  "Tests read a few example files; the position of headers, footers and "
  "interrupting lines varies without limit.",
  RD,
  [("reader dispatch", f"{RD}: read_dat"),
   ("readers", f"{RD}: read_dat_genfromtxt, read_dat_pclims, read_tiamo_de, "
    "read_dat_orgalk_excel")],
  "each field's term over the file's text compared with an independent "
  "description of the format; line scanning over N symbolic lines", BND)

P("C16", "Exported titrations overwrite nothing and read back in place",
  "Writing a titration to a file never overwrites an existing file unless "
  "the caller asks for it, writes to the file named and no other, and lays "
  "out every step with every value in the column and after the header lines "
  "where the default reader expects it, in the number formats given.",
  "inputs configurations",
  "all titrations, header lines, number formats, modes",
  "Tests write one simulated titration with default formats.",
  RD,
  [("writer", f"{RD}: write_dat")],
  "file-open effects and the concatenation of all text written, as terms, "
  "compared with the reader's layout", BND)

P("C17", "Invalid settings are rejected and ignored ones are reported",
  "An unknown solve mode, titrant amount unit, Gran logic, density-less "
  "titrant given by volume, pH scale, an empty pH window, a missing analyte "
  "amount or a missing required column raises an error instead of giving a "
  "result, while every valid value is accepted.  Table functions and "
  "file-level calibration name every keyword they ignore in a warning, and "
  "no keyword they use; an unknown file type and values outside a density "
  "equation's range are reported too.",
  "inputs configurations",
  "all settings, names and values, in every mode",
  "A check that silently accepts one bad value, or one keyword set that "
  "omits a name, shows only for that value or name.",
  f"{F} {C} {D} {RD} calkulate/convert.py calkulate/density.py "
  "calkulate/simulate.py calkulate/meta.py",
  [("keyword sets", "calkulate/meta.py: keys_*, _get_kwarg_keys"),
   ("value checks", f"{F}: solve, calibrate; calkulate/convert.py: "
    "amount_units; calkulate/core.py: gran_guesses_emf0; "
    "calkulate/simulate.py: alkalinity"),
   ("range checks", "calkulate/density.py: seawater_1atm_MP81, "
    "H2SO4_25C_EAIM")],
  "path conditions of raised exceptions and of issued warnings, with their "
  "message terms", EQ)

P("C20", "Simulated titrations obey mass balance and use the settings given",
  "A simulated titration has the masses requested, contents diluted from the "
  "analyte's by exactly the titrant added, alkalinity reduced by exactly the "
  "acid added, the settings and contents given by the user, and the EMF that "
  "corresponds to its pH; with CO2 exchange the DIC at each step follows from "
  "the previous step's by dilution and loss in proportion to the difference "
  "in fCO2 from the air's.",
  "inputs configurations",
  "all simulated compositions, titrant settings, options",
  "Tests simulate one composition with default settings.",
  "calkulate/simulate.py calkulate/convert.py",
  [("simulator", "calkulate/simulate.py: _titration")],
  "every returned array's term compared with an independent mass balance", BND)

P("C22", "The DIC-loss model conserves carbon",
  "In the DIC-loss model each titrant addition dilutes DIC by exactly the "
  "mass added and removes carbon only in proportion to the fCO2 difference "
  "and the loss coefficient; fCO2 is that of the mixture's DIC and pH; and "
  "the measured part before the split pH determines the coefficient used for "
  "the forecast after it.",
  "inputs", "all titrations, lengths, coefficients, split pH values",
  "Tests call none of the DIC-loss functions with varied step sizes.",
  "calkulate/loss.py",
  [("loss model", "calkulate/loss.py: dic_loss_model_fitted, "
    "dic_loss_model_future, get_fCO2_from_dic_pH, get_dic_loss_hires, "
    "get_dic_loss")],
  "loop transition terms and unrolled recurrences compared with an "
  "independent model", BND)

P("C18", "A Titration object agrees with solving its row of the table",
  "A Titration made from a table row, by the function or by the Dataset "
  "method, has the same alkalinity, EMF0, contents and constants as solving "
  "that row; keywords override row entries and blank entries fall back to "
  "the defaults; and its titration table (masses, dilution, contents, "
  "constants, pH, points used, species, alkalinity from acid, from pH and "
  "estimated, Gran columns) is consistent with them.",
  "inputs configurations",
  "all rows, keyword overrides, blank entries, measurement types",
  "Tests build one Titration with default settings and check that it runs.",
  "calkulate/classes.py calkulate/core.py calkulate/files.py "
  "calkulate/dataset.py",
  [("Titration", "calkulate/classes.py: Titration"),
   ("from a row", "calkulate/dataset.py: to_Titration")],
  "each attribute and titration-table column's term compared with that of "
  "an independently written row solver", EQ)

P("C23", "VINDTA database imports keep each row's metadata in its own row",
  "Importing a VINDTA .dbs file gives every row the file name, date and "
  "time, good-file flag, certified value, analyte volume or mass and file "
  "path that the file records for that row, following the options given, "
  "with blanks kept blank; the other table importers pass their options on "
  "unchanged.",
  "inputs configurations", "all .dbs contents, import options",
  "Tests import one .dbs file with default options.",
  "calkulate/read/metadata.py",
  [("dbs import", "calkulate/read/metadata.py: read_dbs"),
   ("table import", "calkulate/read/metadata.py: read_csv, read_excel, read_fwf, read_table, "
    "read_clipboard")],
  "per-row column terms compared with an independent description of the "
  "import", EQ)

P("C24", "Every public name exists and every internal call can bind",
  "Every name, module attribute and method that the package uses is defined "
  "where it is used, every call to the package's own functions can bind its "
  "arguments, every name that is exported or documented exists, and the "
  "documented default of each setting is the default used.",
  "configurations", "all functions, all code paths, including untested ones",
  "Tests execute only some of the branches and options.",
  "calkulate docs",
  [("package", "calkulate/*.py"), ("documentation", "docs/metadata.md")],
  "scope analysis, name and attribute resolution, signature binding of every "
  "call site, comparison of documented with declared defaults",
  "Dynamic attribute access (getattr, pandas columns as attributes) is not "
  "resolved.")

P("C13", "Nothing but the documented results is changed",
  "Solving, calibrating, converting, simulating or making a Titration leaves "
  "the caller's arrays, dicts, rows and non-blank table entries as they "
  "were (calibration replaces titrant_molinity; results go into result "
  "columns), changes no module-level default and no process-wide setting, "
  "and reads its file afresh at every call.",
  "inputs histories", "all public functions, inputs, and call sequences",
  "Tests look at returned values only and use each input once.",
  "calkulate/core.py calkulate/convert.py calkulate/files.py "
  "calkulate/dataset.py calkulate/classes.py calkulate/loss.py "
  "calkulate/simulate.py calkulate/interface.py calkulate/density.py",
  [("array functions", "calkulate/core.py, convert.py, density.py, "
    "interface.py, loss.py, simulate.py"),
   ("table functions", "calkulate/dataset.py: solve, calibrate, calkulate"),
   ("Titration", "calkulate/classes.py: Titration, to_Titration")],
  "heap effects with owners, array alias analysis through views, calls and "
  "callbacks, and comparison of table columns before and after",
  "In-place operations on arrays are found by a flow- and context-sensitive "
  "alias analysis; an expression it does not know is taken to be a new "
  "array, so library calls that return views outside its list are missed.")

P("C19", "Figures show the titration's own data and change nothing",
  "Each figure draws exactly the points of the titration table (or metadata "
  "table) that it is named after, in the stated units, with unused points "
  "hollow, lines at the reported values, each batch's line through that "
  "batch's own rows, and the pH window that was used; drawing changes neither "
  "the Titration nor the table.",
  "inputs configurations", "all titrations, measurement types, options",
  "No test draws a figure.",
  "calkulate/plot/titration.py calkulate/plot/__init__.py",
  [("titration figures", "calkulate/plot/titration.py: emf, pH, gran_emf0, "
    "gran_alkalinity, alkalinity, components"),
   ("table figures", "calkulate/plot/__init__.py: titrant_molinity, "
    "alkalinity_offset")],
  "data arguments and path conditions of every drawing call matched one to "
  "one with those of an independent description; heap effects",
  "Styles and label texts are not checked.")

P("C27", "The least-squares search finds the minimum",
  "For every titration that constrains it, the search for alkalinity (and "
  "EMF0, or titrant molinity) ends at the minimum of its residual.",
  "inputs", "all titrations", "Tests fit a handful of titrations.",
  "calkulate/core.py", [("solvers", "calkulate/core.py: solve_emf, "
                         "calibrate_emf, calibrate_pH")],
  na="Convergence of a floating-point iteration inside scipy on runtime "
  "data: no static argument in reach bounds it.  C03 and C04 decide that the "
  "residual handed to it is the right one.")

P("C28", "An exported titration reads back to the printed precision",
  "Values written by write_dat and read by read_dat differ from the "
  "originals by at most half a unit of the last printed digit.",
  "inputs", "all values", "Tests write no titration.",
  "calkulate/read/titrations.py",
  [("writer", "calkulate/read/titrations.py: write_dat")],
  na="Depends on decimal rounding of runtime values.  C16 decides file, "
  "mode, layout and formats.")

P("C29", "Estimated constants and contents agree with the literature",
  "The equilibrium constants and contents estimated from salinity and "
  "temperature equal those of the cited parameterisations.",
  "inputs", "all salinities and temperatures",
  "Tests compare none of the constants.", "calkulate/interface.py",
  [("PyCO2SYS", "calkulate/interface.py: get_totals, get_k_constants")],
  na="The values are computed by PyCO2SYS, outside this repository.  C10 "
  "decides which inputs and options reach it and where its outputs go.")

if __name__ == "__main__":
    from calkstatic.rules import registry
    R = registry.load()
    have = {c["property"] for c in CHECKS}
    assert have == set(R), (have ^ set(R))
    PROPS.sort(key=lambda p: p["id"])
    CHECKS.sort(key=lambda p: p["property"])
    NA.sort(key=lambda p: p["property"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": CHECKS,
                   "not_applicable": NA,
                   "notes": "The analyser uses only the Python standard "
                   "library and never imports or runs /repo."}, f, indent=1)
        f.write("\n")
    import subprocess
    for a, b in (("properties.jsonl", "PROPERTIES"),
                 ("MANIFEST.json", "MANIFEST")):
        s = f"/root/.vp/{b}.schema.json"
        if os.path.exists(s):
            code = ("import json,jsonschema;s=json.load(open('%s'));"
                    "t=open('%s').read();"
                    "[jsonschema.validate(json.loads(x),s) for x in "
                    "(t.splitlines() if '%s'.endswith('l') else [t])]"
                    % (s, os.path.join(V, a), a))
            subprocess.run(["python3-vt", "-c", code], check=True)
