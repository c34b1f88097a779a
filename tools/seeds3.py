from plant import plant
from seeds2 import HEAD  # noqa: also rewrites those of seeds2

plant("b08-gran-emf0-normality", "C21",
      [("calkulate/core.py", '''                titrant_mass * titrant_molinity * titrant_normality
                - analyte_mass * alkalinity
            )
            / (titrant_mass + analyte_mass)
        )
    return emf0s
''', '''                titrant_mass * titrant_molinity
                - analyte_mass * alkalinity / titrant_normality
            )
            / (titrant_mass + analyte_mass)
        )
    return emf0s
''')],
      "a titrant normality other than 1",
      "the Gran EMF0 estimate is offset by the log of the normality",
      HEAD + '''
tm, pH, emf, t = make(molinity=0.05, normality=2)
a = core.gran_guesses(tm, emf, t, 0.1, 0.05, titrant_normality=2)
b = core.gran_guesses(tm, emf, t, 0.1, 0.1)
assert np.allclose(a.emf0, b.emf0) and np.allclose(a.alkalinity, b.alkalinity), (a.emf0, b.emf0)
''')
plant("b23-scaled-in-place", "C13",
      [("calkulate/convert.py", '''        titrant_mass = dd.titrant_amount * 1e-3
    elif''', '''        titrant_mass = dd.titrant_amount
        titrant_mass *= 1e-3
    elif''')],
      "titrant amounts in grams, and the same imported data converted twice",
      "the imported titrant amounts are scaled in place",
      HEAD + '''
dd = rt.DatData(np.array([0.0, 1.0, 2.0]), np.array([1.0, 2.0, 3.0]), np.full(3, 25.0))
a = convert.amount_units(dd, 35.0, analyte_mass=0.1, titrant_amount_unit="g")
b = convert.amount_units(dd, 35.0, analyte_mass=0.1, titrant_amount_unit="g")
assert dd.titrant_amount[2] == 2.0, dd
assert np.allclose(b.titrant_mass, [0, 1e-3, 2e-3]), b
''')
plant("b24-none-kwarg-silent", "C17",
      [("calkulate/files.py", '''        if k not in keys_calibrate:
            kwargs_ignored.append(k)''', '''        if k not in keys_calibrate and kwargs[k] is not None:
            kwargs_ignored.append(k)''')],
      "a misspelt setting whose value is None",
      "the unrecognised setting is ignored without a warning",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f, warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    p = f.write("a.dat", tm * 1e3, emf, t)
    files.calibrate(p, 2300.0, 35.0, analyte_mass=0.1, titrant_amount_unit="g", dic=2000.0, temperature_overide=None)
assert any("temperature_overide" in str(x.message) for x in w), [str(x.message) for x in w]
''')
plant("b25-batch-line", "C19",
      [("calkulate/plot/__init__.py", '''            B = (data.analysis_batch == batch).to_numpy()
            ax.plot''', '''            B = (data.analysis_batch <= batch).to_numpy()
            ax.plot''')],
      "a figure with two or more batches",
      "each batch's line also runs through the rows of earlier batches",
      HEAD + '''
ds = pd.DataFrame({"titrant_molinity_here": [0.1, 0.1, 0.2, 0.2], "titrant_molinity": [0.1, 0.1, 0.2, 0.2], "analysis_batch": [0, 0, 1, 1], "reference_good": True, "alkalinity_certified": 2000.0})
fig, ax = calk.plot.titrant_molinity(ds)
lines = [list(l.get_ydata()) for l in ax.lines]
assert lines == [[0.1, 0.1], [0.2, 0.2]], lines
''')
plant("b26-keeps-old-reference", "C26",
      [("calkulate/dataset.py", '''    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
''', '''    here = ds.apply(calibrate_row, axis=1, verbose=verbose, **kwargs)
    if "titrant_molinity_here" in ds:
        here = here.where(here.notnull(), ds.titrant_molinity_here)
    ds["titrant_molinity_here"] = here
''')],
      "a reference that was calibrated, then loses its certified value before calibrating again",
      "the value found by the earlier run is kept and still enters the batch mean",
      HEAD + '''
with Folder() as f:
    names = []
    for i, m in enumerate((0.1, 0.11)):
        tm, pH, emf, t = make(molinity=m)
        names.append(f.write(f"{i}.dat", tm * 1e3, emf, t))
    ds = pd.DataFrame({"file_name": names, "salinity": 35.0, "analyte_mass": 0.1, "dic": 2000.0, "titrant_amount_unit": "g", "alkalinity_certified": 2300.0})
    quiet(calk.dataset.calibrate, ds)
    ds.loc[1, "alkalinity_certified"] = np.nan
    quiet(calk.dataset.calibrate, ds)
assert np.isnan(ds.titrant_molinity_here[1]), ds.titrant_molinity_here
assert abs(ds.titrant_molinity[0] - ds.titrant_molinity_here[0]) < 1e-12, ds.titrant_molinity
''')
plant("b27-existing-file-first", "C01",
      [("calkulate/files.py", '''    if "file_path" in kwargs:
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant_totals''', '''    if "file_path" in kwargs and not os.path.exists(file_name):
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
    kwargs_titrant_totals''')],
      "a file of the same name in the current folder as in file_path",
      "the titration in the current folder is solved instead of that in file_path",
      HEAD + '''
with Folder() as f:
    here = os.getcwd()
    os.chdir(f.d.name)
    try:
        os.mkdir("sub")
        for where, alk in ((".", 2300.0), ("sub", 2000.0)):
            tm, pH, emf, t = make(alkalinity=alk, dic=1800.0)
            f.write(where + "/a.dat", tm * 1e3, emf, t)
        sr = files.solve("a.dat", 0.1, 35.0, file_path="sub", analyte_mass=0.1, titrant_amount_unit="g", dic=1800.0)
    finally:
        os.chdir(here)
assert abs(sr.alkalinity - 2000) < 5, sr.alkalinity
''')
plant("b28-first-step-contents", "C20",
      [("calkulate/simulate.py", "k: v if np.isscalar(v) else v[i]",
        "k: v if np.isscalar(v) else v[0]")],
      "a simulation with DIC loss",
      "contents and temperature are held at those of the first step while DIC is lost",
      HEAD + '''
import PyCO2SYS as pyco2
k, m0, step = 1.0, 0.1, 0.15e-3
r = simulate._titration(2300.0, k_dic_loss=k, analyte_mass=m0, titrant_mass_step=step, dic=2000.0, temperature=25.0, salinity=35.0, titrant_molinity=0.1, fCO2_air=450.0, titrant_mass_stop=4.2e-3)
print([type(x) for x in r])
tm, dic = None, None
import inspect
src = inspect.signature(simulate._titration)
d = [x for x in r if isinstance(x, dict)]
tm = r[0]
n = len(tm)
f = m0 / (m0 + tm)
alk = 1e6 * (m0 * 2300e-6 - tm * 0.1) / (m0 + tm)
s = pyco2.sys(salinity=35.0, temperature=25.0, opt_k_carbonic=10)
want = np.full(n, np.nan)
want[0] = 2000.0
for i in range(n - 1):
    q = pyco2.sys(par1=alk[i], par2=want[i], par1_type=1, par2_type=2, salinity=35.0, temperature=25.0, opt_k_carbonic=10, opt_pH_scale=3,
        **{z: s[z] * f[i] for z in ("total_borate", "total_fluoride", "total_sulfate")})["fCO2"]
    want[i + 1] = want[i] * (m0 + tm[i]) / (m0 + tm[i] + step) - k * (q - 450.0) * step
dics = [x["dic"] for x in d if "dic" in x]
got = np.array(dics[0])
got = got * (1e6 if got[0] < 1 else 1)
assert np.allclose(got, want, rtol=0, atol=1e-4), np.max(np.abs(got - want))
''')
plant("b29-stop-at-first-unknown", "C23",
      [("calkulate/read/metadata.py", '''            dbs.loc[i, "file_good"] = False
''', '''            dbs.loc[i, "file_good"] = False
            break
''')],
      "a .dbs file with a run that is neither a bottle nor a CRM before other runs",
      "rows after the first other run get no file name or certified value",
      HEAD + '''
from calkulate.read import metadata
dbs = pd.DataFrame({"run_type": ["bottle", "junk", "CRM"], "station": 1, "cast": 2, "niskin": 3, "depth": 4, "bottle": ["a", "b", "c"], "batch": 190, "cert. CRM AT": 2200.0})
metadata.get_VINDTA_filenames(dbs)
assert dbs.file_name[2] == "CRM190c.dat", dbs
assert dbs.alkalinity_certified[2] == 2200, dbs
assert list(dbs.file_good) == [True, False, True], dbs
''')
plant("b30-export-overwrites", "C16",
      [("calkulate/read/titrations.py", '    mode="x",\n', '    mode="w",\n')],
      "exporting to a file name that is already taken",
      "the existing file is overwritten",
      HEAD + '''
with Folder() as f:
    p = f.write("a.dat", [0, 1.0], [5, 6.0], [25, 25.0])
    was = open(p).read()
    try:
        calk.write_dat(p, [0, 9.0], [5, 6.0], [25, 25.0])
    except FileExistsError:
        pass
    assert open(p).read() == was
''')
plant("b31-floor-under-log", "C06",
      [("calkulate/convert.py",
        "    return -np.log10(emf_to_h(emf, emf0, temperature))",
        "    return -np.log10(np.maximum(emf_to_h(emf, emf0, temperature), 1e-12))")],
      "an alkaline solution (pH above 12)",
      "EMF to pH stops at 12 and no longer inverts pH to EMF",
      HEAD + '''
pH = np.array([3.0, 8.0, 12.5])
assert np.allclose(convert.emf_to_pH(convert.pH_to_emf(pH, 300.0, 25.0), 300.0, 25.0), pH)
''')
plant("b32-one-temperature-speciation", "C18",
      [("calkulate/classes.py",
        "            temperature=st.temperature.to_numpy(),\n",
        "            temperature=st.temperature.to_numpy()[0],\n")],
      "a temperature that changes through the titration",
      "the Titration's k_CO2 is that of the first temperature for every point",
      HEAD + '''
tm, pH, emf, t = make()
t = t + np.linspace(0, 3, len(t))
with Folder() as f:
    p = f.write("a.dat", tm * 1e3, pH, t)
    ds = pd.DataFrame({"file_name": [p], "salinity": 35.0, "analyte_mass": 0.1, "dic": 2000.0, "titrant_amount_unit": "g", "titrant_molinity": 0.1, "solve_mode": "pH"})
    tt = calk.to_Titration(ds, 0)
k = tt.titration.k_CO2.to_numpy()
assert len(set(np.round(k, 12))) > 5, k
''')
