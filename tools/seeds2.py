from plant import plant

HEAD = '''import io, contextlib, os, warnings
import numpy as np
import pandas as pd
import calkulate as calk
from calkulate import core, convert, dataset, files, interface, loss, simulate
from calkulate.read import titrations as rt
from simdata import Folder, make

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)

'''
plant("b10-read-cache", "C13",
      [("calkulate/read/titrations.py", '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    key = (file_name, file_type, tuple(sorted(kwargs.items())))
    if key not in _dat_cache:
        _dat_cache[key] = file_types[file_type](file_name, **kwargs)
    return _dat_cache[key]
'''), ("calkulate/read/titrations.py", '''def read_dat(file_name, file_type="genfromtxt", **kwargs):
''', '''_dat_cache = {}


def read_dat(file_name, file_type="genfromtxt", **kwargs):
''')],
      "the same file read, rewritten and read again in one session",
      "the second read returns the old file's data",
      HEAD + '''
with Folder() as f:
    p = f.write("a.dat", [0, 1.0], [5, 6.0], [25, 25.0])
    a = calk.read_dat(p)
    f.write("a.dat", [0, 2.0], [7, 8.0], [25, 25.0])
    b = calk.read_dat(p)
assert b.measurement[0] == 7, b
''')
plant("b11-zero-entry-is-blank", "C02",
      [("calkulate/meta.py", "            if k in row and pd.notnull(row[k]):",
        "            if k in row and pd.notnull(row[k]) and row[k] not in (0, \"\"):")],
      "a row whose entry for a setting is zero while the call gives another value",
      "the zero in the table is taken as blank and the call's value is used",
      HEAD + '''
tm, pH, emf, t = make(dic=0.0)
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    ds = pd.DataFrame({"file_name": [p, p], "salinity": 35.0, "analyte_mass": 0.1,
                       "titrant_molinity": 0.1, "titrant_amount_unit": "kg",
                       "dic": [0.0, np.nan]})
    quiet(dataset.solve, ds, dic=2000.0)
assert abs(ds.alkalinity[0] - ds.alkalinity[1]) > 1e-3, ds.alkalinity
assert abs(ds.alkalinity[0] - 2300) < 1e-2, ds.alkalinity
''')
plant("b12-narrow-except", "C11",
      [("calkulate/dataset.py", '''            titrant_molinity_here = cal["x"][0]
        except Exception as e:''', '''            titrant_molinity_here = cal["x"][0]
        except (
            OSError,
            ValueError,
            AssertionError,
            KeyError,
            TypeError,
            AttributeError,
        ) as e:''')],
      "a reference titration file with a single line (IndexError)",
      "the error leaves the run and nothing is calibrated",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    q = f.write("b.dat", tm[:1], emf[:1], t[:1])
    ds = pd.DataFrame({"file_name": [q, p], "salinity": 35.0, "analyte_mass": 0.1,
                       "alkalinity_certified": 2300.0, "titrant_amount_unit": "kg", "dic": 2000.0})
    quiet(dataset.calibrate, ds)
assert abs(ds.titrant_molinity[1] - 0.1) < 1e-4
''')
plant("b13-blank-batch-calibrated", "C12",
      [("calkulate/dataset.py", '''        .groupby(by="analysis_batch")''',
        '''        .groupby(by="analysis_batch", dropna=False)''')],
      "rows with a blank analysis_batch, one of them a reference",
      "rows without a batch get the molinity of the references without a batch",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    ds = pd.DataFrame({"file_name": p, "salinity": 35.0, "analyte_mass": 0.1,
                       "titrant_amount_unit": "kg", "dic": 2000.0,
                       "alkalinity_certified": [2300.0, 2300.0, np.nan],
                       "analysis_batch": [1.0, np.nan, np.nan]})
    quiet(dataset.calibrate, ds)
assert ds.titrant_molinity[0] > 0.09
assert ds.titrant_molinity[1:].isnull().all(), ds.titrant_molinity
''')
plant("b14-pclims-joins-blocks", "C15",
      [("calkulate/read/titrations.py", '''            if found_any:
                stop = True''', '''            if found_any and line.strip():
                stop = True''')],
      "a PC LIMS file with two data blocks that only a blank line separates",
      "the second block's lines are appended to the first's",
      HEAD + '''
with Folder() as f:
    p = os.path.join(f.d.name, "a.txt")
    with open(p, "w") as h:
        h.write("Report\\n1\\t0.0\\t400.0\\t1\\t1\\t25.0\\n2\\t0.1\\t410.0\\t1\\t1\\t25.0\\n\\n"
                "1\\t0.0\\t10.0\\t1\\t1\\t25.0\\nend\\n")
    d = rt.read_dat(p, file_type="pclims")
assert len(d.measurement) == 2, d
''')
plant("b15-empty-header-line-dropped", "C16",
      [("calkulate/read/titrations.py", '''        f.write("{}\\n{}\\n".format(line0, line1))''',
        '''        for line in (line0, line1):
            if line:
                f.write("{}\\n".format(line))''')],
      "an empty header line",
      "the header is one line short, so the default reader skips the first step",
      HEAD + '''
with Folder() as f:
    p = os.path.join(f.d.name, "a.dat")
    calk.write_dat(p, [0.0, 0.1], [123.456, 130.0], [25.5, 25.5], line0="")
    d = calk.read_dat(p)
assert len(d.measurement) == 2, d
''')
plant("b16-unit-prefix", "C17",
      [("calkulate/convert.py", '''    assert titrant_amount_unit.lower() in ["ml", "g", "kg"]
''', '''    assert titrant_amount_unit.lower() in "ml, g, kg"
'''), ("calkulate/convert.py", '''    elif titrant_amount_unit.lower() == "kg":
        titrant_mass = dd.titrant_amount
''', '''    else:
        titrant_mass = dd.titrant_amount
''')],
      'an amount unit that is part of the text, such as "l"',
      'litres are accepted and treated as kilograms instead of raising',
      HEAD + '''
dd = rt.DatData(np.array([0., 1.]), np.array([1., 2.]), np.array([25., 25.]))
for u in ("l", "m", "k", ""):
    try:
        convert.amount_units(dd, 35, analyte_mass=0.1, titrant_amount_unit=u)
    except AssertionError:
        continue
    raise SystemExit(f"unit {u!r} accepted")
''')
plant("b17-titration-dilution-of-estimate", "C18",
      [("calkulate/classes.py", '''            / (st.titrant_mass + self.analyte_mass)
        ) / st.dilution_factor''', '''            / (st.titrant_mass + self.analyte_mass)
            / st.dilution_factor
        ) / st.dilution_factor''')],
      "the alkalinity_estimate column late in the titration",
      "the estimated alkalinity drifts away from the solved one as acid is added",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    row = pd.Series({"file_name": p, "salinity": 35.0, "analyte_mass": 0.1, "dic": 2000.0,
                     "titrant_molinity": 0.1, "titrant_amount_unit": "kg"})
    tt = calk.Titration(row)
e = tt.titration.alkalinity_estimate[tt.titration.used] * 1e6
assert np.allclose(e, 2300, atol=0.5), e
''')
plant("b18-loss-dilution", "C20",
      [("calkulate/simulate.py", '''                    titrant_mass_step, analyte_mass + titrant_mass[i]
''', '''                    titrant_mass_step, analyte_mass
''')],
      "a simulation with CO2 exchange",
      "DIC is diluted as if every step were the first",
      HEAD + '''
r = simulate._titration(2300, dic=2000, k_dic_loss=0, titrant_mass_stop=10e-3)
tm, tot = r[0], r[4]
assert np.allclose(tot["dic"], 2000e-6 * 0.1 / (0.1 + tm), rtol=1e-9), tot["dic"]
''')
plant("b19-forecast-air", "C22",
      [("calkulate/loss.py", '''        k2_start,
        analyte_mass,
        step_tm,
        fCO2_air=fCO2_air,
    )''', '''        k2_start,
        analyte_mass,
        step_tm,
    )''')],
      "a fCO2_air other than the default",
      "the forecast part of the DIC-loss model uses the default air",
      HEAD + '''
n = 60
tm = np.linspace(0, 6e-3, n)
pH = np.linspace(7.9, 3.0, n)
k0, k1, k2 = (np.full(n, v) for v in (0.0285, 1.3e-6, 9e-10))
dl = np.linspace(2000, 1700, n)
fl = np.linspace(400, 5000, n)
a = loss.get_dic_loss_hires(tm, pH, dl, fl, k0, k1, k2, 0.1, 2000e-6, fCO2_air=1000.0)[1]
i = np.flatnonzero(a["pH"] < calk.default.split_pH)[3]
kk = lambda k: k[0]
f = loss.get_fCO2_from_dic_pH(a["dic"][i], a["pH"][i], 0.0285, 1.3e-6, 9e-10)
assert abs(f - 1000.0 - a["delta_fCO2"][i]) < 1, (f, a["delta_fCO2"][i])
''')
plant("b20-dbs-good-flag-reset", "C23",
      [("calkulate/read/metadata.py", '''    if "file_good" not in dbs:
        dbs["file_good"] = True
    for i, row''', '''    dbs["file_good"] = True
    for i, row''')],
      "a .dbs file that records its own file_good column",
      "files flagged as bad are read as good",
      HEAD + '''
with Folder() as f:
    p = os.path.join(f.d.name, "a.dbs")
    with open(p, "w") as h:
        h.write("run type\\tstation\\tcast\\tniskin\\tdepth\\tbottle\\tbatch\\tcert. CRM AT\\tdate\\ttime\\tfile_good\\n")
        h.write("bottle\\t1\\t1\\t1\\t10\\tA\\t100\\t2200\\t01/02/20\\t10:00:00\\tFalse\\n")
        h.write("bottle\\t1\\t1\\t2\\t20\\tB\\t100\\t2200\\t01/02/20\\t10:20:00\\tTrue\\n")
    d = calk.read_dbs(p)
assert not d.file_good[0] and d.file_good[1], d.file_good
''')
plant("b21-initial-temperature", "C25",
      [("calkulate/dataset.py", '''        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
    elif isinstance(sr, SolvePhResult):''', '''        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[sr.used][0]
    elif isinstance(sr, SolvePhResult):''')],
      "a titration whose temperature changes on the way",
      "temperature_init is that of the first used point",
      HEAD + '''
tm, pH, emf, t = make()
t = t + np.linspace(0, 0.1, t.size)
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    ds = pd.DataFrame({"file_name": [p], "salinity": 35.0, "analyte_mass": 0.1,
                       "titrant_molinity": 0.1, "titrant_amount_unit": "kg", "dic": 2000.0})
    quiet(dataset.solve, ds)
assert abs(ds.temperature_init[0] - 25.0) < 1e-9, ds.temperature_init
''')
plant("b22-mass-column-filled", "C26",
      [("calkulate/dataset.py", '''        solved["emf0"] = sr.emf0
        solved["gran_alkalinity"]''', '''        solved["emf0"] = sr.emf0
        solved["analyte_mass"] = sr.analyte_mass
        solved["gran_alkalinity"]''')],
      "a table with analyte volumes solved twice with different settings",
      "the mass estimated in the first run is kept in the table and used in "
      "the second, where it no longer belongs",
      HEAD + '''
tm, pH, emf, t = make()
with Folder() as f:
    p = f.write("a.dat", tm, emf, t)
    def table():
        return pd.DataFrame({"file_name": [p], "salinity": 35.0, "analyte_volume": 100.0,
                       "titrant_molinity": 0.1, "titrant_amount_unit": "kg", "dic": 2000.0})
    a, b = table(), table()
    quiet(dataset.solve, a)
    quiet(dataset.solve, a, temperature_override=10.0)
    quiet(dataset.solve, b, temperature_override=10.0)
assert abs(a.alkalinity[0] - b.alkalinity[0]) < 1e-6, (a.alkalinity, b.alkalinity)
''')
