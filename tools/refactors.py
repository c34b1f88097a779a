"""Behaviour-preserving edits; every check must stay quiet on each of them.

python3 tools/refactors.py [names] [--checks C01,C02] [--jobs]
"""
import os
import shutil
import subprocess
import sys

REF = {}


def ref(name, *edits, checks=None):
    REF[name] = (edits, checks)


ref("gran_helper",
    ("core.py", '''    return (titrant_mass + analyte_mass) * np.exp(
        emf
        * constants.faraday
        / (constants.ideal_gas * (temperature + constants.absolute_zero))
    )
''', '''    nernst = _nernst_slope(temperature)
    total_mass = analyte_mass + titrant_mass
    return np.exp(emf / nernst) * total_mass


def _nernst_slope(temperature):
    kelvin = constants.absolute_zero + temperature
    return constants.ideal_gas * kelvin / constants.faraday
'''))
ref("gran_select",
    ("core.py", '''    used = np.full(gfunc.shape, False)
    if gran_logic == "v23.7+":
        use_logic = gfunc > 0.1 * np.max(gfunc)
        use_from = use_logic.nonzero()[0][0]
        used[use_from:] = True
    elif gran_logic == "legacy":
        used = (gfunc > 0.1 * np.max(gfunc)) & (gfunc < 0.9 * np.max(gfunc))
    else:
        raise Exception('gran_logic must be "v23.7+" (default) or "legacy"')
''', '''    gmax = gfunc.max()
    if gran_logic not in ("v23.7+", "legacy"):
        raise Exception('gran_logic must be "v23.7+" (default) or "legacy"')
    if gran_logic == "legacy":
        used = (gfunc > gmax * 0.1) & (gfunc < gmax * 0.9)
    else:
        used = np.zeros(gfunc.shape, dtype=bool)
        first = np.flatnonzero(gfunc > gmax * 0.1)[0]
        used[first:] = True
'''))
ref("gran_argmax",
    ("core.py", '''        use_from = use_logic.nonzero()[0][0]
        used[use_from:] = True
''', '''        use_from = np.where(use_logic)[0][0]
        used[use_from:] = True
'''))
ref("gran_emf0s_parts",
    ("core.py", '''        emf0s = emf - (
            constants.ideal_gas
            * (temperature + constants.absolute_zero)
            / constants.faraday
        ) * np.log(
            (
                titrant_mass * titrant_molinity * titrant_normality
                - analyte_mass * alkalinity
            )
            / (titrant_mass + analyte_mass)
        )
    return emf0s
''', '''        acid = titrant_molinity * titrant_normality * titrant_mass
        excess = acid - alkalinity * analyte_mass
        mixture = titrant_mass + analyte_mass
        slope = constants.ideal_gas / constants.faraday
        slope = slope * (temperature + constants.absolute_zero)
        return emf - slope * np.log(excess / mixture)
'''))
ref("key_lists",
    ("core.py", '''    kwargs_totals = {
        k: v
        for k, v in kwargs.items()
        if k
        in [
            "dic",
            "total_alpha",
            "total_beta",
            "total_ammonia",
            "total_phosphate",
            "total_silicate",
            "total_sulfide",
            "total_borate",
            "total_fluoride",
            "total_sulfate",
            "opt_k_carbonic",
            "opt_total_borate",
        ]
    }
''', '''    kwargs_totals = {}
    for key in _KEYS_TOTALS:
        if key in kwargs:
            kwargs_totals[key] = kwargs[key]
'''),
    ("core.py", '''def totals_ks(converted, **kwargs):
''', '''_KEYS_TOTALS = (
    "dic",
    "opt_k_carbonic",
    "opt_total_borate",
) + tuple(
    "total_" + s
    for s in (
        "alpha",
        "beta",
        "ammonia",
        "phosphate",
        "silicate",
        "sulfide",
        "borate",
        "fluoride",
        "sulfate",
    )
)


def totals_ks(converted, **kwargs):
'''),
    ("core.py", '''    if "dilute_totals_for_ks" in kwargs and kwargs["dilute_totals_for_ks"]:
''', '''    if kwargs.get("dilute_totals_for_ks", False):
'''))
ref("per_point_helper",
    ("core.py", '''    alkalinity_all = (
        1e6
        * (
            simulate.alkalinity(pH, totals, k_constants)
            + (titrant_mass * titrant_molinity * titrant_normality)
            / (titrant_mass + analyte_mass)
        )
        / convert.get_dilution_factor(titrant_mass, analyte_mass)
    )
    alkalinity = np.mean(alkalinity_all[used])
    alkalinity_std = np.std(alkalinity_all[used])
''', '''    alkalinity_all = _alkalinity_each(
        titrant_mass,
        pH,
        analyte_mass,
        titrant_molinity * titrant_normality,
        totals,
        k_constants,
    )
    in_window = alkalinity_all[used]
    alkalinity, alkalinity_std = in_window.mean(), in_window.std()
'''),
    ("core.py", '''def solve_pH(
''', '''def _alkalinity_each(tm, pH, am, acidity, totals, k_constants):
    mixture = am + tm
    per_mixture = simulate.alkalinity(pH, totals, k_constants)
    per_mixture = per_mixture + tm * acidity / mixture
    return per_mixture * mixture / am * 1e6


def solve_pH(
'''))
ref("window_helper",
    ("core.py", '''    assert pH_min < pH_max
    used = (pH >= pH_min) & (pH <= pH_max)
    gfunc = (titrant_mass + analyte_mass) * 10**-pH
    lr = linregress(titrant_mass[used], gfunc[used])
''', '''    used = _in_window(pH, pH_min, pH_max)
    gfunc = 10.0 ** (-pH) * (analyte_mass + titrant_mass)
    x, y = titrant_mass[used], gfunc[used]
    lr = linregress(x, y)
'''),
    ("core.py", '''def solve_pH_gran(
''', '''def _in_window(pH, lower, upper):
    assert lower < upper
    return np.logical_and(lower <= pH, pH <= upper)


def solve_pH_gran(
'''))
ref("window_not_outside",
    ("core.py", '''    assert pH_min < pH_max
    used = (pH >= pH_min) & (pH <= pH_max)
    gfunc =''', '''    if not pH_min < pH_max:
        raise AssertionError
    used = ~((pH < pH_min) | (pH > pH_max))
    gfunc ='''))
ref("subset_loop",
    ("core.py", '''    totals_used = {
        k: v[used] if np.size(v) > 1 else v for k, v in totals.items()
    }
    ks_used = {
        k: v[used] if np.size(v) > 1 else v for k, v in k_constants.items()
    }
''', '''    totals_used = _subset(totals, used)
    ks_used = _subset(k_constants, used)
'''),
    ("core.py", '''def _lsqfun_solve_emf(
''', '''def _subset(values, used):
    chosen = {}
    for key in values:
        value = values[key]
        if np.size(value) > 1:
            value = value[used]
        chosen[key] = value
    return chosen


def _lsqfun_solve_emf(
'''))
ref("lsq_closure",
    ("core.py", '''    opt_result = least_squares(
        _lsqfun_solve_emf,
        [alkalinity, emf0],
        args=(
            titrant_molinity,
            titrant_mass[used],
            emf[used],
            temperature[used],
            analyte_mass,
            totals_used,
            ks_used,
            titrant_normality,
        ),
        **kwargs_least_squares,
    )
''', '''    tm_used, emf_used, temp_used = (
        titrant_mass[used],
        emf[used],
        temperature[used],
    )

    def misfit(guess):
        return _lsqfun_solve_emf(
            guess,
            titrant_molinity,
            tm_used,
            emf_used,
            temp_used,
            analyte_mass,
            totals_used,
            ks_used,
            titrant_normality,
        )

    opt_result = least_squares(
        misfit, [alkalinity, emf0], **kwargs_least_squares
    )
'''))
ref("residual_reordered",
    ("core.py", '''    alkalinity, emf0 = alkalinity_emf0
    pH = convert.emf_to_pH(emf, emf0, temperature)
    mixture_mass = titrant_mass + analyte_mass
    dilution_factor = convert.get_dilution_factor(titrant_mass, analyte_mass)
    return (
        simulate.alkalinity(pH, totals, k_constants)
        - alkalinity * dilution_factor
        + titrant_mass * titrant_molinity * titrant_normality / mixture_mass
    )
''', '''    mixture_mass = analyte_mass + titrant_mass
    acid = titrant_normality * titrant_molinity * titrant_mass
    expected = (analyte_mass * alkalinity_emf0[0] - acid) / mixture_mass
    pH = convert.emf_to_pH(emf, alkalinity_emf0[1], temperature)
    return simulate.alkalinity(pH, totals, k_constants) - expected
'''))
ref("double_loop",
    ("core.py", '''    if double:
        # Solve again''', '''    if not double:
        return sr
    else:
        # Solve again'''))
ref("add_titrant_copyfree",
    ("core.py", '''    for t_total, factor in titrant_totals.items():
        assert t_total.startswith("titrant_total_")
        total = t_total[8:]
        totals[total] = totals.get(total, 0) + (
            titrant_mass
            * (titrant_molinity - titrant_molinity_prev)
            * factor
            / (titrant_mass + analyte_mass)
        )
    return totals
''', '''    prefix = "titrant_"
    change = titrant_molinity - titrant_molinity_prev
    fraction = titrant_mass / (titrant_mass + analyte_mass)
    for name in titrant_totals:
        assert name.startswith(prefix + "total_")
        key = name[len(prefix) :]
        extra = fraction * change * titrant_totals[name]
        if key in totals:
            totals[key] = totals[key] + extra
        else:
            totals[key] = extra
    return totals
'''))
ref("salts_combine",
    ("dataset.py", '''        for salt in salts:
            if salt not in ds:
                ds[salt] = np.nan
            ds[salt] = ds[salt].where(ds[salt].notnull(), other=results[salt])
''', '''        for salt in salts:
            if salt in ds:
                ds[salt] = np.where(
                    pd.isnull(ds[salt]), results[salt], ds[salt]
                )
            else:
                ds[salt] = results[salt]
'''))
ref("backcompat_inline",
    ("dataset.py", '''    prevdicts = ["read_dat_kwargs"]
    for prevdict in prevdicts:
        if prevdict in kwargs:
            for k, v in kwargs[prevdict].items():
                kwargs[k] = v
    if "pH_range" in kwargs:
        kwargs["pH_min"], kwargs["pH_max"] = kwargs["pH_range"]
    old2new = {"read_dat_method": "file_type"}
    for old, new in old2new.items():
        if old in kwargs:
            kwargs[new] = kwargs[old]
        if old in row and pd.notnull(row[old]):
            kwargs[new] = row[old]
    return kwargs
''', '''    if "read_dat_kwargs" in kwargs:
        kwargs.update(kwargs["read_dat_kwargs"])
    if "pH_range" in kwargs:
        pH_range = kwargs["pH_range"]
        kwargs["pH_min"] = pH_range[0]
        kwargs["pH_max"] = pH_range[1]
    method = kwargs.get("read_dat_method")
    if "read_dat_method" in row and pd.notnull(row["read_dat_method"]):
        kwargs["file_type"] = row["read_dat_method"]
    elif "read_dat_method" in kwargs:
        kwargs["file_type"] = method
    return kwargs
'''))
ref("calibrate_row_early",
    ("dataset.py", '''    titrant_molinity_here = np.nan
    if pd.notnull(row.alkalinity_certified) and row.file_good:
        if verbose:
            print(f"Calibrating {row.file_name}...")
        try:
            kwargs = _backcompat(kwargs, row)
            kwargs = _get_kwargs_for(files.keys_calibrate, kwargs, row)
            cal = files.calibrate(
                row.file_name,
                row.alkalinity_certified,
                row.salinity,
                **kwargs,
            )
            titrant_molinity_here = cal["x"][0]
        except Exception as e:
            print(f'Error calibrating "{row.file_name}":')
            print(f"{e}")
            return titrant_molinity_here
    return titrant_molinity_here
''', '''    if not row.file_good or pd.isnull(row["alkalinity_certified"]):
        return np.nan
    if verbose:
        print(f"Calibrating {row.file_name}...")
    try:
        settings = _get_kwargs_for(
            files.keys_calibrate, _backcompat(kwargs, row), row
        )
        return files.calibrate(
            row["file_name"],
            row["alkalinity_certified"],
            row["salinity"],
            **settings,
        )["x"][0]
    except Exception as e:
        print(f'Error calibrating "{row.file_name}":')
        print(f"{e}")
    return np.nan
'''))
ref("group_dropna",
    ("dataset.py", '''    titrant_molinities = ds_group.titrant_molinity_here[
        ds_group.reference_good & ~np.isnan(ds_group.titrant_molinity_here)
    ]
    return pd.Series(
        {
            "titrant_molinity": titrant_molinities.mean(),
            "titrant_molinity__std": titrant_molinities.std(),
            "titrant_molinity__count": np.size(titrant_molinities),
        }
    )
''', '''    here = ds_group["titrant_molinity_here"]
    good = here[ds_group["reference_good"] & here.notnull()]
    return pd.Series(
        {
            "titrant_molinity": good.mean(),
            "titrant_molinity__std": good.std(),
            "titrant_molinity__count": len(good),
        }
    )
'''))
ref("batch_map",
    ("dataset.py", '''    ds["titrant_molinity"] = (
        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
    )
''', '''    ds["titrant_molinity"] = ds["analysis_batch"].map(
        batches["titrant_molinity"]
    )
'''))
ref("solve_results_common",
    ("dataset.py", '''    if isinstance(sr, SolveEmfResult):
        solved["alkalinity_npts"] = sr.used.sum()
        solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
        solved["alkalinity"] = sr.alkalinity
        solved["emf0"] = sr.emf0
        solved["gran_alkalinity"] = sr.ggr.alkalinity * 1e6
        solved["gran_emf0"] = sr.ggr.emf0
        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
    elif isinstance(sr, SolvePhResult):
        solved["alkalinity_npts"] = sr.used.sum()
        solved["alkalinity_std"] = sr.alkalinity_all[sr.used].std()
        solved["alkalinity"] = sr.alkalinity
        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
    elif isinstance(sr, SolvePhGranResult):
        solved["alkalinity_npts"] = sr.used.sum()
        solved["alkalinity"] = sr.alkalinity
        solved["pH_init"] = sr.pH[0]
        solved["temperature_init"] = sr.temperature[0]
    return solved
''', '''    if not isinstance(
        sr, (SolveEmfResult, SolvePhResult, SolvePhGranResult)
    ):
        return solved
    solved["alkalinity"] = sr.alkalinity
    solved["alkalinity_npts"] = np.sum(sr.used)
    solved["pH_init"] = sr.pH[0]
    solved["temperature_init"] = sr.temperature[0]
    if not isinstance(sr, SolvePhGranResult):
        solved["alkalinity_std"] = np.std(sr.alkalinity_all[sr.used])
    if isinstance(sr, SolveEmfResult):
        gran = sr.ggr
        solved["emf0"] = sr.emf0
        solved["gran_alkalinity"] = 1e6 * gran.alkalinity
        solved["gran_emf0"] = gran.emf0
    return solved
'''))
ref("solve_assign_columns",
    ("dataset.py", '''    for k, v in solved_rows.items():
        ds[k] = v
    if "alkalinity_certified" in ds:
        ds["alkalinity_offset"] = ds.alkalinity - ds.alkalinity_certified
''', '''    for k in solved_rows.columns:
        ds[k] = solved_rows[k]
    if "alkalinity_certified" in ds.columns:
        offset = ds["alkalinity"] - ds["alkalinity_certified"]
        ds["alkalinity_offset"] = offset
'''))
ref("solve_iterrows",
    ("dataset.py", '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
''', '''    rows = [
        solve_row(row, verbose=verbose, **kwargs) for _, row in ds.iterrows()
    ]
    solved_rows = pd.DataFrame(rows, index=ds.index)
    for k, v in solved_rows.items():
        ds[k] = v
'''))
ref("prepare_fillna",
    ("dataset.py", '''        ds["titrant_amount_unit"] = np.where(
            pd.isnull(ds.titrant_amount_unit),
            kwargs.get("titrant_amount_unit", "ml"),
            ds.titrant_amount_unit,
        )
''', '''        unit = kwargs.get("titrant_amount_unit", "ml")
        given = ds["titrant_amount_unit"]
        ds["titrant_amount_unit"] = given.where(given.notnull(), unit)
'''))
ref("files_dispatch",
    ("files.py", '''    if solve_mode.lower() == "emf":
        # Titration data are EMFs
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        sr = core.solve_emf(
            titrant_molinity,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_emf,
        )
    elif solve_mode.lower() == "ph_adjust":
        # Titration data are pHs but we want to allow the EMF0 to be adjusted
        kwargs_solve_emf = _get_kwargs_for(keys_solve_emf, kwargs)
        emf0_init = 0
        kwargs_solve_emf["emf0_init"] = emf0_init
        emf = pH_to_emf(cv.measurement, emf0_init, cv.temperature)
        sr = core.solve_emf(
            titrant_molinity,
            cv.titrant_mass,
            emf,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_emf,
        )
    elif solve_mode.lower() == "ph":
        # Titration data are pHs and cannot be adjusted
        kwargs_solve_pH = _get_kwargs_for(keys_solve_pH, kwargs)
        sr = core.solve_pH(
            titrant_molinity,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_pH,
        )
    elif solve_mode.lower() == "ph_gran":
        # Titration data are pHs and cannot be adjusted
        kwargs_solve_pH_gran = _get_kwargs_for(keys_solve_pH_gran, kwargs)
        sr = core.solve_pH_gran(
            titrant_molinity,
            cv.titrant_mass,
            cv.measurement,
            cv.temperature,
            cv.analyte_mass,
            totals,
            k_constants,
            **kwargs_solve_pH_gran,
        )
    else:
        raise Exception("`solve_mode` not valid")
    return sr
''', '''    solvers = {
        "emf": (core.solve_emf, keys_solve_emf),
        "ph_adjust": (core.solve_emf, keys_solve_emf),
        "ph": (core.solve_pH, keys_solve_pH),
        "ph_gran": (core.solve_pH_gran, keys_solve_pH_gran),
    }
    mode = solve_mode.lower()
    if mode not in solvers:
        raise Exception("`solve_mode` not valid")
    solver, keys = solvers[mode]
    options = _get_kwargs_for(keys, kwargs)
    measurement = cv.measurement
    if mode == "ph_adjust":
        options["emf0_init"] = 0
        measurement = pH_to_emf(measurement, 0, cv.temperature)
    return solver(
        titrant_molinity,
        cv.titrant_mass,
        measurement,
        cv.temperature,
        cv.analyte_mass,
        totals,
        k_constants,
        **options,
    )
'''))
ref("files_read_helper",
    ("files.py", '''    # Check for bad kwargs, but don't break on them
    kwargs_ignored = []
    for k in kwargs:
        if k not in keys_calibrate:
            kwargs_ignored.append(k)
    if len(kwargs_ignored) > 0:
        warn(
            "kwargs not recognised, being ignored: "
            + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
        )
    # Import the titration data file
    if "file_path" in kwargs:
        file_name = os.path.join(kwargs["file_path"], file_name)
    kwargs_read_dat = _get_kwargs_for(keys_read_dat, kwargs)
    dd = read_dat(file_name, **kwargs_read_dat)
    # Convert amount units
    kwargs_cau = _get_kwargs_for(keys_cau, kwargs)
    cv = amount_units(dd, salinity, **kwargs_cau)
    # Get total salts and equilibrium constants
    kwargs_totals_ks = _get_kwargs_for(keys_totals_ks, kwargs)
    totals, k_constants = totals_ks(cv, **kwargs_totals_ks)
''', '''    unknown = [k for k in kwargs if k not in keys_calibrate]
    if unknown:
        warn("kwargs not recognised, being ignored: " + " ".join(unknown))
    cv, totals, k_constants = _prepare(file_name, salinity, kwargs)
'''),
    ("files.py", '''def calibrate(
''', '''def _prepare(file_name, salinity, kwargs):
    path = file_name
    if "file_path" in kwargs:
        path = os.path.join(kwargs["file_path"], file_name)
    cv = amount_units(
        read_dat(path, **_get_kwargs_for(keys_read_dat, kwargs)),
        salinity,
        **_get_kwargs_for(keys_cau, kwargs),
    )
    totals, k_constants = totals_ks(
        cv, **_get_kwargs_for(keys_totals_ks, kwargs)
    )
    return cv, totals, k_constants


def calibrate(
'''))
ref("kwargs_for_loop",
    ("meta.py", '''    kwargs_for = {k: v for k, v in kwargs.items() if k in keys}
    # Overwrite / append any that (also) have values in the row
    if row is not None:
        for k in keys:
            if k in row and pd.notnull(row[k]):
                kwargs_for[k] = row[k]
    return kwargs_for
''', '''    kwargs_for = {}
    for k in keys:
        if row is not None and k in row and not pd.isnull(row[k]):
            kwargs_for[k] = row[k]
        elif k in kwargs:
            kwargs_for[k] = kwargs[k]
    return kwargs_for
'''))
ref("amount_units_table",
    ("convert.py", '''    assert titrant_amount_unit.lower() in ["ml", "g", "kg"]
    if titrant_amount_unit.lower() == "ml":
        if titrant_density is None:
            assert titrant.upper() in ["H2SO4", "HCL"]
            if titrant.upper() == "H2SO4":
                titrant_mass = (
                    dd.titrant_amount
                    * density.H2SO4_25C_EAIM(molinity_H2SO4)
                    * 1e-3
                )
            else:
                titrant_mass = (
                    dd.titrant_amount
                    * density.HCl_NaCl_25C_DSC07(
                        molinity_HCl=molinity_HCl,
                        molinity_NaCl=molinity_NaCl,
                    )
                    * 1e-3
                )
        else:
            titrant_mass = dd.titrant_amount * titrant_density * 1e-3
    elif titrant_amount_unit.lower() == "g":
        titrant_mass = dd.titrant_amount * 1e-3
    elif titrant_amount_unit.lower() == "kg":
        titrant_mass = dd.titrant_amount
''', '''    unit = titrant_amount_unit.lower()
    factors = {"g": 1e-3, "kg": 1}
    assert unit == "ml" or unit in factors
    if unit == "ml":
        rho = titrant_density
        if rho is None:
            acid = titrant.upper()
            assert acid == "H2SO4" or acid == "HCL"
            if acid == "HCL":
                rho = density.HCl_NaCl_25C_DSC07(
                    molinity_NaCl=molinity_NaCl, molinity_HCl=molinity_HCl
                )
            else:
                rho = density.H2SO4_25C_EAIM(molinity_H2SO4)
        titrant_mass = 1e-3 * rho * dd.titrant_amount
    else:
        titrant_mass = dd.titrant_amount * factors[unit]
'''))
ref("totals_loop",
    ("interface.py", '''    if total_alpha > 0:
        totals["total_alpha"] = total_alpha * 1e-6
    if total_beta > 0:
        totals["total_beta"] = total_beta * 1e-6
    if total_ammonia > 0:
        totals["total_ammonia"] = totals_pyco2["TNH3"]
    if total_silicate > 0:
        totals["total_silicate"] = totals_pyco2["TSi"]
    if total_phosphate > 0:
        totals["total_phosphate"] = totals_pyco2["TPO4"]
    if total_sulfide > 0:
        totals["total_sulfide"] = totals_pyco2["TH2S"]
    totals["total_borate"] = totals_pyco2["TB"]
    totals["total_fluoride"] = totals_pyco2["TF"]
    totals["total_sulfate"] = totals_pyco2["TSO4"]
    return totals, totals_pyco2
''', '''    for name, value in (
        ("total_alpha", total_alpha),
        ("total_beta", total_beta),
    ):
        if value > 0:
            totals[name] = value / 1e6
    for name, value, key in (
        ("total_ammonia", total_ammonia, "TNH3"),
        ("total_silicate", total_silicate, "TSi"),
        ("total_phosphate", total_phosphate, "TPO4"),
        ("total_sulfide", total_sulfide, "TH2S"),
    ):
        if value > 0:
            totals[name] = totals_pyco2[key]
    for name, key in {
        "total_borate": "TB",
        "total_fluoride": "TF",
        "total_sulfate": "TSO4",
    }.items():
        totals[name] = totals_pyco2[key]
    return totals, totals_pyco2
'''))
ref("ks_loop",
    ("interface.py", '''    if not pd.isnull(k_alpha):
        k_constants_pyco2["k_alpha"] = k_alpha
    if not pd.isnull(k_ammonia):
        k_constants_pyco2["KNH3"] = k_ammonia
    if not pd.isnull(k_beta):
        k_constants_pyco2["k_beta"] = k_beta
    if not pd.isnull(k_bisulfate):
        k_constants_pyco2["KSO4"] = k_bisulfate
    if not pd.isnull(k_borate):
        k_constants_pyco2["KB"] = k_borate
    if not pd.isnull(k_carbonic_1):
        k_constants_pyco2["K1"] = k_carbonic_1
    if not pd.isnull(k_carbonic_2):
        k_constants_pyco2["K2"] = k_carbonic_2
    if not pd.isnull(k_fluoride):
        k_constants_pyco2["KF"] = k_fluoride
    if not pd.isnull(k_phosphoric_1):
        k_constants_pyco2["KP1"] = k_phosphoric_1
    if not pd.isnull(k_phosphoric_2):
        k_constants_pyco2["KP2"] = k_phosphoric_2
    if not pd.isnull(k_phosphoric_3):
        k_constants_pyco2["KP3"] = k_phosphoric_3
    if not pd.isnull(k_silicate):
        k_constants_pyco2["KSi"] = k_silicate
    if not pd.isnull(k_sulfide):
        k_constants_pyco2["KH2S"] = k_sulfide
    if not pd.isnull(k_water):
        k_constants_pyco2["KW"] = k_water
''', '''    supplied = dict(
        k_alpha=k_alpha,
        KNH3=k_ammonia,
        k_beta=k_beta,
        KSO4=k_bisulfate,
        KB=k_borate,
        K1=k_carbonic_1,
        K2=k_carbonic_2,
        KF=k_fluoride,
        KP1=k_phosphoric_1,
        KP2=k_phosphoric_2,
        KP3=k_phosphoric_3,
        KSi=k_silicate,
        KH2S=k_sulfide,
        KW=k_water,
    )
    k_constants_pyco2.update(
        {k: v for k, v in supplied.items() if pd.notnull(v)}
    )
'''))


def _more():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import refactors2
    import refactors3
    import refactors4
    refactors2.add(ref)
    refactors3.add(ref)
    refactors4.add(ref)


_more()


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = dict(a[2:].split("=", 1) if "=" in a else (a[2:], "1")
                for a in sys.argv[1:] if a.startswith("--"))
    names = args or list(REF)
    allc = [f"C{i:02d}" for i in range(1, 27)]
    wd = opts.get("dir", "/tmp/refcopy")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for n in names:
        edits, checks = REF[n]
        shutil.rmtree(wd, ignore_errors=True)
        shutil.copytree("/repo", wd, ignore=shutil.ignore_patterns(
            ".git", "__pycache__"))
        bad = False
        for f, old, new in edits:
            p = os.path.join(wd, "calkulate", f)
            s = open(p).read()
            if s.count(old) < 1:
                print(f"{n}: text not found in {f}: {old[:50]!r}")
                bad = True
                continue
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if bad:
            continue
        if "notest" not in opts:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests"],
                cwd=wd, env=dict(os.environ, PYTHONPATH=wd),
                capture_output=True, text=True)
            last = (r.stdout.strip().splitlines() or ["?"])[-1]
            if r.returncode:
                print(f"{n}: tests: {last}")
        res = []
        for c in (opts["checks"].split(",") if "checks" in opts
                  else checks or allc):
            r = subprocess.run(
                ["python3", "-m", "calkstatic.run", c, "quick"], cwd=here,
                env=dict(os.environ, CALK_REPO=wd,
                         CALK_EVIDENCE=wd + "/ev"),
                capture_output=True, text=True)
            u = [x for x in r.stdout.split(";")[-1].split(",")
                 if "undecided" in x]
            if r.returncode:
                why = [x for x in r.stdout.splitlines() if "refuted [" in x]
                res.append(f"{c}: rc={r.returncode} {(why or [''])[0][:200]}")
            elif u and not u[0].strip().startswith("0 "):
                res.append(f"{c}:{u[0].strip()}")
        print(f"{n}: " + ("quiet" if not res else "\n   ".join([""] + res)),
              flush=True)
    if "keep" not in opts:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    main()
