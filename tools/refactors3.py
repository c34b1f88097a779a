"""Further behaviour-preserving edits: other idioms for the same code."""


def add(ref):
    ref("convert_early", ("convert.py", '''    if temperature_override is not None:
        temperature = np.full_like(dd.temperature, temperature_override)
    else:
        temperature = dd.temperature
''', '''    temperature = (
        dd.temperature
        if temperature_override is None
        else np.full_like(dd.temperature, temperature_override)
    )
'''), ("convert.py", '''    assert titrant_amount_unit.lower() in ["ml", "g", "kg"]
    if titrant_amount_unit.lower() == "ml":
        if titrant_density is None:
            assert titrant.upper() in ["H2SO4", "HCL"]
            if titrant.upper() == "H2SO4":
                titrant_mass = (
                    dd.titrant_amount
                    * density.H2SO4_25C_EAIM(molinity_H2SO4)
                    * 1e-3
                )
            else:
                titrant_mass = (
                    dd.titrant_amount
                    * density.HCl_NaCl_25C_DSC07(
                        molinity_HCl=molinity_HCl,
                        molinity_NaCl=molinity_NaCl,
                    )
                    * 1e-3
                )
        else:
            titrant_mass = dd.titrant_amount * titrant_density * 1e-3
    elif titrant_amount_unit.lower() == "g":
        titrant_mass = dd.titrant_amount * 1e-3
    elif titrant_amount_unit.lower() == "kg":
        titrant_mass = dd.titrant_amount
''', '''    titrant_mass = dd.titrant_amount * _kg_per_unit(
        titrant_amount_unit.lower(),
        titrant_density,
        titrant,
        molinity_H2SO4,
        molinity_HCl,
        molinity_NaCl,
    )
'''), ("convert.py", '''def amount_units(
''', '''def _kg_per_unit(
    unit, titrant_density, titrant, molinity_H2SO4, molinity_HCl, molinity_NaCl
):
    assert unit in ("ml", "g", "kg")
    if unit == "kg":
        return 1
    if unit == "g":
        return 1e-3
    if titrant_density is not None:
        return titrant_density / 1000
    acid = titrant.upper()
    assert acid == "H2SO4" or acid == "HCL"
    if acid == "HCL":
        rho = density.HCl_NaCl_25C_DSC07(molinity_HCl, molinity_NaCl)
    else:
        rho = density.H2SO4_25C_EAIM(molinity_H2SO4)
    return rho / 1000


def amount_units(
'''))
    ref("emf_nernst", ("convert.py", '''    temperature_K = temperature + constants.absolute_zero
    return np.exp((emf - emf0) * F / (R * temperature_K))
''', '''    return np.exp((emf - emf0) / _nernst_factor(temperature))
'''), ("convert.py", '''def emf_to_h(''', '''def _nernst_factor(temperature):
    return R * (temperature + constants.absolute_zero) / F


def emf_to_h('''), ("convert.py", '''    temperature_K = temperature + constants.absolute_zero
    return emf0 + np.log(h) * R * temperature_K / F
''', '''    return np.log(h) * _nernst_factor(temperature) + emf0
'''), ("convert.py", '''    h = 10.0**-pH
    return h_to_emf(h, emf0, temperature)
''', '''    return h_to_emf(np.power(10.0, -pH), emf0, temperature)
'''), ("convert.py", '''    temperature_K = temperature + constants.absolute_zero
    return np.log(f) * R * temperature_K / F
''', '''    return _nernst_factor(temperature) * np.log(f)
'''))
    ref("pyco2_keys_const", ("convert.py", '''def dilute_totals_pyco2(''',
    '''_DILUTED = frozenset(
    ["TB", "TF", "TCa", "alpha", "beta", "TPO4", "TSi", "TNH3", "TH2S"]
)


def dilute_totals_pyco2('''), ("convert.py", '''    return {
        k: (
            v * dilution_factor
            if k
            in (
                "TB",
                "TF",
                "TSO4",
                "TCa",
                "alpha",
                "beta",
                "TPO4",
                "TSi",
                "TNH3",
                "TH2S",
            )
            else v
        )
        for k, v in totals_pyco2.items()
    }
''', '''    diluted = totals_pyco2.copy()
    for k in diluted:
        if k in _DILUTED | {"TSO4"}:
            diluted[k] = diluted[k] * dilution_factor
    return diluted
'''), ("convert.py", '''    totals_pyco2 = {
        k: (
            v * dilution_factor
            if k
            in (
                "TB",
                "TF",
                "TCa",
                "alpha",
                "beta",
                "TPO4",
                "TSi",
                "TNH3",
                "TH2S",
            )
            else v
        )
        for k, v in totals_pyco2.items()
    }
    totals_pyco2["TSO4"] = (
        totals_pyco2["TSO4"] * analyte_mass + titrant_molinity * titrant_mass
    ) / (analyte_mass + titrant_mass)
    return totals_pyco2
''', '''    diluted = dict(totals_pyco2)
    diluted.update(
        (k, v * dilution_factor)
        for k, v in totals_pyco2.items()
        if k in _DILUTED
    )
    diluted["TSO4"] = totals_pyco2[
        "TSO4"
    ] * dilution_factor + titrant_molinity * (1 - dilution_factor)
    return diluted
'''))
    ref("solve_emf_replace", ("core.py", '''    # Unpack and process results
    alkalinity = opt_result["x"][0] * 1e6
    alkalinity_std = np.std(opt_result["fun"]) * 1e6
    emf0 = opt_result["x"][1]
''', '''    # Unpack and process results
    alkalinity, emf0 = opt_result.x
    alkalinity = 1e6 * alkalinity
    alkalinity_std = 1e6 * opt_result.fun.std()
'''), ("core.py", '''    if alkalinity_init is None:
        alkalinity = ggr.alkalinity
    else:
        alkalinity = alkalinity_init * 1e-6
    # Set which data points to use in the final solver
    assert pH_min < pH_max
''', '''    # Set which data points to use in the final solver
    assert pH_max > pH_min
    alkalinity = (
        ggr.alkalinity if alkalinity_init is None else alkalinity_init / 1e6
    )
'''))
    ref("solve_emf_kwcall", ("core.py", '''    opt_result = least_squares(
        _lsqfun_solve_emf,
        [alkalinity, emf0],
        args=(
            titrant_molinity,
            titrant_mass[used],
            emf[used],
            temperature[used],
            analyte_mass,
            totals_used,
            ks_used,
            titrant_normality,
        ),
        **kwargs_least_squares,
    )
''', '''    solver_inputs = dict(
        titrant_molinity=titrant_molinity,
        titrant_mass=titrant_mass[used],
        emf=emf[used],
        temperature=temperature[used],
        analyte_mass=analyte_mass,
        totals=totals_used,
        k_constants=ks_used,
        titrant_normality=titrant_normality,
    )
    opt_result = least_squares(
        _lsqfun_solve_emf,
        np.array([alkalinity, emf0]),
        kwargs=solver_inputs,
        **kwargs_least_squares,
    )
'''))
    ref("totals_ks_getflag", ("core.py", '''    if "dilute_totals_for_ks" in kwargs and kwargs["dilute_totals_for_ks"]:
''', '''    if kwargs.get("dilute_totals_for_ks", False):
'''), ("core.py", '''    for t_total, factor in titrant_totals.items():
        assert t_total.startswith("titrant_total_")
        total = t_total[8:]
        totals[total] = totals.get(total, 0) + (
            titrant_mass
            * (titrant_molinity - titrant_molinity_prev)
            * factor
            / (titrant_mass + analyte_mass)
        )
    return totals
''', '''    titrant_added = titrant_mass * (titrant_molinity - titrant_molinity_prev)
    titrant_added = titrant_added / (analyte_mass + titrant_mass)
    for t_total in titrant_totals:
        assert t_total[:14] == "titrant_total_"
        total = t_total[len("titrant_") :]
        extra = titrant_added * titrant_totals[t_total]
        if total in totals:
            totals[total] = totals[total] + extra
        else:
            totals[total] = extra
    return totals
'''))
    ref("salts_fillna", ("dataset.py", '''    opt_total_borate = kwargs.get("opt_total_borate", 1)
    if "opt_total_borate" in ds:
        ds["opt_total_borate"] = ds.opt_total_borate.where(
            ds.opt_total_borate.notnull(), opt_total_borate
        )
    else:
        ds["opt_total_borate"] = opt_total_borate
''', '''    opt_total_borate = (
        kwargs["opt_total_borate"] if "opt_total_borate" in kwargs else 1
    )
    if "opt_total_borate" not in ds:
        ds["opt_total_borate"] = opt_total_borate
    blank = ds["opt_total_borate"].isnull()
    ds["opt_total_borate"] = ds["opt_total_borate"].mask(
        blank, opt_total_borate
    )
'''), ("dataset.py", '''    salts = ["total_sulfate", "total_borate", "total_fluoride"]
    salts = [s for s in salts if pd.isnull(kwargs.get(s))]
    do_pyco2 = not np.all([s in ds and ds[s].notnull().all() for s in salts])
    if do_pyco2:
        results = pyco2.sys(
            salinity=ds.salinity.values,
            opt_total_borate=ds.opt_total_borate.values,
        )
        for salt in salts:
            if salt not in ds:
                ds[salt] = np.nan
            ds[salt] = ds[salt].where(ds[salt].notnull(), other=results[salt])
    return ds
''', '''    salts = []
    for salt in ("total_sulfate", "total_borate", "total_fluoride"):
        if pd.isnull(kwargs.get(salt, None)):
            salts.append(salt)
    if all(s in ds and ds[s].notnull().all() for s in salts):
        return ds
    results = pyco2.sys(
        salinity=ds["salinity"].to_numpy(),
        opt_total_borate=ds["opt_total_borate"].to_numpy(),
    )
    for salt in salts:
        if salt in ds:
            ds[salt] = np.where(ds[salt].isnull(), results[salt], ds[salt])
        else:
            ds[salt] = results[salt]
    return ds
'''))
    ref("calibrate_pieces", ("dataset.py", '''    # Calibrate titrant_molinity_here for each row with an alkalinity_certified
    ds["titrant_molinity_here"] = ds.apply(
        calibrate_row, axis=1, verbose=verbose, **kwargs
    )
    # Get titrant_molinity averaged by analysis_batch
    if "analysis_batch" not in ds:
        ds["analysis_batch"] = 0
    if "reference_good" not in ds:
        ds["reference_good"] = ~np.isnan(ds.titrant_molinity_here)
    batches = get_batches(ds)
    ds["titrant_molinity"] = (
        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
    )
    print("Calkulate: calibration complete!")
    ds = solve(ds, verbose=verbose, **kwargs)
    return ds
''', '''    ds["titrant_molinity_here"] = ds.apply(
        lambda row: calibrate_row(row, verbose=verbose, **kwargs), axis=1
    )
    _assign_batch_molinity(ds)
    print("Calkulate: calibration complete!")
    return solve(ds, verbose=verbose, **kwargs)


def _assign_batch_molinity(ds):
    """Assign titrant_molinity averaged by analysis_batch."""
    if "reference_good" not in ds:
        ds["reference_good"] = ds["titrant_molinity_here"].notnull()
    if "analysis_batch" not in ds:
        ds["analysis_batch"] = 0
    molinity = get_batches(ds)["titrant_molinity"]
    ds["titrant_molinity"] = ds["analysis_batch"].map(molinity)
'''))
    ref("solve_row_dict", ("dataset.py", '''    solved = pd.Series(
        {
            "alkalinity_npts": 0,
            "alkalinity_std": np.nan,
            "alkalinity": np.nan,
            "analyte_mass": row.analyte_mass,
            "emf0": np.nan,
            "gran_alkalinity": np.nan,
            "gran_emf0": np.nan,
            "pH_init": np.nan,
            "temperature_init": np.nan,
        }
    )
    if pd.notnull(row.titrant_molinity) and row.file_good:
        if verbose:
            print(f"Solving {row.file_name}...")
''', '''    blank = dict.fromkeys(
        [
            "alkalinity_npts",
            "alkalinity_std",
            "alkalinity",
            "analyte_mass",
            "emf0",
            "gran_alkalinity",
            "gran_emf0",
            "pH_init",
            "temperature_init",
        ],
        np.nan,
    )
    blank["alkalinity_npts"] = 0
    blank["analyte_mass"] = row["analyte_mass"]
    solved = pd.Series(blank)
    if row.file_good and not pd.isnull(row.titrant_molinity):
        if verbose:
            print("Solving {}...".format(row.file_name))
'''), ("dataset.py", '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for k, v in solved_rows.items():
        ds[k] = v
    if "alkalinity_certified" in ds:
        ds["alkalinity_offset"] = ds.alkalinity - ds.alkalinity_certified
''', '''    solved_rows = ds.apply(solve_row, axis=1, verbose=verbose, **kwargs)
    for column in solved_rows.columns:
        ds[column] = solved_rows[column]
    if "alkalinity_certified" in ds.columns:
        ds["alkalinity_offset"] = ds["alkalinity"].sub(
            ds["alkalinity_certified"]
        )
'''))
    ref("solve_kwcheck", ("dataset.py", '''    kwargs_ignored = []
    for k in _backcompat(kwargs.copy(), []):
        if k not in files.keys_calibrate | {
            "pH_range",
            "read_dat_kwargs",
            "read_dat_method",
        }:
            kwargs_ignored.append(k)
    if len(kwargs_ignored) > 0:
        warn(
            "kwargs not recognised, being ignored: "
            + ("{} " * len(kwargs_ignored)).format(*kwargs_ignored)
        )
''', '''    old_style = {"pH_range", "read_dat_kwargs", "read_dat_method"}
    allowed = files.keys_calibrate.union(old_style)
    kwargs_ignored = [
        k for k in _backcompat(dict(kwargs), []) if k not in allowed
    ]
    if kwargs_ignored:
        warn(
            "kwargs not recognised, being ignored: "
            + "".join(f"{k} " for k in kwargs_ignored)
        )
'''))
    ref("kwargs_for_rowdict", ("meta.py", '''    kwargs_for = {k: v for k, v in kwargs.items() if k in keys}
    # Overwrite / append any that (also) have values in the row
    if row is not None:
        for k in keys:
            if k in row and pd.notnull(row[k]):
                kwargs_for[k] = row[k]
    return kwargs_for''', '''    kwargs_for = {}
    for k in keys:
        if row is not None and k in row and not pd.isnull(row[k]):
            kwargs_for[k] = row[k]
        elif k in kwargs:
            kwargs_for[k] = kwargs[k]
    return kwargs_for'''), ("meta.py", '''    params = inspect.signature(func).parameters
    return {p for p in params if params[p].default != inspect.Parameter.empty}
''', '''    keys = set()
    for name, param in inspect.signature(func).parameters.items():
        if param.default is not inspect.Parameter.empty:
            keys.add(name)
    return keys
'''))
