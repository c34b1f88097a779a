"""More behaviour-preserving edits (simulate, loss, readers, classes, ...)."""


def add(ref):
    SIM = ("C05", "C20", "C04", "C24", "C13", "C01")
    ref("density_horner", ("density.py", '''    return (
        999.842594
        + 6.793952e-2 * temperature
        - 9.095290e-3 * temperature**2
        + 1.001685e-4 * temperature**3
        - 1.120083e-6 * temperature**4
        + 6.536336e-9 * temperature**5
        + (
            0.824493
            - 4.0899e-3 * temperature
            + 7.6438e-5 * temperature**2
            - 8.2467e-7 * temperature**3
            + 5.3875e-9 * temperature**4
        )
        * salinity
        + (-5.72466e-3 + 1.0227e-4 * temperature - 1.6546e-6 * temperature**2)
        * salinity**1.5
        + 4.8314e-4 * salinity**2
    ) * 1e-3
''', '''    def poly(coefficients):
        total = 0.0
        for c in reversed(coefficients):
            total = total * temperature + c
        return total

    pure = poly(
        [
            999.842594,
            6.793952e-2,
            -9.095290e-3,
            1.001685e-4,
            -1.120083e-6,
            6.536336e-9,
        ]
    )
    a = poly([0.824493, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9])
    b = poly([-5.72466e-3, 1.0227e-4, -1.6546e-6])
    density = pure + a * salinity + b * salinity * np.sqrt(salinity)
    return 1e-3 * (density + 4.8314e-4 * salinity**2)
'''), checks=("C07", "C08", "C01"))
    ref("density_polyval", ("density.py", '''    return (
        0.99750018
        + 0.06181819 * titrant_molinity
        - 0.00285491 * titrant_molinity**2
    )
''', '''    return np.polyval(
        [-0.00285491, 0.06181819, 0.99750018], titrant_molinity
    )
'''), ("density.py", '''    if np.any(temperature < 0) or np.any(temperature > 40):
''', '''    temperature_valid = (temperature >= 0) & (temperature <= 40)
    if not np.all(temperature_valid):
'''), checks=("C07", "C08", "C17"))
    ref("density_guard", ("density.py", '''    if molinity_HCl is None:
        molinity_HCl = default.molinity_HCl
    if molinity_NaCl is None:
        molinity_NaCl = default.molinity_NaCl
    rhow25 = 0.99704  # g / cm**3
    # For convenience:
    mHCl = molinity_HCl
    mNaCl = molinity_NaCl
    molinity_total = mHCl + mNaCl  # mol / kg-H2O
''', '''    mHCl = default.molinity_HCl if molinity_HCl is None else molinity_HCl
    mNaCl = default.molinity_NaCl if molinity_NaCl is None else molinity_NaCl
    rhow25 = 0.99704  # g / cm**3
    molinity_total = sum([mHCl, mNaCl])  # mol / kg-H2O
'''), ("density.py", '''        rhow25
        * (1e3 + mT * (mHCl + mNaCl))
        / (1e3 + phi_mix * (mHCl + mNaCl) * rhow25)''', '''        rhow25
        * (1e3 + mT * molinity_total)
        / (1e3 + phi_mix * molinity_total * rhow25)'''),
        checks=("C07", "C08"))
    ref("components_helper", ("simulate.py", '''    if "total_silicate" in totals:
        TSi = totals["total_silicate"]
        KSi = k_constants["k_silicate"]
        components["H3SiO4"] = TSi * KSi / (KSi + h)
    if "total_ammonia" in totals:
        TNH3 = totals["total_ammonia"]
        KNH3 = k_constants["k_ammonia"]
        components["NH3"] = TNH3 * KNH3 / (KNH3 + h)
    if "total_sulfide" in totals:
        TH2S = totals["total_sulfide"]
        KH2S = k_constants["k_sulfide"]
        components["HS"] = TH2S * KH2S / (KH2S + h)
''', '''    for species, substance in (
        ("H3SiO4", "silicate"),
        ("NH3", "ammonia"),
        ("HS", "sulfide"),
    ):
        if f"total_{substance}" in totals:
            components[species] = _deprotonated(
                totals["total_" + substance],
                k_constants["k_{}".format(substance)],
                h,
            )
'''), ("simulate.py", '''def alkalinity_components(
''', '''def _deprotonated(total, k, h):
    """Part of a monoprotic acid that has lost its proton."""
    return total / (1 + h / k)


def alkalinity_components(
'''), checks=SIM)
    ref("components_alpha_where", ("simulate.py", '''        alpha = total_alpha * k_alpha / (k_alpha + h)
        alphaH = total_alpha - alpha
        components["alk_alpha"] = np.where(
            -np.log10(k_alpha) <= default.zlp, -alphaH, alpha
        )
''', '''        alpha = total_alpha * k_alpha / (k_alpha + h)
        is_base = -np.log10(k_alpha) > default.zlp
        components["alk_alpha"] = np.where(
            is_base, alpha, alpha - total_alpha
        )
'''), ("simulate.py", '''    if opt_pH_scale in [1, 3]:
        if "total_fluoride" in totals:
''', '''    if opt_pH_scale != 2:
        if "total_fluoride" in totals:
'''), checks=SIM)
    ref("alkalinity_loop", ("simulate.py", '''    return np.sum(
        [v * component_multipliers[k] for k, v in components.items()], axis=0
    )
''', '''    total = 0
    for name, content in components.items():
        total = total + component_multipliers[name] * content
    return total
'''), checks=SIM)
    ref("simulate_loss_helper", ("simulate.py", '''        for i in range(len(dic_titration) - 1):
            kwargs_i = {
                k: v if np.isscalar(v) else v[i]
                for k, v in kwargs_titration.items()
            }
            fCO2 = pyco2.sys(
                par1=alkalinity_titration[i],
                par2=dic_titration[i],
                par1_type=1,
                par2_type=2,
                **kwargs_i,
            )["fCO2"]
            delta_fCO2 = fCO2 - fCO2_air
            dic_loss = k_dic_loss * delta_fCO2 * titrant_mass_step
            dic_titration[i + 1] = (
                dic_titration[i]
                * convert.get_dilution_factor(
                    titrant_mass_step, analyte_mass + titrant_mass[i]
                )
                - dic_loss
            )
''', '''        for i in range(1, len(dic_titration)):
            kwargs_i = {}
            for k, v in kwargs_titration.items():
                kwargs_i[k] = v if np.isscalar(v) else v[i - 1]
            co2sys_i = pyco2.sys(
                par1=dic_titration[i - 1],
                par2=alkalinity_titration[i - 1],
                par1_type=2,
                par2_type=1,
                **kwargs_i,
            )
            loss = (
                k_dic_loss * (co2sys_i["fCO2"] - fCO2_air) * titrant_mass_step
            )
            mass_before = analyte_mass + titrant_mass[i - 1]
            dic_titration[i] = (
                dic_titration[i - 1]
                * mass_before
                / (mass_before + titrant_mass_step)
                - loss
            )
'''), checks=("C20", "C24"))
    ref("simulate_defaults", ("simulate.py", '''    for opt in [
        "opt_gas_constant",
        "opt_k_bisulfate",
        "opt_k_carbonic",
        "opt_k_fluoride",
        "opt_total_borate",
    ]:
        if opt not in pyco2sys_kwargs:
            pyco2sys_kwargs[opt] = getattr(default, opt)
    # Set up dict of start-condition kwargs and then get totals from PyCO2SYS
    kwargs_start = dict(
        salinity=salinity,
        temperature=temperature,
        opt_pH_scale=3,
        **pyco2sys_kwargs,
    )
''', '''    options = {
        "opt_gas_constant": default.opt_gas_constant,
        "opt_k_bisulfate": default.opt_k_bisulfate,
        "opt_k_carbonic": default.opt_k_carbonic,
        "opt_k_fluoride": default.opt_k_fluoride,
        "opt_total_borate": default.opt_total_borate,
    }
    # Set up dict of start-condition kwargs and then get totals from PyCO2SYS
    kwargs_start = {
        **options,
        **pyco2sys_kwargs,
        "salinity": salinity,
        "temperature": temperature,
        "opt_pH_scale": 3,
    }
'''), checks=("C20", "C13"))
    ref("loss_scan", ("loss.py", '''    i_dic = np.full_like(i_delta_fCO2, np.nan)
    i_dic[0] = dic_start * 1e6
    for i in range(len(i_dic) - 1):
        dilute = convert.get_dilution_factor(
            step_tm, analyte_mass + i_titrant_mass[i]
        )
        i_dic[i + 1] = (
            i_dic[i] * dilute - k_dic_loss * i_delta_fCO2[i] * step_tm
        )
    return i_dic
''', '''    i_dic = np.empty_like(i_delta_fCO2)
    i_dic[0] = 1e6 * dic_start
    for i in range(1, len(i_dic)):
        mass = analyte_mass + i_titrant_mass[i - 1]
        lost = k_dic_loss * i_delta_fCO2[i - 1] * step_tm
        i_dic[i] = i_dic[i - 1] * mass / (mass + step_tm) - lost
    return i_dic
'''), checks=("C22", "C13"))
    ref("loss_interp_helper", ("loss.py", '''    f_pH = interpolate.pchip_interpolate(titrant_mass, pH, f_titrant_mass)
    f_k0 = interpolate.pchip_interpolate(titrant_mass, k_CO2, f_titrant_mass)
    f_k1 = interpolate.pchip_interpolate(
        titrant_mass, k_carbonic_1, f_titrant_mass
    )
    f_k2 = interpolate.pchip_interpolate(
        titrant_mass, k_carbonic_2, f_titrant_mass
    )
''', '''    def at(values, mass):
        return interpolate.pchip_interpolate(titrant_mass, values, mass)

    f_pH, f_k0, f_k1, f_k2 = (
        at(v, f_titrant_mass) for v in (pH, k_CO2, k_carbonic_1, k_carbonic_2)
    )
'''), ("loss.py", '''    # Set NaN dic_loss values to zero
    dic_loss = dic_loss.copy()
    dic_loss[np.isnan(dic_loss)] = 0
''', '''    # Set NaN dic_loss values to zero
    dic_loss = np.where(np.isnan(dic_loss), 0, dic_loss)
'''), ("loss.py", '''    i_titrant_mass = a_titrant_mass[a_pH >= split_pH]
    f_titrant_mass = a_titrant_mass[a_pH < split_pH]
''', '''    before_split = a_pH >= split_pH
    i_titrant_mass = a_titrant_mass[before_split]
    f_titrant_mass = a_titrant_mass[a_pH < split_pH]
'''), checks=("C22", "C13"))
    ref("genfromtxt_usecols", ("read/titrations.py", '''    titrant_amount = data[:, col_titrant_amount]
    measurement = data[:, col_measurement]
    temperature = data[:, col_temperature]
    return DatData(titrant_amount, measurement, temperature)


def read_dat_pclims(''', '''    return _columns(data, col_titrant_amount, col_measurement, col_temperature)


def _columns(data, *cols):
    return DatData(*(data[:, c] for c in cols))


def read_dat_pclims('''), ("read/titrations.py", '''    data = np.array(data, dtype="float64")
    titrant_amount = data[:, col_titrant_amount]
    measurement = data[:, col_measurement]
    temperature = data[:, col_temperature]
    return DatData(titrant_amount, measurement, temperature)
''', '''    return _columns(
        np.array(data, dtype=float),
        col_titrant_amount,
        col_measurement,
        col_temperature,
    )
'''), checks=("C15", "C01", "C13", "C24"))
    ref("pclims_for", ("read/titrations.py", '''    data = []
    i = 0
    stop = False
    found_any = False
    while not stop and i < len(data_full):
        line = data_full[i]
        if re_data.match(line):
            found_any = True
            data.append(line.split("\\t"))
        else:
            if found_any:
                stop = True
        i += 1
''', '''    data = []
    for line in data_full:
        if not re_data.match(line):
            if data:
                break
            continue
        data.append(line.split("\\t"))
'''), checks=("C15", "C24"))
    ref("read_dat_get", ("read/titrations.py", '''    dat_data = file_types[file_type](file_name, **kwargs)
    return dat_data
''', '''    reader = file_types[file_type]
    return reader(file_name, **kwargs)
'''), ("read/titrations.py", '''            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )''', '''            fields = [
                format(titrant_amount_i, titrant_amount_fmt),
                format(measurement_i, measurement_fmt),
                format(temperature_i, temperature_fmt),
            ]
            f.write("\\t".join(fields) + "\\n")'''),
        checks=("C15", "C16", "C17", "C13"))
    ref("write_fstring", ("read/titrations.py", '''        f.write("{}\\n{}\\n".format(line0, line1))
        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )''', '''        print(line0, file=f)
        print(line1, file=f)
        for a, m, t in zip(titrant_amount, measurement, temperature):
            f.write(
                f"{a:{titrant_amount_fmt}}\\t"
                f"{m:{measurement_fmt}}\\t"
                f"{t:{temperature_fmt}}\\n"
            )'''), checks=("C16",))
    ref("write_lines", ("read/titrations.py", '''    with open(filepath, mode=mode, **open_kwargs) as f:
        f.write("{}\\n{}\\n".format(line0, line1))
        for titrant_amount_i, measurement_i, temperature_i in zip(
            titrant_amount, measurement, temperature
        ):
            f.write(
                (
                    "{:"
                    + titrant_amount_fmt
                    + "}\\t{:"
                    + measurement_fmt
                    + "}\\t{:"
                    + temperature_fmt
                    + "}\\n"
                ).format(
                    titrant_amount_i,
                    measurement_i,
                    temperature_i,
                )
            )''', '''    template = "{{:{}}}\\t{{:{}}}\\t{{:{}}}\\n".format(
        titrant_amount_fmt, measurement_fmt, temperature_fmt
    )
    lines = [line0 + "\\n", line1 + "\\n"]
    for values in zip(titrant_amount, measurement, temperature):
        lines.append(template.format(*values))
    with open(filepath, mode=mode, **open_kwargs) as f:
        f.writelines(lines)'''), checks=("C16",))
    ref("dbs_names_helper", ("read/metadata.py", '''        if row.run_type == "bottle":
            dbs.loc[i, "file_name"] = filename_format.format(
                s=int(row.station),
                c=int(row.cast),
                n=int(row.niskin),
                d=int(row.depth),
                b=row.bottle,
            )
''', '''        if row.run_type == "bottle":
            parts = {
                short: int(row[column])
                for short, column in zip(
                    "scnd", ["station", "cast", "niskin", "depth"]
                )
            }
            dbs.loc[i, "file_name"] = filename_format.format(
                b=row.bottle, **parts
            )
'''), ("read/metadata.py", '''        dspl = dbs_row["date"].split("/")
        analysis_datetime = np.datetime64(
            "-".join(("20" + dspl[2], dspl[0], dspl[1]))
            + "T"
            + dbs_row["time"]
        )
''', '''        month, day, year = dbs_row["date"].split("/")[:3]
        analysis_datetime = np.datetime64(
            f"20{year}-{month}-{day}T" + dbs_row["time"]
        )
'''), checks=("C23",))
    ref("dbs_early", ("read/metadata.py", '''    if analyte_mass is None:
        dbs["analyte_volume"] = analyte_volume
    else:
        dbs["analyte_mass"] = analyte_mass
    if file_path is not None:
        assert isinstance(file_path, str), "file_path must be a string."
        dbs["file_path"] = file_path
    return Dataset(dbs)
''', '''    if analyte_mass is not None:
        amount = ("analyte_mass", analyte_mass)
    else:
        amount = ("analyte_volume", analyte_volume)
    dbs[amount[0]] = amount[1]
    if file_path is None:
        return Dataset(dbs)
    assert isinstance(file_path, str), "file_path must be a string."
    dbs["file_path"] = file_path
    return Dataset(dbs)
'''), ("read/metadata.py", '''        elif row.run_type == "CRM":
            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
            dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
        else:
            dbs.loc[i, "file_good"] = False
''', '''            continue
        if row.run_type != "CRM":
            dbs.loc[i, "file_good"] = False
            continue
        dbs.at[i, "file_name"] = "CRM{}{}.dat".format(row.batch, row.bottle)
        dbs.at[i, "alkalinity_certified"] = row["cert. CRM AT"]
'''), checks=("C23", "C17"))
    ref("titration_columns", ("classes.py", '''        self.t = {
            "titrant_mass": self.sr.titrant_mass,
            "temperature": self.sr.temperature,
            "pH": self.sr.pH,
            "used": self.sr.used,
        }
''', '''        sr = self.sr
        self.t = {
            k: getattr(sr, k)
            for k in ("titrant_mass", "temperature", "pH", "used")
        }
'''), ("classes.py", '''        self.titration["alkalinity_from_acid"] = (
            1e-6 * self.alkalinity * self.analyte_mass
            - self.titration.titrant_mass
            * self.titrant_molinity
            * self.titrant_normality
        ) / (self.analyte_mass + self.titration.titrant_mass)
''', '''        t = self.titration
        acid = t.titrant_mass * self.titrant_normality * self.titrant_molinity
        base = self.analyte_mass * self.alkalinity * 1e-6
        t["alkalinity_from_acid"] = (base - acid) / (
            t.titrant_mass + self.analyte_mass
        )
'''), ("classes.py", '''        for co2sysvar in [
            "HCO3",
            "CO3",
            "BOH4",
            "PO4",
            "HPO4",
            "H3PO4",
            "HSO4",
            "HF",
            "H3SiO4",
            "NH3",
            "HS",
            "OH",
        ]:
            st[co2sysvar] = results[co2sysvar] * 1e-6
''', '''        species = ["HCO3", "CO3", "BOH4", "PO4", "HPO4", "H3PO4"]
        species += ["HSO4", "HF", "H3SiO4", "NH3", "HS", "OH"]
        for s in species:
            st[s] = 1e-6 * results[s]
'''), checks=("C18", "C19", "C13", "C24"))
    ref("titration_repr", ("classes.py", '''    def __repr__(self):
        if "file_path" in self.row:
            f = os.path.join(self.row.file_path, self.row.file_name)
        else:
            f = self.row.file_name
        return f'calkulate.Titration for file "{f}"'
''', '''    def __repr__(self):
        return str(self)
'''), ("classes.py", '''        totals = {
            k: st[k].to_numpy() * 1e6 if k in st else 0
            for k in [
                "total_sulfate",''', '''        totals = {
            k: 1e6 * st[k].to_numpy() if k in st.columns else 0
            for k in [
                "total_sulfate",'''), checks=("C18", "C24"))
    ref("emf_ph_direct", ("convert.py", '''    return -np.log10(emf_to_h(emf, emf0, temperature))
''', '''    temperature_K = temperature + constants.absolute_zero
    return (emf0 - emf) * F / (R * temperature_K * np.log(10))
'''), ("convert.py", '''    h = 10.0**-pH
    return h_to_emf(h, emf0, temperature)
''', '''    slope = f_to_demf0(10.0, temperature)
    return emf0 - pH * slope
'''), checks=("C06", "C04", "C14", "C20", "C01"))
    ref("dilute_comprehension", ("convert.py", '''    dilution_factor = get_dilution_factor(titrant_mass, analyte_mass)
    totals = {
        k: (
            v * dilution_factor
            if k != "total_sulfate"
            else (v * analyte_mass + titrant_molinity * titrant_mass)
            / (analyte_mass + titrant_mass)
        )
        for k, v in totals.items()
    }
    return totals
''', '''    dilution_factor = get_dilution_factor(titrant_mass, analyte_mass)
    diluted = {}
    for k, v in totals.items():
        diluted[k] = v * dilution_factor
    if "total_sulfate" in diluted:
        diluted["total_sulfate"] = diluted[
            "total_sulfate"
        ] + titrant_molinity * (1 - dilution_factor)
    return diluted
'''), checks=("C09",))
    ref("solve_row_split", ("dataset.py", '''    if pd.notnull(row.titrant_molinity) and row.file_good:
        if verbose:
            print(f"Solving {row.file_name}...")
        try:
            kwargs = _backcompat(kwargs, row)
            kwargs_solve = _get_kwargs_for(files.keys_solve, kwargs, row)
            sr = files.solve(
                row.file_name,
                row.titrant_molinity,
                row.salinity,
                **kwargs_solve,
            )
            solved = add_solve_results(solved, sr)
        except Exception as e:
            print(f'Error solving "{row.file_name}":')
            print(f"{e}")
            return solved
    return solved
''', '''    if pd.isnull(row.titrant_molinity) or not row.file_good:
        return solved
    if verbose:
        print(f"Solving {row.file_name}...")
    try:
        sr = _solve_file(row, kwargs)
    except Exception as e:
        print(f'Error solving "{row.file_name}":')
        print(f"{e}")
    else:
        solved = add_solve_results(solved, sr)
    return solved


def _solve_file(row, kwargs):
    settings = _get_kwargs_for(
        files.keys_solve, _backcompat(kwargs, row), row
    )
    return files.solve(
        row.file_name, row.titrant_molinity, row.salinity, **settings
    )
'''), checks=("C11", "C02", "C25", "C26", "C13", "C24"))
    ref("prepare_setdefault", ("dataset.py", '''    if "file_good" not in ds:
        ds["file_good"] = True
''', '''    for name, default_value in [("file_good", True)]:
        if name not in ds.columns:
            ds[name] = default_value
'''), ("dataset.py", '''    batches = get_batches(ds)
    ds["titrant_molinity"] = (
        batches["titrant_molinity"].reindex(ds.analysis_batch).to_numpy()
    )
''', '''    batch_means = get_batches(ds).titrant_molinity
    ds["titrant_molinity"] = ds.analysis_batch.map(batch_means)
'''), checks=("C11", "C02", "C12", "C25", "C13", "C24"))
