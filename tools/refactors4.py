"""More behaviour-preserving edits: objects, figures, contents."""


def add(ref):
    ref("pH_masks", ("plot/titration.py", '''    ttt = tt.titration
    if ax is None:
        fig, ax = plt.subplots()
    if show_gran:
        try:
            ax.scatter(
                ttt.titrant_mass[~ttt.gran_used] * 1e3,
                ttt.gran_pH[~ttt.gran_used],
                label="First guess, unused",
                **gran_styler.scatter(False),
            )
            ax.scatter(
                ttt.titrant_mass[ttt.gran_used] * 1e3,
                ttt.gran_pH[ttt.gran_used],
                label="First guess, used",
                **gran_styler.scatter(),
            )
        except AttributeError:
            pass
    ax.scatter(
        ttt.titrant_mass[~ttt.used] * 1e3,
        ttt.pH[~ttt.used],
        label="Final, unused",
        **final_styler.scatter(False),
    )
    ax.scatter(
        ttt.titrant_mass[ttt.used] * 1e3,
        ttt.pH[ttt.used],
        label="Final, used",
        **final_styler.scatter(),
    )
''', '''    ttt = tt.titration
    if ax is None:
        _, ax = plt.subplots()
    grams = ttt.titrant_mass * 1000

    def points(values, where, label, style):
        ax.scatter(grams[where], values[where], label=label, **style)

    if show_gran and "gran_pH" in ttt.columns:
        guess = ttt["gran_used"]
        points(
            ttt["gran_pH"],
            ~guess,
            "First guess, unused",
            gran_styler.scatter(False),
        )
        points(
            ttt["gran_pH"], guess, "First guess, used", gran_styler.scatter()
        )
    points(ttt.pH, ~ttt.used, "Final, unused", final_styler.scatter(False))
    points(ttt.pH, ttt.used, "Final, used", final_styler.scatter())
'''))
    ref("molinity_figure", ("plot/__init__.py", '''    if "reference_good" in data:
        G = data.reference_good.values
    else:
        G = np.full(np.size(xdata), True)
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    ax.scatter(
        xdata[G],
        data.titrant_molinity_here[G],
        alpha=0.6,
        c="xkcd:navy",
        s=20,
        label="Good data",
    )
    if show_bad:
        ax.scatter(
            xdata[~G],
            data.titrant_molinity_here[~G],
            alpha=0.8,
            c="xkcd:strawberry",
            s=20,
            marker="x",
            label="Bad data",
        )
        ax.legend()
    if show_batches:
        batches = dataset.get_batches(data)
        for batch in batches.index:
            B = (data.analysis_batch == batch).to_numpy()
            ax.plot(xdata[B], data.titrant_molinity[B], c="xkcd:navy")
''', '''    if "reference_good" not in data:
        good = np.ones(len(data.index), dtype=bool)
    else:
        good = data["reference_good"].to_numpy()
    ydata = data["titrant_molinity_here"]
    # Draw the figure
    fig, ax = plt.subplots(dpi=300)
    styles = [(good, dict(alpha=0.6, c="xkcd:navy", label="Good data"))]
    if show_bad:
        styles.append(
            (
                ~good,
                dict(
                    alpha=0.8,
                    c="xkcd:strawberry",
                    marker="x",
                    label="Bad data",
                ),
            )
        )
    for where, style in styles:
        ax.scatter(xdata[where], ydata[where], s=20, **style)
    if show_bad:
        ax.legend()
    if show_batches:
        for batch in dataset.get_batches(data).index:
            here = data["analysis_batch"].to_numpy() == batch
            ax.plot(
                xdata[here], data["titrant_molinity"][here], c="xkcd:navy"
            )
'''))
    ref("object_sections", ("classes.py", '''        self.t = {
            "titrant_mass": self.sr.titrant_mass,
            "temperature": self.sr.temperature,
            "pH": self.sr.pH,
            "used": self.sr.used,
        }
        self.row = add_solve_results(self.row, self.sr)
        self.row["analyte_mass"] = self.sr.analyte_mass
        if isinstance(self.sr, SolveEmfResult):
            self.t.update(
                {
                    "emf": self.sr.emf,
                    "gran_func": self.sr.ggr.gfunc,
                    "gran_emf0": self.sr.ggr.emf0s,
                    "gran_pH": self.sr.ggr.pH,
                    "gran_used": self.sr.ggr.used,
                }
            )
        elif isinstance(self.sr, SolvePhGranResult):
            self.t.update(
                {
                    "gran_func": self.sr.gfunc,
                    "gran_used": self.sr.used,
                }
            )
        self.t.update({**self.sr.totals, **self.sr.k_constants})
        self.t = self.titration = pd.DataFrame(self.t)
''', '''        self.row = add_solve_results(self.row, self.sr)
        self.row["analyte_mass"] = self.sr.analyte_mass
        self.titration = self._make_table(self.sr)
        self.t = self.titration
'''), ("classes.py", '''    def __getattr__(self, attr):
''', '''    @staticmethod
    def _make_table(sr):
        columns = {
            k: getattr(sr, k)
            for k in ("titrant_mass", "temperature", "pH", "used")
        }
        if isinstance(sr, SolveEmfResult):
            ggr = sr.ggr
            columns["emf"] = sr.emf
            columns["gran_func"] = ggr.gfunc
            columns["gran_emf0"] = ggr.emf0s
            columns["gran_pH"] = ggr.pH
            columns["gran_used"] = ggr.used
        elif isinstance(sr, SolvePhGranResult):
            columns["gran_func"] = sr.gfunc
            columns["gran_used"] = sr.used
        columns |= sr.totals
        columns |= sr.k_constants
        return pd.DataFrame(columns)

    def __getattr__(self, attr):
'''))
    ref("object_acid", ("classes.py", '''        self.titration["alkalinity_from_acid"] = (
            1e-6 * self.alkalinity * self.analyte_mass
            - self.titration.titrant_mass
            * self.titrant_molinity
            * self.titrant_normality
        ) / (self.analyte_mass + self.titration.titrant_mass)
''', '''        tt = self.titration
        acid = (
            tt["titrant_mass"] * self.titrant_molinity * self.titrant_normality
        )
        initial = self.analyte_mass * self.alkalinity * 1e-6
        mixture = tt["titrant_mass"] + self.analyte_mass
        tt["alkalinity_from_acid"] = (initial - acid) / mixture
'''), ("classes.py", '''        st["alkalinity_estimate"] = (
            st.alkalinity_from_pH
            + st.titrant_mass
            * self.titrant_molinity
            * self.titrant_normality
            / (st.titrant_mass + self.analyte_mass)
        ) / st.dilution_factor
''', '''        acid_added = (
            self.titrant_normality * self.titrant_molinity * st.titrant_mass
        )
        acid_content = acid_added / (self.analyte_mass + st.titrant_mass)
        st["alkalinity_estimate"] = (
            acid_content / st.dilution_factor
            + st.alkalinity_from_pH / st.dilution_factor
        )
'''))
    ref("co2sys_loop", ("classes.py", '''            st[co2sysvar] = results[co2sysvar] * 1e-6
        st["H"] = 10**-st.pH
        st["alk_alpha"] = results["alkalinity_alpha"] * 1e-6
        st["alk_beta"] = results["alkalinity_beta"] * 1e-6
''', '''            st[co2sysvar] = 1e-6 * results[co2sysvar]
        for short in ("alpha", "beta"):
            st[f"alk_{short}"] = 1e-6 * results[f"alkalinity_{short}"]
        st["H"] = np.power(10.0, -st["pH"])
'''), ("classes.py", '''import pandas as pd
''', '''import numpy as np
import pandas as pd
'''))
    ref("cal_resid", ("core.py", '''    totals = add_titrant_totals(
        totals,
        titrant_mass,
        analyte_mass,
        titrant_molinity,
        titrant_molinity_prev=0,
        **titrant_totals,
    )
    # Solve for alkalinity and EMF
    sr = solve_emf(''', '''    totals = add_titrant_totals(
        dict(totals),
        titrant_mass,
        analyte_mass,
        titrant_molinity,
        titrant_molinity_prev=0,
        **titrant_totals,
    )
    # Solve for alkalinity and EMF
    sr = solve_emf('''), ("core.py", '''    # Revert to original totals
    totals = add_titrant_totals(
        totals,
        titrant_mass,
        analyte_mass,
        0,
        titrant_molinity_prev=titrant_molinity,
        **titrant_totals,
    )
    return sr.alkalinity - alkalinity_certified


def calibrate_emf(''', '''    return sr.alkalinity - alkalinity_certified


def calibrate_emf('''))
    ref("cal_partial", ("core.py", '''    return least_squares(
        _lsqfun_calibrate_emf,
        [titrant_molinity_init],
        args=(
            alkalinity_certified,
            titrant_mass,
            emf,
            temperature,
            analyte_mass,
            totals,
            k_constants,
            alkalinity_init,
            double,
            emf0_init,
            pH_min,
            pH_max,
            titrant_normality,
            gran_logic,
''', '''    settings = (
        alkalinity_init,
        double,
        emf0_init,
        pH_min,
        pH_max,
        titrant_normality,
        gran_logic,
    )
    start = np.array([titrant_molinity_init])
    return least_squares(
        _lsqfun_calibrate_emf,
        x0=start,
        args=(
            alkalinity_certified,
            titrant_mass,
            emf,
            temperature,
            analyte_mass,
            totals,
            k_constants,
            *settings,
'''))
    ref("contents_loop", ("interface.py", '''    if total_ammonia > 0:
        totals["total_ammonia"] = totals_pyco2["TNH3"]
    if total_silicate > 0:
        totals["total_silicate"] = totals_pyco2["TSi"]
    if total_phosphate > 0:
        totals["total_phosphate"] = totals_pyco2["TPO4"]
    if total_sulfide > 0:
        totals["total_sulfide"] = totals_pyco2["TH2S"]
    totals["total_borate"] = totals_pyco2["TB"]
    totals["total_fluoride"] = totals_pyco2["TF"]
    totals["total_sulfate"] = totals_pyco2["TSO4"]
''', '''    optional = [
        ("total_ammonia", total_ammonia, "TNH3"),
        ("total_silicate", total_silicate, "TSi"),
        ("total_phosphate", total_phosphate, "TPO4"),
        ("total_sulfide", total_sulfide, "TH2S"),
    ]
    for name, given, key in optional:
        if given > 0:
            totals[name] = totals_pyco2[key]
    for name, key in zip(
        ("total_borate", "total_fluoride", "total_sulfate"),
        ("TB", "TF", "TSO4"),
    ):
        totals[name] = totals_pyco2[key]
'''))
    ref("dbs_filtered", ("read/metadata.py", '''    for i, row in dbs.iterrows():
        if row.run_type == "bottle":
            dbs.loc[i, "file_name"] = filename_format.format(
                s=int(row.station),
                c=int(row.cast),
                n=int(row.niskin),
                d=int(row.depth),
                b=row.bottle,
            )
        elif row.run_type == "CRM":
            dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
            dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
        else:
            dbs.loc[i, "file_good"] = False
''', '''    bottles = dbs.run_type == "bottle"
    crms = dbs.run_type == "CRM"
    for i, row in dbs[bottles].iterrows():
        dbs.loc[i, "file_name"] = filename_format.format(
            s=int(row.station),
            c=int(row.cast),
            n=int(row.niskin),
            d=int(row.depth),
            b=row.bottle,
        )
    for i, row in dbs[crms].iterrows():
        dbs.loc[i, "file_name"] = f"CRM{row.batch}{row.bottle}.dat"
        dbs.loc[i, "alkalinity_certified"] = row["cert. CRM AT"]
    dbs.loc[~(bottles | crms), "file_good"] = False
'''))
    ref("dbs_index", ("read/metadata.py", '''    for i, row in dbs.iterrows():
''', '''    for i in dbs.index:
        row = dbs.loc[i]
'''))
    old = '''        use_from = use_logic.nonzero()[0][0]
        used[use_from:] = True
'''
    ref("gran_arange", ("core.py", old, '''        use_from = np.flatnonzero(use_logic)[0]
        used = np.arange(gfunc.size) >= use_from
'''))
    ref("gran_min", ("core.py", old, '''        used[np.where(use_logic)[0].min() :] = True
'''))
    ref("gran_zeros", ("core.py", old, '''        used = np.zeros(len(emf), dtype=bool)
        used[use_logic.argmax() :] = True
'''))
    ref("fill_ones", ("simulate.py", '''        temperature = np.full_like(titrant_mass, temperature)
''', '''        temperature = temperature * np.ones_like(titrant_mass)
'''))
    ref("loss_fill", ("loss.py", '''    f_dic = np.full_like(f_titrant_mass, np.nan)
''', '''    f_dic = np.full(len(f_titrant_mass), np.nan)
'''), ("loss.py", '''    i_dic = np.full_like(i_delta_fCO2, np.nan)
''', '''    i_dic = np.full_like(i_titrant_mass, np.nan)
'''))
