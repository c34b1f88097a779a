"""VINDTA database files, row by row."""

import numpy as np
import pandas as pd
from matplotlib import dates


def read(fname):
    names = np.genfromtxt(fname, delimiter="\t", dtype=str, max_rows=1)
    return pd.read_table(fname, header=0, names=names, usecols=names)


def when(row):
    """Dates are month/day/year of this century."""
    month, day, year = row["date"].split("/")
    return np.datetime64("20" + year + "-" + month + "-" + day + "T" + row["time"])


def name_of(row, style):
    kind = row["run type"]
    if kind == "bottle":
        return style.format(
            s=int(row["station"]),
            c=int(row["cast"]),
            n=int(row["niskin"]),
            d=int(row["depth"]),
            b=row["bottle"],
        )
    if kind == "CRM":
        return "CRM" + str(row["batch"]) + str(row["bottle"]) + ".dat"
    return ""


def good(row):
    kind = row["run type"]
    if kind == "bottle" or kind == "CRM":
        return row["file_good"] if "file_good" in row else True
    return False


def dbs(fname, style):
    t = read(fname)
    moment = t.apply(when, axis=1)
    return {
        "run_type": t["run type"],
        "dbs_fname": fname,
        "analysis_datetime": moment,
        "analysis_datenum": dates.date2num(moment),
        "file_name": t.apply(name_of, axis=1, style=style),
        "file_good": t.apply(good, axis=1),
        "salinity": t["salinity"],
        "station": t["station"],
    }


def no_date():
    return np.datetime64("NaT")


def read_csv(f, **kw):
    return pd.read_csv(f, **kw)


def read_excel(f, **kw):
    return pd.read_excel(f, **kw)


def read_fwf(f, **kw):
    return pd.read_fwf(f, **kw)


def read_table(f, **kw):
    return pd.read_table(f, **kw)


def read_clipboard(**kw):
    return pd.read_clipboard(**kw)
