"""Titration file formats."""

import re

import numpy as np
import pandas as pd


def columns(data, i, j, k):
    return data[:, i], data[:, j], data[:, k]


def genfromtxt(
    file_name,
    col_titrant_amount=0,
    col_measurement=1,
    col_temperature=2,
    delimiter="\t",
    skip_header=2,
    **kwargs,
):
    data = np.genfromtxt(
        file_name, delimiter=delimiter, skip_header=skip_header, **kwargs
    )
    return columns(data, col_titrant_amount, col_measurement, col_temperature)


def tiamo_de(file_name, encoding="unicode_escape"):
    with open(file_name, "r", encoding=encoding) as f:
        lines = f.read().splitlines()
    g = lines.index("Gran.1")
    start = float(lines[g - 3].split(";")[2])
    t = pd.read_csv(file_name, skiprows=g + 1, encoding=encoding, sep=";")
    return (
        t["Volumen [mL]"].to_numpy() + start,
        t["Messwert"].to_numpy(),
        t["Temperatur [°C]"].to_numpy(),
    )


def orgalk_excel(file_name):
    t = pd.read_excel(file_name, skiprows=1)
    return (
        t["acid"].to_numpy(),
        t["base"].to_numpy(),
        t["emf"].to_numpy(),
        t["temperature"].to_numpy(),
    )


def pclims(
    file_name,
    col_titrant_amount=1,
    col_measurement=2,
    col_temperature=5,
    n_cols=6,
):
    """The first uninterrupted block of lines made of n_cols numbers."""
    with open(file_name, mode="r", encoding="unicode-escape") as f:
        lines = f.read().splitlines()
    pattern = re.compile(r"[\d\.]*" + r"\t[\d\.]*" * (n_cols - 1))
    rows = []
    for line in lines:
        if pattern.match(line):
            rows.append(line.split("\t"))
        elif len(rows) > 0:
            break
    return columns(
        np.array(rows, dtype="float64"),
        col_titrant_amount, col_measurement, col_temperature,
    )


def text(
    titrant_amount,
    measurement,
    temperature,
    line0="Titration data exported by Calkulate",
    line1="titrant_amount\tmeasurement\ttemperature",
    titrant_amount_fmt=".3f",
    measurement_fmt=".3f",
    temperature_fmt=".3f",
):
    """Two header lines, then one line per step."""
    out = line0 + "\n" + line1 + "\n"
    for i in range(len(titrant_amount)):
        out = (
            out
            + format(titrant_amount[i], titrant_amount_fmt) + "\t"
            + format(measurement[i], measurement_fmt) + "\t"
            + format(temperature[i], temperature_fmt) + "\n"
        )
    return out
