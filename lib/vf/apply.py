"""Projections for spec/APPLY.tla: data, calibration solutions, flags."""
import numpy as np

from .num import fx, NAN
from .uvd import pcat, proj, ptel, t2tok

SC = 128.0


def _c(x):
    return NAN if not np.isfinite(x) else fx(x, SC)


def pdata(u):
    nm = dict(zip([int(n) for n in u.telescope.antenna_numbers], [str(x) for x in u.telescope.antenna_names]))
    blt = [{"t": t2tok(t), "a1": int(a), "a2": int(b), "n1": nm[int(a)], "n2": nm[int(b)]}
           for t, a, b in zip(u.time_array, u.ant_1_array, u.ant_2_array)]
    d, f, s = u.data_array.ravel(), u.flag_array.ravel(), u.nsample_array.ravel()
    p = proj(u)
    p["meta"].pop("units")
    p["meta"]["opt"] = [x for x in p["meta"]["opt"] if not x.startswith("pol_convention")]
    rest = repr([p["meta"], p["tel"], p["cat"], p["axes"], p["shape"], str(u.data_array.dtype)])
    return {"order": ["blt", "freq", "pol"],
            "axes": {"blt": blt, "freq": [{"f": fx(x)} for x in u.freq_array], "pol": [int(x) for x in u.polarization_array]},
            "polstr": [str(int(x)) for x in u.polarization_array],
            "cells": [[_c(d[k].real), _c(d[k].imag), int(f[k]), fx(s[k], 1000)] for k in range(d.size)],
            "xo": str(u.telescope.x_orientation), "units": str(u.vis_units), "pc": str(u.pol_convention), "rest": rest}


def pcal(c):
    nm = dict(zip([int(n) for n in c.telescope.antenna_numbers], [str(x) for x in c.telescope.antenna_names]))
    rng = c.time_range is not None
    tm = [{"t": -1, "lo": t2tok(x[0]), "hi": t2tok(x[1])} for x in c.time_range] if rng else [
        {"t": t2tok(x), "lo": -1, "hi": -1} for x in c.time_array]
    if c.cal_type == "gain":
        d = c.gain_array.ravel()
        v = [[fx(x.real, 4.0) // 4, fx(x.imag, 4.0) // 4] for x in d]
    else:
        v = [[fx(x / 5e-6), 0] for x in c.delay_array.ravel()]
    fl = c.flag_array.ravel()
    fr = [{"f": -1}] * c.Nspws if c.wide_band or c.freq_array is None else [{"f": fx(x)} for x in c.freq_array]
    return {"order": ["ant", "freq", "time", "jones"],
            "axes": {"ant": [nm[int(a)] for a in c.ant_array], "freq": fr, "time": tm, "jones": [int(j) for j in c.jones_array]},
            "cells": [v[k] + [int(fl[k])] for k in range(len(v))],
            "ranges": rng, "type": str(c.cal_type), "wide": bool(c.wide_band), "nspws": int(c.Nspws), "conv": str(c.gain_convention),
            "frange": [fx(x) for x in c.freq_range[0]] if c.freq_range is not None else [0, 0], "scale": str(c.gain_scale), "pc": str(c.pol_convention), "xo": str(c.telescope.x_orientation)}
