"""Making UVFlag objects and projecting them to the state of spec/FLAG.tla."""
import numpy as np

from pyuvdata import UVFlag

from .cal import make_cal
from .num import BIG, NAN, fx
from .uvd import make_uvd, ptel, pv, t2tok

MS = 1e4  # metrics (and their squares) in 1e-4


def fill(rng, u, unique=False, weights=True, ws=None):
    """Random contents: flags, or small integer metrics and weights."""
    shp = (u.flag_array if u.mode == "flag" else u.metric_array).shape
    if u.mode == "flag":
        u.flag_array = rng.random(shp) < float(rng.choice([0.3, 0.5, 0.8]))
    else:
        if unique:
            u.metric_array = np.arange(1, 1 + int(np.prod(shp)), dtype=float).reshape(shp)
        else:
            u.metric_array = rng.integers(-15, 16, shp).astype(float)
            if rng.random() < 0.4:
                u.metric_array[rng.random(shp) < 0.15] = np.inf
        u.weights_array = rng.integers(0, 4, shp).astype(float) if weights and rng.random() < 0.8 else np.ones(shp)
        if u.type == "waterfall" and (rng.random() < 0.2 if ws is None else ws):
            u.weights_square_array = rng.integers(0, 9, shp).astype(float)
    return u


def make_flag(rng, typ=None, mode=None, src=None, unique=True, ws=None, weights=True, **kw):
    typ = typ or str(rng.choice(["waterfall", "baseline", "antenna"]))
    mode = mode or str(rng.choice(["flag", "metric"]))
    if src is None:
        if typ == "baseline" or (typ == "waterfall" and rng.random() < 0.6):
            src = make_uvd(rng, **kw)
        else:
            src = make_cal(rng, kind="gain", trange=False, flexj=False, **kw)
    u = UVFlag(src, mode=mode, waterfall=typ == "waterfall", label=str(rng.choice(["", "lab"])))
    fill(rng, u, unique=unique, ws=ws, weights=weights)
    u.extra_keywords = {"vfkey": int(rng.integers(0, 99))}
    u.filename = [str(rng.choice(["aaa.uvh5", "bbb.uvh5"]))]
    u._filename.form = (1,)
    if typ == "waterfall" and rng.random() < 0.35:
        p = rng.permutation(u.Ntimes)
        u.time_array, u.lst_array = u.time_array[p], u.lst_array[p]
        for k in u._data_params:
            setattr(u, k, getattr(u, k)[p])
    u.check()
    return u


def fm(x):
    x = float(x)
    return BIG if np.isinf(x) else (NAN if np.isnan(x) else fx(x, MS))


def flag_cells(u, order=None):
    if u.mode == "flag":
        return [[int(bool(x))] for x in u.flag_array.ravel()]
    m, w = u.metric_array.ravel(), u.weights_array.ravel()
    s = u.weights_square_array
    hs = s is not None and s.shape == u.metric_array.shape
    out = []
    for k in range(m.size):
        c = [fm(m[k]), fm(m[k] ** 2), fx(w[k], 4)]
        if hs:
            c.append(fx(s.ravel()[k], 4))
        out.append(c)
    return out


def projf(u):
    arr = u.flag_array if u.mode == "flag" else u.metric_array
    n = lambda x: -1 if x is None else int(x)
    t = [{"t": t2tok(a), "lst": fx(b, 1e7)} for a, b in zip(u.time_array, u.lst_array)]
    axes = {"freq": [{"f": fx(f), "w": fx(w), "spw": int(s)} for f, w, s in zip(u.freq_array, u.channel_width, u.flex_spw_id_array)],
            "pol": [str(p) for p in u.polarization_array]}
    if u.type == "baseline":
        order = ["blt", "freq", "pol"]
        axes["blt"] = [dict(x, a1=int(a), a2=int(b)) for x, a, b in zip(t, u.ant_1_array, u.ant_2_array)]
    elif u.type == "antenna":
        order = ["ant", "freq", "time", "pol"]
        axes["ant"] = [int(a) for a in u.ant_array]
        axes["time"] = t
    else:
        order = ["time", "freq", "pol"]
        axes["time"] = t
    blok = u.type != "baseline" or [tuple(int(y) for y in u.baseline_to_antnums(int(x))) for x in u.baseline_array] == list(
        zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))
    ws = u.weights_square_array
    stale = [k for k in ("flag_array", "metric_array", "weights_array", "weights_square_array") if getattr(u, k) is not None and k not in u._data_params]
    shapes = [list(getattr(u, k).shape) for k in u._data_params]
    lens = [len(u.time_array), len(u.lst_array)]
    flens = [len(u.freq_array), len(u.channel_width), len(u.flex_spw_id_array)]
    tel = u.telescope
    diam = tel.antenna_diameters
    ants = sorted(({"num": int(tel.antenna_numbers[i]), "name": str(tel.antenna_names[i]),
                    "p": [fx(x, 1e3) for x in tel.antenna_positions[i]], "d": fx(diam[i], 1e3) if diam is not None else -1}
                   for i in range(len(tel.antenna_numbers))), key=lambda x: x["num"])
    meta = {"type": u.type, "mode": u.mode, "Ntimes": n(u.Ntimes), "Nbls": n(u.Nbls) if u.type == "baseline" else -1,
            "Nblts": n(u.Nblts) if u.type == "baseline" else -1, "Nfreqs": n(u.Nfreqs), "Npols": n(u.Npols), "Nspws": n(u.Nspws),
            "Nants_data": n(u.Nants_data) if u.type != "waterfall" else -1, "Nants": n(tel.Nants),
            "spws": [int(x) for x in u.spw_array], "label": str(u.label), "xkw": sorted(f"{k}={pv(v)}" for k, v in u.extra_keywords.items()),
            "fn": list(u.filename) if u.filename is not None else [], "tel": str(tel.name), "inst": str(tel.instrument),
            "xo": str(tel.x_orientation), "loc": [fx(tel.location.x.value), fx(tel.location.y.value), fx(tel.location.z.value)], "ws": ws is not None, "nant2": len(tel.antenna_names)}
    return {"order": order, "axes": axes, "cells": flag_cells(u), "shape": list(arr.shape), "shapes": shapes, "lens": lens, "flens": flens,
            "blok": bool(blok), "stale": stale, "ants": ants, "meta": meta}


def like(u):
    """A UVData, UVCal or UVFlag object as the template/source of a flag object."""
    tel = u.telescope
    diam = tel.antenna_diameters
    ants = sorted(({"num": int(tel.antenna_numbers[i]), "name": str(tel.antenna_names[i]),
                    "p": [fx(x, 1e3) for x in tel.antenna_positions[i]], "d": fx(diam[i], 1e3) if diam is not None else -1}
                   for i in range(len(tel.antenna_numbers))), key=lambda x: x["num"])
    cal = hasattr(u, "jones_array")
    ty = u.type if hasattr(u, "type") else ("antenna" if cal else "baseline")
    axes = {"freq": [{"f": fx(f), "w": fx(w), "spw": int(s)} for f, w, s in zip(u.freq_array, u.channel_width, u.flex_spw_id_array)],
            "pol": [str(p) for p in (u.jones_array if cal else u.polarization_array)]}
    t = [{"t": t2tok(a), "lst": fx(b, 1e7)} for a, b in zip(u.time_array, u.lst_array)]
    if ty == "baseline":
        axes["blt"] = [dict(x, a1=int(a), a2=int(b)) for x, a, b in zip(t, u.ant_1_array, u.ant_2_array)]
    else:
        axes["time"] = t
        if ty == "antenna":
            axes["ant"] = [int(a) for a in u.ant_array]
    fl = u.flag_array
    return {"kind": ty, "axes": axes, "cells": [[int(bool(x))] for x in fl.ravel()] if fl is not None else [], "ants": ants,
            "meta": {"spws": [int(x) for x in u.spw_array], "tel": str(tel.name), "inst": str(tel.instrument), "xo": str(tel.x_orientation),
                     "loc": [fx(tel.location.x.value), fx(tel.location.y.value), fx(tel.location.z.value)]}}
