"""Making UVCal objects and projecting them to the state of spec/CAL.tla."""
import numpy as np

from pyuvdata import UVCal

from .num import fx, fxs
from .uvd import JD0, make_tel, pv, ptel, t2tok

LINJ = [-5, -6, -7, -8]
CIRCJ = [-1, -2, -3, -4]


def make_cal(rng, tel=None, kind=None, nants=None, nspws=None, nfreqs=None, ntimes=None, njones=None, jones=None,
             trange=None, flexj=False, quality=None, tquality=None, pcs=None, scan=None, refarr=None, meta_only=False,
             tok0=1, shuffle=None, even=False, dtype=None, t0=None, style=None, flags=True, dt=None, spw_ids=None):
    tel = tel or make_tel(rng, x_orient=str(rng.choice(["east", "north"])))
    kind = kind or str(rng.choice(["gain", "gain", "wide", "delay"]))
    shuffle = shuffle if shuffle is not None else bool(rng.random() < 0.6)
    ants = list(tel.antenna_numbers)
    na = nants or int(rng.integers(1, min(len(ants), 4) + 1))
    ants = rng.choice(ants, na, replace=False)
    if not shuffle:
        ants = np.sort(ants)
    ntimes = ntimes or int(rng.integers(1, 4))
    dt = dt or float(rng.choice([20.0, 100.0]))
    if t0 is None:
        t0 = float(rng.integers(0, 800)) * 100.0
        if t0 % 700 == 300 and ntimes > 1:
            t0 = 2570.0 - 1.5 * dt * ((ntimes - 1) // 2)  # the sidereal time starts again between two of the times
    tt = t0 + 1.5 * dt * np.arange(ntimes)
    if shuffle:
        tt = rng.permutation(tt)
    times = JD0 + tt / 86400.0
    trange = trange if trange is not None else bool(rng.random() < 0.3)
    nspws = nspws or int(rng.choice([1, 1, 2, 3]))
    if jones is None:
        base = LINJ if rng.random() < 0.6 else CIRCJ
        nj = njones or int(rng.choice([1, 2, 4]))
        jones = list(rng.choice(base, nj, replace=False)) if shuffle else base[:nj]
    if flexj:
        jones = [jones[0]]
    kw = {}
    if kind == "gain":
        nfreqs = max(nfreqs or int(rng.integers(nspws, 6)), nspws)
        if even:
            nfreqs = nfreqs // nspws * nspws
            spw_of = np.arange(nfreqs) * nspws // nfreqs
        else:
            spw_of = np.sort(np.concatenate([np.arange(nspws), rng.integers(0, nspws, nfreqs - nspws)]))
        w = float(rng.choice([1e5, 2.5e5]))
        freq = np.zeros(nfreqs)
        for s in range(nspws):
            m = spw_of == s
            sgn = -1 if (not even and rng.random() < 0.2) else 1
            freq[m] = 1e8 + s * 5e6 + sgn * w * np.arange(m.sum())
        kw.update(freq_array=freq, channel_width=np.where(spw_of == 0, w, w * (1 if even else 2)))
        nfax = nfreqs
    else:
        lo = 1e8 + 5e6 * np.arange(nspws)
        if shuffle and not even:
            lo = rng.permutation(lo)
        kw.update(freq_range=np.stack([lo, lo + 4e6], axis=1), cal_type="gain" if kind == "wide" else "delay")
        nfax = nspws
    ids = np.asarray(spw_ids) if spw_ids is not None else np.sort(rng.choice([0, 1, 2, 3, 7, 11], nspws, replace=False))
    if shuffle and not even and rng.random() < 0.5 and spw_ids is None:
        ids = rng.permutation(ids)
    if kind == "gain":
        kw["flex_spw_id_array"] = ids[spw_of]
    shape = (na, nfax, ntimes, len(jones))
    n = int(np.prod(shape))
    if not meta_only:
        tok = np.arange(tok0, tok0 + n).reshape(shape)
        d = {}
        if kind == "delay":
            d["delay_array"] = tok * 1e-9
        else:
            d["gain_array"] = (tok + 1j * (2 * tok + 1)).astype(dtype or (np.complex64 if rng.random() < 0.4 else np.complex128))
        d["flag_array"] = rng.random(shape) < (0.3 if flags else 0)
        if quality if quality is not None else rng.random() < 0.6:
            d["quality_array"] = (10000 + tok).astype(float)
        if tquality if tquality is not None else rng.random() < 0.4:
            d["total_quality_array"] = np.arange(20000 + tok0, 20000 + tok0 + n // na).reshape(shape[1:]).astype(float)
        kw["data"] = d
    style = style or str(rng.choice(["sky", "redundant"]))
    if style == "sky":
        kw.update(ref_antenna_name=str(rng.choice(tel.antenna_names)), sky_catalog="vfcat")
    if trange:
        kw["time_range"] = np.stack([times - 0.5 * dt / 86400.0, times + 0.5 * dt / 86400.0], axis=1)
    else:
        kw["time_array"] = times
    c = UVCal.new(cal_style=style, gain_convention=str(rng.choice(["divide", "multiply"])), jones_array=np.array(jones),
                  telescope=tel, ant_array=np.array(ants), integration_time=np.round(rng.choice([dt, dt / 2], ntimes), 3), **kw)
    c.history = "made by vf. " + c.pyuvdata_version_str
    c.spw_array = ids
    c.extra_keywords = {"vfkey": int(rng.integers(0, 99))}
    if scan if scan is not None else rng.random() < 0.3:
        c.scan_number_array = rng.integers(1, 5, ntimes)
    if style == "sky" and (refarr if refarr is not None else rng.random() < 0.3):
        c.ref_antenna_name = "various"
        c.ref_antenna_array = rng.choice(tel.antenna_numbers, ntimes)
    if pcs if pcs is not None else rng.random() < 0.4:
        npc = int(rng.choice([1, 2]))
        pids = rng.choice([0, 1, 2, 5, 9], npc, replace=False)
        c.phase_center_catalog = {}
        for k, cid in enumerate(pids):
            c._add_phase_center(f"src{k}", cat_type="sidereal", cat_lon=0.3 + 0.4 * k, cat_lat=-0.5 + 0.1 * k, cat_frame="icrs", cat_id=int(cid))
        c.phase_center_id_array = rng.choice(pids, ntimes).astype(int)
    if flexj:
        base = LINJ if jones[0] in LINJ else CIRCJ
        c.flex_jones_array = np.array(rng.permutation(base)[:nspws])
        c.jones_array = np.array([0])
    for k, v in (("gain_scale", "Jy"), ("observer", "vf"), ("git_hash_cal", "abc"), ("git_origin_cal", "here"), ("Nsources", 4),
                 ("diffuse_model", "gsm")):
        if rng.random() < 0.3:
            setattr(c, k, v)
    if c.gain_scale is not None and rng.random() < 0.5:
        c.pol_convention = "avg"
    if style == "sky" and rng.random() < 0.3:
        c.baseline_range = np.array([3.0, 250.0])
    c.check()
    return c


SCAL = ("gain_scale", "observer", "git_hash_cal", "git_origin_cal", "Nsources", "diffuse_model", "sky_catalog", "ref_antenna_name",
        "pol_convention", "baseline_range")


def ccat(c):
    out = []
    for cid, d in (c.phase_center_catalog or {}).items():
        items = [f"{k}={v}" if isinstance(v, str) else f"{k}=" + ",".join(f"{float(x):.9g}" for x in np.atleast_1d(v))
                 for k, v in sorted(d.items()) if v is not None]
        out.append({"id": int(cid), "name": str(d["cat_name"]), "rest": ";".join(items)})
    return sorted(out, key=lambda x: x["id"])


def projc(c, gscale=1.0, dscale=1e9, qscale=10.0):
    """Project a UVCal object."""
    nt = int(len(c.time_array) if c.time_array is not None else len(c.time_range))
    cat = {e["id"]: e for e in ccat(c)}
    haspc = c.phase_center_id_array is not None

    def v(a, i, s):
        return fx(a[i], s) if a is not None else -1

    tm = []
    for i in range(nt):
        pid = int(c.phase_center_id_array[i]) if haspc else -1
        tm.append({
            "t": t2tok(c.time_array[i]) if c.time_array is not None else -1,
            "lo": t2tok(c.time_range[i, 0]) if c.time_range is not None else -1,
            "hi": t2tok(c.time_range[i, 1]) if c.time_range is not None else -1,
            "lst": v(c.lst_array, i, 1e7),
            "llo": fx(c.lst_range[i, 0], 1e7) if c.lst_range is not None else -1,
            "lhi": fx(c.lst_range[i, 1], 1e7) if c.lst_range is not None else -1,
            "it": v(c.integration_time, i, 1000), "scan": v(c.scan_number_array, i, 1), "ref": v(c.ref_antenna_array, i, 1),
            "pcid": pid, "pc": cat[pid]["name"] if pid in cat else ("?missing" if haspc else "none"),
            "pcr": cat[pid]["rest"] if pid in cat else ""})
    fj = c.flex_jones_array
    fjof = {int(s): int(fj[k]) for k, s in enumerate(c.spw_array)} if fj is not None else {}
    fr = []
    if c.wide_band:
        for j in range(len(c.spw_array)):
            s = int(c.spw_array[j])
            fr.append({"f": 0, "w": 0, "spw": s, "fj": fjof.get(s, 0), "lo": fx(c.freq_range[j, 0]), "hi": fx(c.freq_range[j, 1])})
    else:
        for j in range(len(c.freq_array)):
            s = int(c.flex_spw_id_array[j])
            fr.append({"f": fx(c.freq_array[j]), "w": fx(c.channel_width[j]), "spw": s, "fj": fjof.get(s, 0), "lo": 0, "hi": 0})
    data = c.gain_array if c.cal_type == "gain" else c.delay_array
    only = data is None
    cells = []
    if not only:
        d, f = np.asarray(data).ravel(), np.asarray(c.flag_array).ravel()
        q = np.asarray(c.quality_array).ravel() if c.quality_array is not None else None
        if c.cal_type == "gain":
            cells = [[fx(d[i].real, gscale), fx(d[i].imag, gscale), int(f[i]), fx(q[i], qscale) if q is not None and i < len(q) else -1]
                     for i in range(d.size)]
        else:
            cells = [[fx(d[i], dscale), 0, int(f[i]), fx(q[i], qscale) if q is not None and i < len(q) else -1] for i in range(d.size)]
    tq = c.total_quality_array
    shapes = [list(a.shape) for a in (data, c.flag_array, c.quality_array) if a is not None]
    tlens = [len(getattr(c, k)) for k in ("time_array", "time_range", "lst_array", "lst_range", "integration_time",
             "scan_number_array", "ref_antenna_array", "phase_center_id_array") if getattr(c, k) is not None]
    slens = [len(getattr(c, k)) for k in ("spw_array", "flex_jones_array", "freq_range") if getattr(c, k) is not None]
    flens = [len(getattr(c, k)) for k in ("freq_array", "channel_width", "flex_spw_id_array") if getattr(c, k) is not None]
    return {
        "order": ["ant", "freq", "time", "jones"],
        "axes": {"ant": [{"n": int(a)} for a in c.ant_array], "freq": fr, "time": tm,
                 "jones": [{"j": int(j)} for j in c.jones_array]},
        "cells": cells, "tq": fxs(tq, qscale) if tq is not None else [],
        "shape": shapes, "tqshape": [list(tq.shape)] if tq is not None else [],
        "tlens": tlens, "slens": slens, "flens": flens,
        "meta": {"Nants": int(c.Nants_data), "Nfreqs": int(c.Nfreqs), "Ntimes": int(c.Ntimes), "Njones": int(c.Njones),
                 "Nspws": int(c.Nspws), "spws": [int(s) for s in c.spw_array], "type": str(c.cal_type), "style": str(c.cal_style),
                 "wide": bool(c.wide_band), "conv": str(c.gain_convention), "only": only, "hasq": c.quality_array is not None,
                 "refname": str(c.ref_antenna_name), "hasref": c.ref_antenna_array is not None,
                 "hasscan": c.scan_number_array is not None, "flexj": fj is not None, "trange": c.time_range is not None, "haspc": haspc,
                 "scal": [f"{k}={pv(getattr(c, k))}" for k in SCAL if getattr(c, k) is not None],
                 "xkw": sorted(f"{k}={pv(v)}" for k, v in c.extra_keywords.items())},
        "tel": ptel(c.telescope),
        "cat": ccat(c),
    }
