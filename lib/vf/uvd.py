"""Making UVData objects and projecting them to the specification's state."""
import numpy as np
from astropy.coordinates import EarthLocation, SkyCoord

from pyuvdata import Telescope, UVData

from .num import fx, fxs

JD0 = 2459080.5  # the sidereal time at LOC starts again 2577.4 s later
LOC = EarthLocation.from_geodetic(21.43, -30.72, 1051.0)

LINPOLS = [-5, -6, -7, -8]
CIRCPOLS = [-1, -2, -3, -4]
STOKES = [1, 2, 3, 4]


def t2tok(jd):
    """JD -> 0.1 ms ticks since JD0."""
    return fx((jd - JD0) * 86400.0, 1e4)


def blnums(arr):
    """Baseline numbers as 65536 + 8192*a1 + a2, decoded here: one numbering scheme for the whole array."""
    v = [int(x) for x in np.asarray(arr).ravel()]
    if not v:
        return []
    if min(v) >= 2**22 + 2**16:
        p = [((x - 2**22 - 2**16) >> 31, (x - 2**22 - 2**16) & (2**31 - 1)) for x in v]
    elif min(v) >= 2**16:
        p = [((x - 2**16) // 2048, (x - 2**16) % 2048) for x in v]
    else:
        p = [(x // 256, x % 256) for x in v]
    return [fx(65536 + 8192 * a + b) for a, b in p]


HUGE = [0, 1, 5, 700, 2046, 2047, 2048, 3000, 5000, 8000]


def make_tel(rng, nants=None, name="vfscope", big=False, diam=None, x_orient=None, unsorted=True):
    nants = nants or int(rng.integers(3, 6))
    pool = [0, 1, 2, 3, 5, 7, 12, 20, 41, 99] if not big else [0, 1, 3, 250, 255, 256, 300, 700, 2040, 2047]
    pool = HUGE if big == "huge" else pool
    nums = rng.choice(pool, nants, replace=False)
    if not unsorted:
        nums = np.sort(nums)
    pos = np.round(rng.uniform(-60, 60, (nants, 3)), 2)
    names = [f"A{n:02d}x" for n in nums]
    kw = {}
    if diam if diam is not None else rng.random() < 0.5:
        kw["antenna_diameters"] = np.round(rng.uniform(1, 20, nants), 1)
    xo = x_orient if x_orient is not None else (rng.choice(["east", "north"]) if rng.random() < 0.5 else None)
    tel = Telescope.new(name=name, location=LOC, antenna_positions=pos, antenna_names=names,
                        antenna_numbers=nums, instrument="vfinst", x_orientation=xo, **kw)
    return tel


def make_uvd(rng, tel=None, ntimes=None, nfreqs=None, npols=None, nspws=None, ragged=None, shuffle=None,
             npc=None, scan=None, eq=None, flexpol=False, meta_only=False, pols=None, conj_mix=None,
             nbls=None, tok0=1, int_vary=None, autos=None, dt=None, dtype=None, times=None, freqs=None,
             x_orient=None, projected=None, big=None, flags=True, same_width=None, allbls=False, even=False):
    """A random, valid UVData object whose visibilities are unique integer tokens."""
    if tel is None and big is None:
        big = "huge" if rng.random() < 0.08 else False
    tel = tel or make_tel(rng, x_orient=x_orient, big=big)
    ants = list(tel.antenna_numbers)
    ntimes = ntimes or int(rng.integers(1, 4))
    dt = dt or float(rng.choice([10.0, 20.0, 32.5]))
    if times is None:
        t0 = float(rng.integers(0, 50)) * 100.0
        if t0 % 700 == 300 and ntimes > 1:
            t0 = 2570.0 - dt * ((ntimes - 1) // 2)  # the sidereal time starts again between two of the times
        times = JD0 + (t0 + dt * np.arange(ntimes)) / 86400.0
    ntimes = len(times)
    pairs = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
    if autos is False:
        pairs = [p for p in pairs if p[0] != p[1]]
    if not allbls:
        nb = nbls or int(rng.integers(1, min(len(pairs), 6) + 1))
        pairs = [pairs[i] for i in rng.choice(len(pairs), min(nb, len(pairs)), replace=False)]
    conj_mix = conj_mix if conj_mix is not None else bool(rng.random() < 0.6)
    if conj_mix:
        pairs = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in pairs]
    blts = [(t, p) for t in range(ntimes) for p in pairs]
    ragged = ragged if ragged is not None else bool(rng.random() < 0.35)
    if ragged and len(blts) > 2:
        keep = np.sort(rng.choice(len(blts), int(rng.integers(max(1, len(blts) // 2), len(blts) + 1)), replace=False))
        blts = [blts[i] for i in keep]
    shuffle = shuffle if shuffle is not None else rng.choice(["no", "bl", "rand"])
    if shuffle == "rand":
        blts = [blts[i] for i in rng.permutation(len(blts))]
    elif shuffle == "bl":
        blts = sorted(blts, key=lambda x: (pairs.index(x[1]), x[0]))
    nblts = len(blts)
    nspws = nspws or int(rng.choice([1, 1, 2, 3]))
    if freqs is None:
        nfreqs = nfreqs or int(rng.integers(max(1, nspws), 6))
        nspws = min(nspws, nfreqs)
        if flexpol:
            nper = max(1, nfreqs // nspws)
            nfreqs = nper * nspws
            spw_of = np.repeat(np.arange(nspws), nper)
        elif even:
            spw_of = np.arange(nfreqs) * nspws // nfreqs
        else:
            spw_of = np.sort(np.concatenate([np.arange(nspws), rng.integers(0, nspws, nfreqs - nspws)]))
        base_w = float(rng.choice([1e5, 2.5e5]))
        freq = np.zeros(nfreqs)
        width = np.zeros(nfreqs)
        for s in range(nspws):
            m = spw_of == s
            w = base_w if (same_width or flexpol or rng.random() < 0.7) else base_w * 2
            f0 = 1.0e8 + (0 if flexpol else s * 5e6)
            sgn = -1 if (not flexpol and not even and rng.random() < 0.2) else 1
            freq[m] = f0 + sgn * w * np.arange(m.sum())
            width[m] = w
    else:
        freq, width, spw_of = freqs
        nfreqs = len(freq)
        nspws = len(np.unique(spw_of))
    spw_ids = np.sort(rng.choice([0, 1, 2, 3, 7, 11], nspws, replace=False))
    if rng.random() < 0.2 and not even:
        spw_ids = rng.permutation(spw_ids)
    flex_id = spw_ids[spw_of]
    if pols is None:
        base = [LINPOLS, LINPOLS, CIRCPOLS, STOKES][int(rng.integers(0, 4))]
        npols = npols or int(rng.choice([1, 2, 4]))
        pols = {1: [base[int(rng.integers(0, 4))]], 2: base[:2], 4: base, 3: base[:3]}[npols]
        if rng.random() < 0.2:
            pols = list(rng.permutation(pols))
    if flexpol:
        pols = [-5]
    pols = np.array(pols)
    ap = np.array([p for _, p in blts])
    tarr = np.asarray(times)[[t for t, _ in blts]]
    it = np.full(nblts, dt)
    if int_vary if int_vary is not None else rng.random() < 0.3:
        it = np.where(rng.random(nblts) < 0.5, dt, dt / 2)
    npc = npc or int(rng.choice([1, 1, 2, 3]))
    cat = {}
    ids = rng.choice([0, 1, 2, 5, 9], npc, replace=False)
    for k, cid in enumerate(ids):
        proj = projected if projected is not None else rng.random() < 0.6
        if proj:
            cat[int(cid)] = {"cat_name": f"src{k}", "cat_type": "sidereal", "cat_lon": 0.3 + 0.4 * k,
                             "cat_lat": -0.5 + 0.1 * k, "cat_frame": "icrs"}
        else:
            cat[int(cid)] = {"cat_name": f"unp{k}", "cat_type": "unprojected"}
    pcid = rng.choice(ids, nblts) if npc > 1 else np.full(nblts, int(ids[0]))
    kw = {}
    shape = (nblts, nfreqs, len(pols))
    n = int(np.prod(shape))
    dtype = dtype or (np.complex64 if rng.random() < 0.5 else np.complex128)
    if not meta_only:
        tok = np.arange(tok0, tok0 + n).reshape(shape)
        kw["data_array"] = (tok + 1j * (tok * 2 + 1)).astype(dtype)
        kw["flag_array"] = rng.random(shape) < (0.3 if flags else 0)
        kw["nsample_array"] = rng.integers(0, 6, shape).astype(np.float32 if dtype == np.complex64 else float)
    uvd = UVData.new(freq_array=freq, channel_width=width, polarization_array=pols, times=tarr, antpairs=ap,
                     do_blt_outer=False, telescope=tel, integration_time=it, flex_spw_id_array=flex_id,
                     phase_center_catalog=cat, phase_center_id_array=pcid.astype(int),
                     extra_keywords={"vfkey": int(rng.integers(0, 99))},
                     vis_units=str(rng.choice(["Jy", "uncalib"])), **kw)
    uvd.spw_array = np.array(spw_ids)
    if scan if scan is not None else rng.random() < 0.3:
        uvd.scan_number_array = rng.integers(1, 5, nblts)
    if eq if eq is not None else rng.random() < 0.3:
        uvd.eq_coeffs = rng.integers(1, 9, (tel.Nants, nfreqs)).astype(float)
        uvd.eq_coeffs_convention = str(rng.choice(["multiply", "divide"]))
    if flexpol:
        uvd.flex_spw_polarization_array = np.array(rng.permutation(LINPOLS)[:nspws])
        uvd.polarization_array = np.array([0])
    uvd.check()
    return uvd


def pv(v):
    """A keyword value as text: numbers of any type print alike, strings, booleans and numbers differ."""
    if v is None or isinstance(v, (bool, np.bool_)):
        return str(v)
    if isinstance(v, (str, bytes)):
        return repr(str(v))
    return ",".join(f"{float(x):.10g}" for x in np.atleast_1d(v).ravel())


def pcat(uvd):
    out = []
    for cid, d in uvd.phase_center_catalog.items():
        e = {k: v for k, v in d.items() if v is not None}
        items = []
        for k in sorted(e):
            v = e[k]
            if isinstance(v, str):
                items.append(f"{k}={v}")
            else:
                items.append(f"{k}=" + ",".join(f"{float(x):.9g}" for x in np.atleast_1d(v)))
        out.append({"id": int(cid), "name": str(d["cat_name"]), "type": str(d["cat_type"]), "rest": ";".join(items)})
    return sorted(out, key=lambda x: x["id"])


def ptel(tel):
    n = tel.Nants
    d = tel.antenna_diameters
    return {
        "name": str(tel.name), "inst": str(tel.instrument), "xo": str(tel.x_orientation),
        "loc": [fx(tel.location.x.value, 100), fx(tel.location.y.value, 100), fx(tel.location.z.value, 100)],
        "nants": int(n),
        "ants": [{"num": int(tel.antenna_numbers[i]), "name": str(tel.antenna_names[i]),
                  "pos": fxs(tel.antenna_positions[i], 1000),
                  "diam": fx(d[i], 1000) if d is not None else -1} for i in range(len(tel.antenna_numbers))],
        "lens": [len(tel.antenna_numbers), len(tel.antenna_names), len(tel.antenna_positions),
                 len(d) if d is not None else int(n)],
    }


def cells(uvd, dscale=1.0, nscale=1000.0):
    if uvd.data_array is None:
        return []
    d = np.asarray(uvd.data_array).ravel()
    f = np.asarray(uvd.flag_array).ravel()
    s = np.asarray(uvd.nsample_array).ravel()
    return [[fx(d[i].real, dscale), fx(d[i].imag, dscale), int(f[i]), fx(s[i], nscale)] for i in range(d.size)]


def proj(uvd, dscale=1.0, uvws=True):
    """Project a UVData object to the abstract state of spec/UVD.tla."""
    nb, nf = len(uvd.time_array), len(uvd.freq_array)
    scan = uvd.scan_number_array
    names = {cid: d["cat_name"] for cid, d in uvd.phase_center_catalog.items()}
    rest = {e["id"]: e["rest"] for e in pcat(uvd)}
    blt = []
    bls = blnums(uvd.baseline_array)
    for i in range(nb):
        pid = int(uvd.phase_center_id_array[i])
        blt.append({
            "t": t2tok(uvd.time_array[i]), "lst": fx(uvd.lst_array[i], 1e7), "a1": int(uvd.ant_1_array[i]),
            "a2": int(uvd.ant_2_array[i]), "bl": bls[i], "it": fx(uvd.integration_time[i], 1000),
            "uvw": fxs(uvd.uvw_array[i], 1000) if uvws else [],
            "pcid": pid, "pc": str(names.get(pid, "?missing")), "pcr": rest.get(pid, ""),
            "scan": int(scan[i]) if scan is not None else -1,
            "app": [fx(uvd.phase_center_app_ra[i], 1e6), fx(uvd.phase_center_app_dec[i], 1e6),
                    fx(uvd.phase_center_frame_pa[i], 1e6)],
        })
    eq = uvd.eq_coeffs
    fsp = uvd.flex_spw_polarization_array
    spwpol = {int(s): int(fsp[k]) for k, s in enumerate(uvd.spw_array)} if fsp is not None else {}
    freq = []
    for j in range(nf):
        spw = int(uvd.flex_spw_id_array[j])
        freq.append({"f": fx(uvd.freq_array[j]), "w": fx(np.atleast_1d(uvd.channel_width)[j]), "spw": spw,
                     "fp": spwpol.get(spw, 0), "eq": fxs(eq[:, j], 1000) if eq is not None else []})
    lens = []
    for nm in ("lst_array", "ant_1_array", "ant_2_array", "baseline_array", "integration_time", "uvw_array",
               "phase_center_id_array", "phase_center_app_ra", "phase_center_app_dec", "phase_center_frame_pa"):
        lens.append(len(getattr(uvd, nm)))
    if scan is not None:
        lens.append(len(scan))
    order = uvd.blt_order
    return {
        "order": ["blt", "freq", "pol"],
        "axes": {"blt": blt, "freq": freq, "pol": [{"p": int(p)} for p in uvd.polarization_array]},
        "cells": cells(uvd, dscale),
        "shape": [list(a.shape) for a in (uvd.data_array, uvd.flag_array, uvd.nsample_array) if a is not None],
        "lens": lens,
        "meta": {
            "Nblts": int(uvd.Nblts), "Nbls": int(uvd.Nbls), "Ntimes": int(uvd.Ntimes), "Nfreqs": int(uvd.Nfreqs),
            "Npols": int(uvd.Npols), "Nspws": int(uvd.Nspws), "Nants": int(uvd.Nants_data),
            "spws": [int(s) for s in uvd.spw_array], "order": [str(x) for x in order] if order is not None else [],
            "rect": {True: "T", False: "F", None: "N"}[None if uvd.blts_are_rectangular is None else bool(uvd.blts_are_rectangular)],
            "tfast": {True: "T", False: "F", None: "N"}[None if uvd.time_axis_faster_than_bls is None else bool(uvd.time_axis_faster_than_bls)],
            "units": str(uvd.vis_units), "flexpol": fsp is not None, "only": uvd.data_array is None,
            "eqconv": str(uvd.eq_coeffs_convention),
            "xkw": sorted(f"{k}={pv(v)}" for k, v in uvd.extra_keywords.items()),
            "opt": [f"{k}={pv(getattr(uvd, k))}" for k in ("dut1", "earth_omega", "gst0", "rdate", "timesys",
                    "pol_convention", "uvplane_reference_time") if getattr(uvd, k) is not None],
        },
        "tel": ptel(uvd.telescope),
        "cat": pcat(uvd),
    }


def icrs(lon, lat, frame, epoch):
    """Direction in ICRS (astropy, without pyuvdata's own transformations)."""
    if frame == "icrs":
        return lon, lat
    kw = {}
    if frame == "fk4":
        kw["equinox"] = f"B{epoch or 1950.0}"
    elif frame == "fk5":
        kw["equinox"] = f"J{epoch or 2000.0}"
    c = SkyCoord(lon, lat, unit="rad", frame=frame, **kw).icrs
    return c.ra.rad, c.dec.rad


def proj_io(uvd, upper=True, nlen=20):
    """proj for formats that hold the phase centers and keywords in their own way."""
    p = proj(uvd)
    for e in p["cat"]:
        d = uvd.phase_center_catalog[e["id"]]
        e["rest"] = ""
        e["name"] = e["name"][:nlen]
        e["frame"] = str(d.get("cat_frame"))
        lon, lat = d.get("cat_lon"), d.get("cat_lat")
        if d["cat_type"] == "sidereal":
            lon, lat = icrs(lon, lat, d["cat_frame"], d.get("cat_epoch"))
        e["lon"] = fxs(np.atleast_1d(lon), 1e6) if lon is not None else []
        e["lat"] = fxs(np.atleast_1d(lat), 1e6) if lat is not None else []
    for b in p["axes"]["blt"]:
        b["pcr"] = ""
        b["pc"] = b["pc"][:nlen]
    kw = {k: pv(getattr(uvd, k)) for k in ("dut1", "earth_omega", "gst0", "rdate", "timesys", "pol_convention")
          if getattr(uvd, k) is not None}
    kw.update({(k.upper() if upper else k): pv(v) for k, v in uvd.extra_keywords.items()})
    p["kw"] = kw
    return p


def enu_table(tel):
    """ENU antenna positions (mm), computed here from geodetic latitude and longitude."""
    lat, lon = tel.location.lat.rad, tel.location.lon.rad
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    n = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    rot = np.array([e, n, u])
    enu = tel.antenna_positions @ rot.T
    return {str(int(a)): fxs(enu[i], 1000) for i, a in enumerate(tel.antenna_numbers)}


def grid_tel(rng, nants=None, name="vfgrid", spacing=10.0, **kw):
    """Antennas on a regular ENU grid (redundant baselines, zero components)."""
    lat, lon = LOC.lat.rad, LOC.lon.rad
    e = np.array([-np.sin(lon), np.cos(lon), 0.0])
    n = np.array([-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)])
    u = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    nants = nants or int(rng.integers(3, 6))
    pts = [(i, j, k) for i in range(3) for j in range(2) for k in range(2)]
    pts = [pts[i] for i in rng.choice(len(pts), nants, replace=False)]
    enu = np.array(pts, dtype=float) * spacing
    pos = enu @ np.array([e, n, u])
    nums = rng.permutation([0, 1, 2, 3, 5, 7, 12, 20, 41, 99])[:nants]
    return Telescope.new(name=name, location=LOC, antenna_positions=pos, antenna_names=[f"A{x:02d}x" for x in nums],
                         antenna_numbers=nums, instrument="vfinst", **kw)
