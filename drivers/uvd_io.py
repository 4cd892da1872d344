"""C09...: reading and writing visibility files."""
import os

import h5py
import numpy as np

from pyuvdata import utils as uvutils
from pyuvdata import UVData
from pyuvdata.uvdata import FastUVH5Meta
from uvd_select import gen_select, runs
from vf.harness import call
from vf.num import fx, fxs
from vf.uvd import blnums, enu_table, make_tel, make_uvd, proj, proj_io, t2tok

NOCHK = {"check_autos": False}
RDCHK = {"check_autos": False, "fix_autos": False}


def real_autos(u):
    """Autocorrelations are real (files are checked for that)."""
    if u.data_array is not None:
        m = u.ant_1_array == u.ant_2_array
        u.data_array[m] = u.data_array[m].real


def dress(rng, u):
    """Optional metadata."""
    for k, v in (("dut1", -0.25), ("earth_omega", 360.98), ("gst0", 12.5), ("rdate", "2020-05-31"), ("timesys", "UTC"),
                 ("uvplane_reference_time", 7), ("pol_convention", "avg")):
        if rng.random() < 0.25 and (k != "pol_convention" or u.vis_units != "uncalib"):
            setattr(u, k, v)
    xk = {"vfint": 3, "vffloat": 2.5, "vfstr": "text here", "vfnone": None, "vfbool": True}
    for k, v in xk.items():
        if rng.random() < 0.3:
            u.extra_keywords[k] = v
    if rng.random() < 0.3:
        u.reorder_blts(order=str(rng.choice(["time", "baseline", "ant1"])))
    if rng.random() < 0.3:
        u.set_rectangularity(force=True)
    u.history = "made by vf. " + u.pyuvdata_version_str


def out_ev(rec, op_, out_, res_, **kw):
    rec.ev(op_, out=out_, err=str(res_) if out_ == "error" else "", **kw)


# ------------------------------------------------------------------ UVH5
def h5_write_kw(rng):
    kw = {}
    a = {"bad": False}
    r = rng.random()
    if r < 0.2:
        kw["data_write_dtype"] = np.dtype([("r", "<i4"), ("i", "<i4")])
    elif r < 0.3:
        kw["data_write_dtype"] = np.dtype([("r", "<i2"), ("i", "<i2")])
    elif r < 0.4:
        kw["data_write_dtype"] = "c8"
    elif r < 0.5:
        kw["data_write_dtype"] = "c16"
    elif r < 0.55:
        kw["data_write_dtype"] = np.dtype([("r", "<i4"), ("i", "<i2")])
        a["bad"] = True
    if rng.random() < 0.3:
        kw["data_compression"] = str(rng.choice(["lzf", "gzip"]))
    return kw, a


def h5_read(rng, rec, u, path, r, regs):
    a, kw = ({"keep": True}, {})
    if rng.random() < 0.75:
        a, kw = gen_select(rng, u)
    a["rd"] = bool(rng.random() < 0.85)
    kw.update(read_data=a["rd"], remove_flex_pol=False, multidim_index=bool(rng.random() < 0.4), **RDCHK)
    if rng.random() < 0.3:
        kw["run_check_acceptability"] = False
    if rng.random() < 0.2:
        kw["data_array_dtype"] = np.complex64
    n = UVData()
    if rng.random() < 0.5:
        out, res = call(n.read, path, file_type="uvh5", **kw)
    else:
        out, res = call(n.read_uvh5, path, **kw)
    out_ev(rec, "Read", out, res, path=path, fmt="uvh5", r=r, w=[r], args=a, post={r: proj(n)} if out == "ok" else {r: proj(u)})
    return n if out == "ok" else None


def h5_meta(rng, rec, u, path, regs):
    keys = []
    ants = [int(x) for x in u.telescope.antenna_numbers]
    pairs = [tuple(int(y) for y in x) for x in set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))]
    pols = [int(p) for p in u.polarization_array] + [-5, -7, -8]
    for _ in range(6):
        k = pairs[int(rng.integers(0, len(pairs)))] if rng.random() < 0.7 else (int(rng.choice(ants)), int(rng.choice(ants)))
        if rng.random() < 0.5:
            k = (k[1], k[0])
        if rng.random() < 0.6:
            k = k + (int(rng.choice(pols)),)
        keys.append(k)
    from pyuvdata import utils as uvutils

    xo = u.telescope.x_orientation

    def get():
        m = FastUVH5Meta(path) if rng.random() < 0.6 else FastUVH5Meta(path, blt_order="determine")
        order = m.blt_order if rng.random() < 0.5 else m.get_blt_order()
        first = ["times", "antpairs", "lsts", "unique_ants", "time_axis_faster_than_bls", "baseline_array"]
        for k in rng.permutation(first)[:2]:
            getattr(m, k)
        if rng.random() < 0.3:
            m.close()
        r = {"nblts": int(m.Nblts), "nbls": int(m.Nbls), "ntimes": int(m.Ntimes), "npols": int(m.Npols), "nfreqs": int(m.Nfreqs),
             "times": [t2tok(x) for x in m.times], "lsts": [fx(x, 1e7) for x in m.lsts],
             "pairs": [[int(x) for x in p] for p in m.antpairs], "ants": [int(x) for x in m.unique_ants],
             "bls": blnums(m.baseline_array), "ubls": blnums(m.unique_baseline_array),
             "pols": [uvutils.polstr2num(p, x_orientation=xo) for p in m.pols],
             "rect": bool(m.blts_are_rectangular), "tfast": bool(m.time_axis_faster_than_bls),
             "order": [str(x) for x in order] if order is not None else [],
             "keys": [{"key": list(k), "has": bool(m.has_key(k if len(k) == 2 else (k[0], k[1], uvutils.polnum2str(k[2], x_orientation=xo))))} for k in keys],
             "units": str(m.vis_units),
             "ants_tel": [[int(n), str(s)] for n, s in zip(m.antenna_numbers, m.antenna_names)],
             "enu": [fxs(p, 1000) for p in m.antpos_enu], "uvd": proj(m.to_uvdata())}
        r["uvd"]["shape"] = []
        m.close()
        return r
    out, res = call(get)
    out_ev(rec, "Meta", out, res, path=path, args={"enu": enu_table(u.telescope)}, res=res if out == "ok" else {})


def h5_scenario(rng, rec):
    path = os.path.join(rec.scratch, "a.uvh5")
    u = make_uvd(rng, flexpol=bool(rng.random() < 0.1), meta_only=bool(rng.random() < 0.05), scan=False)
    dress(rng, u)
    real_autos(u)
    rec.ev("Make", o="a", post={"a": proj(u)})
    kw, a = h5_write_kw(rng)
    a["clobber"] = False
    out, res = call(u.write_uvh5, path, **kw, **NOCHK)
    out_ev(rec, "Write", out, res, o="a", path=path, fmt="uvh5", w=[], args=a, post={"a": proj(u)})
    if out == "error":
        return
    if rng.random() < 0.3:
        v = make_uvd(rng, tok0=700, scan=False)
        real_autos(v)
        rec.ev("Make", o="v", post={"v": proj(v)})
        kw, a = h5_write_kw(rng)
        a["clobber"] = bool(rng.random() < 0.5)
        out, res = call(v.write_uvh5, path, clobber=a["clobber"], **kw, **NOCHK)
        if a["bad"] and a["clobber"]:
            return
        out_ev(rec, "Write", out, res, o="v", path=path, fmt="uvh5", w=[], args=a, post={"v": proj(v)})
        if out == "ok":
            u = v
    for _ in range(2):
        h5_read(rng, rec, u, path, "r", ["a"])
    if rng.random() < 0.5 and u.flex_spw_polarization_array is None:
        h5_meta(rng, rec, u, path, ["a"])


def concrete_cells(d, f, n):
    d, f, n = d.ravel(), f.ravel(), n.ravel()
    return [[fx(d[i].real), fx(d[i].imag), int(f[i]), fx(n[i], 1000)] for i in range(d.size)]


def part_scenario(rng, rec):
    path = os.path.join(rec.scratch, "p.uvh5")
    u = make_uvd(rng, meta_only=bool(rng.random() < 0.5), scan=False, nfreqs=int(rng.integers(1, 6)))
    dress(rng, u)
    real_autos(u)
    rec.ev("Make", o="a", post={"a": proj(u)})
    kw = {}
    r = rng.random()
    if r < 0.4:
        kw["data_write_dtype"] = np.dtype([("r", "<i4"), ("i", "<i4")])
    elif r < 0.5:
        kw["data_write_dtype"] = "c8"
    out, res = call(u.initialize_uvh5_file, path, **kw)
    out_ev(rec, "Init", out, res, o="a", path=path, w=[], args={"clobber": False}, post={"a": proj(u)})
    tok = 1000
    for _ in range(int(rng.integers(1, 4))):
        a, skw = gen_select(rng, u)
        skw.pop("keep_all_metadata")
        w = u
        which = "a"
        if rng.random() < 0.12:
            w = u.copy()
            w.integration_time = w.integration_time * 2
            which = "w"
            rec.ev("Make", o="w", post={"w": proj(w)})
        out, s = call(u.select, inplace=False, **skw)
        if out == "ok":
            shape = (s.Nblts, s.Nfreqs, s.Npols)
        else:
            shape = (u.Nblts, u.Nfreqs, u.Npols)
        a["badshape"] = False
        if rng.random() < 0.06:
            shape = (shape[0] + 1,) + shape[1:]
            a["badshape"] = True
        n = int(np.prod(shape))
        d = np.arange(tok, tok + n).reshape(shape)
        d = (d + 1j * (2 * d + 1)).astype(np.complex64 if rng.random() < 0.3 else np.complex128)
        tok += n
        fl = rng.random(shape) < 0.4
        ns = rng.integers(0, 6, shape).astype(float)
        a["check"] = bool(rng.random() < 0.8)
        if rng.random() < 0.3:
            d, fl, ns = (np.asfortranarray(x) for x in (d, fl, ns))
        out, res = call(w.write_uvh5_part, path, data_array=d, flag_array=fl, nsample_array=ns, check_header=a["check"], **skw)
        out_ev(rec, "Part", out, res, o=which, path=path, w=[], args=a, cells=concrete_cells(d, fl, ns), post={which: proj(w)})
    h5_read(rng, rec, u, path, "r", ["a"])


def runs_scenario(rng, rec):
    """Long axes: selections made of several runs, partial reads and partial writes."""
    path = os.path.join(rec.scratch, "l.uvh5")
    n = int(rng.integers(38, 56))
    kw = {"scan": False, "npc": 1, "npols": int(rng.choice([1, 2, 4])), "shuffle": str(rng.choice(["no", "bl"]))}
    if rng.random() < 0.5:
        u = make_uvd(rng, nfreqs=n, ntimes=1, nbls=2, nspws=int(rng.choice([1, 2])), **kw)
    else:
        u = make_uvd(rng, nfreqs=2, nspws=1, ntimes=n if rng.random() < 0.5 else n // 2, nbls=1 if rng.random() < 0.5 else 2, ragged=False, **kw)
    real_autos(u)
    part = bool(rng.random() < 0.4)
    rec.ev("Make", o="a", post={"a": proj(u)})

    def sel():
        a, k = {}, {}
        if u.Nfreqs > 20:
            a["chans"] = k["freq_chans"] = runs(rng, u.Nfreqs)
            if rng.random() < 0.3:
                a["inds"] = k["blt_inds"] = [0]
        else:
            r = runs(rng, u.Nblts)
            if rng.random() < 0.5:
                a["inds"] = k["blt_inds"] = r
            else:
                ts = np.unique(u.time_array)
                v = [ts[i] for i in runs(rng, len(ts))]
                a["times"], k["times"] = [t2tok(x) for x in v], v
            if rng.random() < 0.3:
                a["chans"] = k["freq_chans"] = [1]
        if rng.random() < 0.3 and u.Npols > 1:
            v = [int(x) for x in rng.choice(u.polarization_array, int(rng.integers(1, u.Npols + 1)), replace=False)]
            a["pols"], k["polarizations"] = v, v
        return a, k
    if part:
        out, res = call(u.initialize_uvh5_file, path)
        out_ev(rec, "Init", out, res, o="a", path=path, w=[], args={"clobber": False}, post={"a": proj(u)})
        a, k = sel()
        s = u.select(inplace=False, **k)
        a.update(badshape=False, check=True, keep=True)
        tok = np.arange(1000, 1000 + s.data_array.size).reshape(s.data_array.shape)
        d, fl, ns = tok + 1j * (2 * tok + 1.0), rng.random(tok.shape) < 0.4, rng.integers(0, 6, tok.shape).astype(float)
        out, res = call(u.write_uvh5_part, path, data_array=d, flag_array=fl, nsample_array=ns, **k)
        out_ev(rec, "Part", out, res, o="a", path=path, w=[], args=a, cells=concrete_cells(d, fl, ns), post={"a": proj(u)})
    else:
        out, res = call(u.write_uvh5, path, **NOCHK)
        out_ev(rec, "Write", out, res, o="a", path=path, fmt="uvh5", w=[], args={"bad": False, "clobber": False}, post={"a": proj(u)})
    for i in range(1 if part else 2):
        a, k = ({}, {}) if part and rng.random() < 0.6 else sel()
        a.update(keep=True, rd=True)
        m = UVData()
        out, res = call(m.read_uvh5, path, multidim_index=bool(rng.random() < 0.4), **k, **RDCHK)
        out_ev(rec, "Read", out, res, path=path, fmt="uvh5", r="r", w=["r"], args=a, post={"r": proj(m if out == "ok" else u)})


def many_scenario(rng, rec):
    """Several files read at once are the combination of the files."""
    tel = make_tel(rng)
    big = make_uvd(rng, tel=tel, ragged=False, ntimes=3, shuffle="no", scan=False, nspws=1, nfreqs=4, npc=1, projected=True, npols=2,
                   int_vary=False)
    real_autos(big)
    ax = str(rng.choice(["blt", "freq", "pol"]))
    if ax == "blt":
        ts = np.unique(big.time_array)
        parts = [big.select(times=[t], inplace=False) for t in ts]
    elif ax == "freq":
        parts = [big.select(freq_chans=c, inplace=False) for c in ([0, 1], [2], [3])]
    else:
        parts = [big.select(polarizations=[p], inplace=False) for p in big.polarization_array]
    add = bool(rng.random() < 0.5)
    parts = parts[:2] if add else parts
    if rng.random() < 0.4 and add:
        parts = parts[::-1]
    paths = []
    for k, p in enumerate(parts):
        nm = f"o{k}"
        rec.ev("Make", o=nm, post={nm: proj(p)})
        path = os.path.join(rec.scratch, f"m{k}.uvh5")
        out, res = call(p.write_uvh5, path, **NOCHK)
        out_ev(rec, "Write", out, res, o=nm, path=path, fmt="uvh5", w=[], args={"bad": False, "clobber": False}, post={nm: proj(p)})
        paths.append(path)
    if rng.random() < 0.15 and add:
        paths = paths[:1]
    sel, k = {"keep": True}, {}
    if ax != "freq" and rng.random() < 0.35:
        sel["chans"] = k["freq_chans"] = sorted(int(x) for x in rng.choice(4, int(rng.integers(1, 4)), replace=False))
    if ax != "pol" and rng.random() < 0.35:
        sel["pols"] = k["polarizations"] = [int(rng.choice(big.polarization_array))]
    if ax != "blt" and rng.random() < 0.35:
        v = [float(x) for x in rng.choice(np.unique(big.time_array), int(rng.integers(1, 3)), replace=False)]
        sel["times"], k["times"] = [t2tok(x) for x in v], v
    if rng.random() < 0.1:
        sel["chans"] = k["freq_chans"] = [99]
    skip = bool(rng.random() < 0.6)
    if rng.random() < 0.4 or len(paths) == 1:
        bad = os.path.join(rec.scratch, "bad.uvh5")
        with h5py.File(bad, "w") as f:
            if rng.random() < 0.5:
                f.create_group("Header")
        paths.insert(int(rng.integers(0, len(paths) + 1)), bad)
    if sel.get("chans") == [99]:
        skip = False
    n = UVData()
    out, res = call(n.read, paths, axis=None if add else {"pol": "polarization"}.get(ax, ax), skip_bad_files=skip, **k, **RDCHK)
    out_ev(rec, "ReadMany", out, res, paths=paths, r="r", w=["r"], args={"axis": "" if add else ax, "sel": sel, "skip": skip},
           post={"r": proj(n)} if out == "ok" else {"r": proj(big)})


# ---------------------------------------------------------------- UVFITS
def form_obj(rng, tok0=1, **kw):
    """An object a lossy format can usually hold."""
    kw.setdefault("projected", bool(rng.random() < 0.9) or None)
    kw.setdefault("even", bool(rng.random() < 0.9))
    nf = kw.pop("nfreqs", None)
    if rng.random() < 0.8:
        ns = int(rng.choice([1, 1, 2, 3]))
        kw["nspws"], nf = ns, ns * int(rng.integers(1, 4))
    frames = kw.pop("frames", None)
    small = kw.pop("small", False)
    big = bool(rng.random() < 0.15) and not small
    u = make_uvd(rng, tok0=tok0, nfreqs=nf, big=big, **kw)
    if frames is not None and rng.random() < 0.4:
        reframe(rng, u, frames)
    dress(rng, u)
    real_autos(u)
    return u


def reframe(rng, u, frames):
    """Name some of the phase centers in other frames."""
    if len(frames) == 1 and rng.random() < 0.5:
        return
    one = frames[int(rng.integers(0, len(frames)))] if rng.random() < 0.5 else None
    for d in u.phase_center_catalog.values():
        if d["cat_type"] != "sidereal":
            continue
        fr = one or frames[int(rng.integers(0, len(frames)))]
        d["cat_frame"] = fr
        d["cat_epoch"] = {"fk4": 1950.0, "fk5": 2000.0}.get(fr)
        if d["cat_epoch"] is None:
            d.pop("cat_epoch")
    u._set_app_coords_helper()
    u.set_uvws_from_antenna_positions(update_vis=False)


NATIVE = {"antenna_nums": "ants", "bls": "bls", "ant_str": "astr", "polarizations": "pols", "time_range": "trange"}


def miriad_args(rng, u):
    """Selections on read of Miriad files: either one valid native selection (lists of integers, of
    antenna pairs, of polarizations, a time range between integrations of equal length; the native
    selection keeps all metadata and does not report values that are not in the file) or any
    selection applied after reading."""
    for _ in range(20):
        a, kw = gen_select(rng, u, soft=True)
        kw.pop("blt_inds", None), a.pop("inds", None)
        kw.pop("phase_center_ids", None), a.pop("pcids", None)
        if "blpols" in a:
            # baselines with a polarization: the polarization is that of the baseline as it is given
            have = set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))
            pl = set(u.polarization_array.tolist())
            flip = {-3: -4, -4: -3, -7: -8, -8: -7}
            v = [x for x in a["blpols"] if ((x[0], x[1]) in have or (x[1], x[0]) in have) and x[2] in pl and flip.get(x[2], x[2]) in pl]
            if not v:
                continue
            return {"blpols": v, "keep": True}, {"bls": [(x[0], x[1], uvutils.polnum2str(x[2])) for x in v]}
        if np.iterable(kw.get("bls", ())) is False:
            continue
        got = [k for k in NATIVE if k in kw]
        if len(got) > 1 and set(got) <= {"antenna_nums", "polarizations", "time_range"} and set(kw) == set(got) and rng.random() < 0.8:
            # several native selections at once
            ok = len(set(np.round(u.integration_time, 3))) == 1 and set(a.get("pols", ())) <= set(u.polarization_array.tolist())
            v = [x.item() if isinstance(x, np.generic) else x for x in np.atleast_1d(np.asarray(kw.get("antenna_nums", []))).ravel()]
            if ok and set(v) <= set(u.ant_1_array.tolist()) | set(u.ant_2_array.tolist()):
                kk = {k: [x.item() if isinstance(x, np.generic) else x for x in np.atleast_1d(np.asarray(kw[k])).ravel()] for k in got}
                if "polarizations" in kk:
                    kk["polarizations"] = a["pols"]
                return {**{NATIVE[k]: a[NATIVE[k]] for k in got}, "keep": True}, kk
        if not got:
            return a, kw
        k = got[0]
        v = kw[k]
        if k == "bls":
            v = v if isinstance(v, list) else [v]
            have = set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist()))
            v = [tuple(int(y) for y in x) for x in v if np.iterable(x) and (tuple(x) in have or tuple(x)[::-1] in have)]
            if not v:
                continue
            out, k2 = {"bls": [list(x) for x in v], "keep": True}, {"bls": v}
            if rng.random() < 0.4:
                pl = [int(x) for x in rng.choice(u.polarization_array, int(rng.integers(1, u.Npols + 1)), replace=False)]
                out["pols"], k2["polarizations"] = pl, pl
            if rng.random() < 0.3:
                an = sorted({int(x) for y in v for x in y})
                an = [int(x) for x in rng.choice(an, int(rng.integers(1, len(an) + 1)), replace=False)]
                out["ants"], k2["antenna_nums"] = an, an
            if rng.random() < 0.4 and len(set(np.round(u.integration_time, 3))) == 1:
                ts = np.unique(u.time_array)
                i = int(rng.integers(0, len(ts)))
                lo, hi = ts[i] - 3 / 86400, ts[int(rng.integers(i, len(ts)))] + 3 / 86400
                out["trange"], k2["time_range"] = [t2tok(lo), t2tok(hi)], [float(lo), float(hi)]
            return out, k2
        if k == "ant_str":
            out = {"astr": a["astr"], "keep": True}
            if "bls" in a:
                out["bls"] = a["bls"]
            return out, {k: v}
        v = [x.item() if isinstance(x, np.generic) else x for x in np.atleast_1d(np.asarray(v)).ravel()]
        if k == "time_range" and len(set(np.round(u.integration_time, 3))) > 1:
            continue
        if k == "antenna_nums" and not set(v) <= set(u.ant_1_array.tolist()) | set(u.ant_2_array.tolist()):
            continue
        if k == "polarizations":
            v = a["pols"]
            if not set(v) <= set(u.polarization_array.tolist()):
                continue
        return {NATIVE[k]: a[NATIVE[k]], "keep": True}, {k: v}
    return {"keep": True}, {}


def form_read(rng, rec, path, fmt, P, whole=False, sel=None, **extra):
    a, kw = ({"keep": True}, {})
    if fmt == "miriad" and not whole:
        a, kw = miriad_args(rng, sel)
    elif not whole:
        a, kw = gen_select(rng, sel, soft=True)
        for k in [x for x in extra.get("drop", ())]:
            kw.pop(k[1], None), a.pop(k[0], None)
    extra.pop("drop", None)
    gen = extra.pop("gen", False)
    nometa = extra.pop("nometa", False)
    a["rd"] = bool(rng.random() < 0.9) or whole or bool(nometa)
    kw.update(read_data=a["rd"], **RDCHK, **extra)
    if rng.random() < 0.3:
        kw["run_check_acceptability"] = False
    n = UVData()
    if rng.random() < 0.5 or gen:
        out, res = call(n.read, path, file_type=fmt if rng.random() < 0.5 else None, **kw)
    else:
        out, res = call(getattr(n, "read_" + fmt), path, **kw)
    out_ev(rec, "Read", out, res, path=path, fmt=fmt, r="r", w=["r"], args=a, post={"r": P(n) if out == "ok" else rec.events[0]["post"]["a"]})
    return n if out == "ok" else None


def fits_scenario(rng, rec):
    path = os.path.join(rec.scratch, "a.uvfits")
    P = proj_io
    u = form_obj(rng, scan=None, frames=["icrs", "fk5", "fk4", "galactic"])
    if u.Nspws > 1 and rng.random() < 0.3:
        # the windows may be listed in another order than they have along the frequency axis
        u.spw_array = rng.permutation(u.spw_array)
    if rng.random() < 0.1:
        u.reorder_freqs(channel_order=rng.permutation(u.Nfreqs), run_check=False)
    rec.ev("Make", o="a", post={"a": P(u)})
    for nm, obj in (("a", u), ("v", None)):
        if nm == "v":
            if rng.random() < 0.7:
                break
            obj = form_obj(rng, tok0=700)
            rec.ev("Make", o="v", post={"v": P(obj)})
        big = int(obj.telescope.antenna_numbers.max()) > 253
        a = {"clobber": True, "phase": bool(rng.random() < 0.5), "mir": bool(rng.random() < 0.15) and not big}
        kw = {"use_miriad_convention": True} if a["mir"] else {}
        if rng.random() < 0.2:
            kw["write_lst"] = False
        pre = obj.copy()
        out, res = call(obj.write_uvfits, path, force_phase=a["phase"], **kw, **NOCHK)
        out_ev(rec, "Write", out, res, o=nm, path=path, fmt="uvfits", w=[nm] if a["phase"] else [], args=a, post={nm: P(obj)})
    n = form_read(rng, rec, path, "uvfits", P, whole=True)
    if n is None:
        return
    for _ in range(2):
        form_read(rng, rec, path, "uvfits", P, sel=n)


def mir_scenario(rng, rec):
    path = os.path.join(rec.scratch, "a.mir")

    def P(x):
        return proj_io(x, upper=False, nlen=99)
    u = None
    for nm in ("a", "v"):
        if nm == "v" and rng.random() < 0.7:
            break
        pr = bool(rng.random() < 0.7) or None
        obj = form_obj(rng, tok0=1 if nm == "a" else 700, scan=None, frames=["icrs", "fk5", "fk4"], even=bool(rng.random() < 0.6), projected=pr, small=True)
        if rng.random() < 0.85:
            obj.extra_keywords.pop("vfnone", None)
        rec.ev("Make", o=nm, post={nm: P(obj)})
        a = {"clobber": bool(rng.random() < 0.6)}
        kw = {"calc_lst": True} if rng.random() < 0.4 else {}
        out, res = call(obj.write_miriad, path, clobber=a["clobber"], **kw, **NOCHK)
        out_ev(rec, "Write", out, res, o=nm, path=path, fmt="miriad", w=[nm], args=a, post={nm: P(obj)})
    extra = {"calc_lst": False} if rng.random() < 0.4 else {}
    n = form_read(rng, rec, path, "miriad", P, whole=True, **extra)
    if n is None:
        return
    if extra:
        # ranges of sidereal time are taken from a default read: those of the file may be a little off
        n, kw = UVData(), dict(RDCHK)
        if call(n.read_miriad, path, **kw)[0] != "ok":
            return
    for _ in range(2):
        form_read(rng, rec, path, "miriad", P, sel=n, gen=True, nometa=True)


def run_C14(chk):
    tr = chk.scenarios("miriad", mir_scenario, chk.n(300, 3000))
    chk.validate("TraceIO", "TraceIO.cfg", tr, min_ops={"Read/ok": 200, "Write/ok": 120, "Write/error": 20, "Read/error": 10})


def run_C13(chk):
    tr = chk.scenarios("uvfits", fits_scenario, chk.n(400, 4000))
    chk.validate("TraceIO", "TraceIO.cfg", tr, min_ops={"Read/ok": 300, "Write/ok": 150, "Write/error": 20, "Read/error": 20})


def run_C09(chk):
    tr = chk.scenarios("uvh5", h5_scenario, chk.n(400, 4000))
    tr += chk.scenarios("uvh5-part", part_scenario, chk.n(250, 2500))
    tr += chk.scenarios("uvh5-runs", runs_scenario, chk.n(50, 400))
    tr += chk.scenarios("uvh5-many", many_scenario, chk.n(60, 500))
    chk.validate("TraceIO", "TraceIO.cfg", tr, min_ops={"Read/ok": 300, "Write/ok": 200, "Part/ok": 150, "Meta/ok": 60, "Write/error": 5})
