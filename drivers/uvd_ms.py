"""C29: measurement sets."""
import contextlib
import gc
import io
import os
import shutil

import numpy as np

from pyuvdata import UVData
from uvd_io import RDCHK, NOCHK, dress, out_ev, real_autos, reframe
from uvd_select import gen_select
from vf.harness import call
from vf.num import fx
from vf.uvd import make_uvd, proj_io

LOST = ("dut1", "earth_omega", "gst0", "rdate", "timesys")


def P(u):
    p = proj_io(u, upper=False, nlen=99)
    for k in LOST:
        p["kw"].pop(k, None)
    for e in p["cat"]:
        d = u.phase_center_catalog[e["id"]]
        e["pm"] = [fx(d.get(k) or 0.0, 1e6) for k in ("cat_pm_ra", "cat_pm_dec")]
    return p


def quiet(f, *a, **k):
    def g():
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    out = call(g)
    if out[0] == "error":
        gc.collect()  # a table left open must be closed before its directory goes away
    return out


def ms_obj(rng, tok0=1):
    nf, kw = None, {}
    if rng.random() < 0.7:
        ns = int(rng.choice([1, 1, 2, 3]))
        kw["nspws"], nf = ns, ns * int(rng.integers(1, 4))
    flex = bool(rng.random() < 0.15)
    u = make_uvd(rng, tok0=tok0, nfreqs=nf, flexpol=flex, scan=None, projected=bool(rng.random() < 0.85) or None, **kw)
    fr = ["icrs", "fk5", "fk4"] + (["galactic"] if rng.random() < 0.1 else [])
    if rng.random() < 0.4:
        reframe(rng, u, fr)
    for d in u.phase_center_catalog.values():
        d.setdefault("cat_epoch", None)
        if d["cat_type"] == "sidereal" and d["cat_frame"] == "icrs" and rng.random() < 0.25:
            d["cat_pm_ra"], d["cat_pm_dec"] = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))
            d["cat_epoch"] = 2000.0
    if any(d.get("cat_pm_ra") for d in u.phase_center_catalog.values()):
        u._set_app_coords_helper()
        u.set_uvws_from_antenna_positions(update_vis=False)
    dress(rng, u)
    u.extra_keywords.pop("vfnone", None)  # casacore keeps None as an empty array
    if rng.random() < 0.2:
        u.telescope.instrument = u.telescope.name
    real_autos(u)
    return u


def ms_write(rng, rec, u, nm, path):
    a = {"clobber": bool(rng.random() < 0.6), "phase": bool(rng.random() < 0.5), "flip": bool(rng.random() < 0.15), "badcol": False, "cols": {}}
    kw = {}
    for col, k in (("MODEL_DATA", "model_data"), ("CORRECTED_DATA", "corrected_data")):
        if rng.random() < 0.2:
            n = u.data_array.size
            x = (np.arange(n) + 3000 + 1j * np.arange(n)).reshape(u.data_array.shape)
            x[u.ant_1_array == u.ant_2_array] = x[u.ant_1_array == u.ant_2_array].real
            if rng.random() < 0.08:
                x = x[:, :, :0] if u.Npols == 1 else x[:, :, :-1]
                a["badcol"] = True
            kw[k] = x
            if not a["badcol"]:
                f, s = u.flag_array.ravel(), u.nsample_array.ravel()
                a["cols"][col] = [[fx(v.real), fx(v.imag), int(f[i]), fx(s[i], 1000)] for i, v in enumerate(x.ravel())]
    keep = {k: v.copy() for k, v in kw.items()}
    out, res = quiet(u.write_ms, path, clobber=a["clobber"], force_phase=a["phase"], flip_conj=a["flip"], **kw, **NOCHK)
    if any(not np.array_equal(kw[k], keep[k]) for k in kw):
        a["badcol"] = True  # the caller's arrays were changed
    # data phased on request: the columns given are written as given
    out_ev(rec, "WriteMs", out, res, o=nm, path=path, w=[nm], args=a, post={nm: P(u)})
    return out


def ms_read(rng, rec, path, whole=False, sel=None):
    a, kw = {"keep": True}, {}
    if not whole:
        a, kw = gen_select(rng, sel, soft=True)
        for k in (("inds", "blt_inds"),):
            kw.pop(k[1], None), a.pop(k[0], None)
    a["col"] = str(rng.choice(["DATA", "DATA", "DATA", "MODEL_DATA", "CORRECTED_DATA"])) if whole else "DATA"
    a["nosingle"] = bool(rng.random() < 0.3) and whole
    a["flexok"] = bool(rng.random() < 0.6) and whole
    a["weights"] = bool(rng.random() < 0.85)
    po = [None, "AIPS", "CASA"][int(rng.integers(0, 3))] if whole else "AIPS"
    a["porder"] = po or "CASA"
    n = UVData()
    opts = {"data_column": a["col"], "ignore_single_chan": a["nosingle"], "allow_flex_pol": a["flexok"], "read_weights": a["weights"], **RDCHK}
    if whole and rng.random() < 0.6:
        opts["pol_order"] = po
        out, res = quiet(n.read_ms, path, **opts)
    else:
        a["porder"] = "AIPS"
        out, res = quiet(n.read, path, file_type="ms" if rng.random() < 0.5 else None, **opts, **kw)
    out_ev(rec, "ReadMs", out, res, path=path, r="r", w=["r"], args=a, post={"r": P(n) if out == "ok" else rec.events[0]["post"]["a"]})
    return n if out == "ok" else None


def ms_scenario(rng, rec):
    path = os.path.join(rec.scratch, "a.ms")
    ok = False
    for nm in ("a", "v"):
        if nm == "v" and rng.random() < 0.75:
            break
        u = ms_obj(rng, tok0=1 if nm == "a" else 700)
        rec.ev("Make", o=nm, post={nm: P(u)})
        n0 = len(rec.events)
        out = ms_write(rng, rec, u, nm, path)
        if out == "error":
            if not ok:
                shutil.rmtree(path, ignore_errors=True)  # a failed write may leave something behind
            elif rec.events[n0]["args"]["clobber"]:
                return
        ok = ok or out == "ok"
    if not ok:
        return
    for _ in range(2):
        ms_read(rng, rec, path, whole=True)
    n = UVData()
    if quiet(n.read_ms, path, ignore_single_chan=False, **RDCHK)[0] == "ok":
        ms_read(rng, rec, path, sel=n)


def run_C29(chk):
    tr = chk.scenarios("ms", ms_scenario, chk.n(200, 2000))
    chk.validate("TraceMs", "TraceMs.cfg", tr, min_ops={"WriteMs/ok": 90, "ReadMs/ok": 150, "WriteMs/error": 10, "ReadMs/error": 10})
