"""C30: calibration solutions in measurement set tables."""
import os

import numpy as np

from pyuvdata import UVCal
from cal import WRAP, gen_select
from calio import out_ev
from uvd_ms import quiet
from vf.cal import make_cal, projc
from vf.uvd import pv


def P(c):
    p = projc(c, qscale=1.0)
    rest = {}
    for e in p["cat"]:
        d = c.phase_center_catalog[e["id"]]
        rest[e["id"]] = e["rest"] = ";".join(
            str(x) for x in (d["cat_type"], d.get("cat_frame"), round(float(d["cat_lon"]), 8), round(float(d["cat_lat"]), 8)))
    for e in p["axes"]["time"]:
        if e["pcid"] in rest:
            e["pcr"] = rest[e["pcid"]]
    # what the tables have a place for
    keep = ("gain_scale", "observer", "sky_catalog", "pol_convention")
    p["meta"]["scal"] = [f"{k}={pv(getattr(c, k))}" for k in keep if getattr(c, k) is not None]
    # always there in a table
    p["meta"]["xkw"] = [k for k in p["meta"]["xkw"] if k not in ("CASA_Version='unknown'", "MSName='unknown'")]
    return p


def mk(rng, tok0=1):
    kw = {"flexj": bool(rng.random() < 0.15), "meta_only": bool(rng.random() < 0.04), "tok0": tok0}
    if rng.random() < 0.9:
        kw["njones"] = int(rng.choice([1, 2, 2]))
    if rng.random() < 0.1:
        kw["t0"] = WRAP + float(rng.integers(-3, 2)) * 60.0
    c = make_cal(rng, **kw)
    if rng.random() < 0.92:
        c.gain_convention = "divide"
    # products of small powers of two: single precision holds them
    if c.quality_array is not None:
        c.quality_array = (c.quality_array - 10000.0) % 997 + 1
    if c.total_quality_array is not None:
        c.total_quality_array = 2.0 ** rng.integers(0, 4, c.total_quality_array.shape)
    if not c.wide_band and c.Nspws > 1 and rng.random() < 0.3:
        # channels of different windows interleaved
        ix = rng.permutation(c.Nfreqs)
        for k in ("freq_array", "channel_width", "flex_spw_id_array", "total_quality_array"):
            if getattr(c, k) is not None:
                setattr(c, k, getattr(c, k)[ix])
        for k in ("gain_array", "flag_array", "quality_array"):
            if getattr(c, k) is not None:
                setattr(c, k, getattr(c, k)[:, ix])
    if rng.random() < 0.2:
        c.telescope.instrument = c.telescope.name
    if c.phase_center_catalog is not None and rng.random() < 0.3:
        for d in c.phase_center_catalog.values():
            d["cat_frame"], d["cat_epoch"] = "fk5", 2000.0
    c.extra_keywords = {k: v for k, v in (("vfint", 3), ("vffloat", 2.5), ("vfstr", "text here"), ("MSName", "a.ms"), ("CASA_Version", "6.4")) if rng.random() < 0.3}
    return c


def write(rng, rec, c, reg, path):
    a = {"clobber": bool(rng.random() < 0.5)}
    out, res = quiet(c.write_ms_cal, path, clobber=a["clobber"])
    out_ev(rec, "WriteMs", out, res, o=reg, path=path, w=[], args=a, post={reg: P(c)})
    return out


def read(rng, rec, path, c, sel=None):
    a, kw = {"x": 0}, {}
    if sel is not None:
        a, kw = gen_select(rng, sel)
    n = UVCal()
    k = rng.random()
    if sel is None and k < 0.5:
        out, res = quiet(n.read_ms_cal, path)
    elif k < 0.75:
        out, res = quiet(n.read, path, **kw)
    else:
        out, res = quiet(UVCal.from_file, path, file_type="ms", **kw)
        n = res if out == "ok" else n
    out_ev(rec, "ReadMs", out, res, path=path, r="r", w=["r"], args=a, post={"r": P(n if out == "ok" else c)})
    return n if out == "ok" else None


def scenario(rng, rec):
    path = os.path.join(rec.scratch, "a.ms")
    have = None
    for nm in ("a", "v"):
        if nm == "v" and (rng.random() < 0.7 or have is None):
            break
        c = mk(rng, tok0=1 if nm == "a" else 700)
        rec.ev("Make", o=nm, post={nm: P(c)})
        n0 = len(rec.events)
        out = write(rng, rec, c, nm, path)
        if out == "ok":
            have = c
        elif have is not None and rec.events[n0]["args"]["clobber"]:
            return
    if have is None:
        return
    got = read(rng, rec, path, have)
    if got is not None:
        read(rng, rec, path, have, sel=got)
        if rng.random() < 0.2:
            # what was read can be written again
            p2 = os.path.join(rec.scratch, "b.ms")
            rec.ev("Make", o="b", post={"b": P(got)})
            if write(rng, rec, got, "b", p2) == "ok":
                read(rng, rec, p2, have)


def run_C30(chk):
    tr = chk.scenarios("mscal", scenario, chk.n(260, 2600))
    chk.validate("TraceCalMs", "TraceCalMs.cfg", tr, min_ops={"WriteMs/ok": 150, "WriteMs/error": 20, "ReadMs/ok": 200, "ReadMs/error": 5})
