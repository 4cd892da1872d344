"""C21: reading and writing calibration files (calh5, calfits)."""
import os

import numpy as np

from pyuvdata import UVCal
from pyuvdata import utils as uvutils
from pyuvdata.uvcal import FastCalH5Meta
from vf.cal import make_cal, projc
from vf.harness import call
from vf.num import fx
from vf.uvd import make_tel, pv, t2tok

from uvd_select import runs
from cal import WRAP, big_cal, cut, gen_select, size


def out_ev(rec, op_, out_, res_, **kw):
    rec.ev(op_, out=out_, err=str(res_) if out_ == "error" else "", **kw)


def pr(fmt):
    def f(c):
        p = projc(c)
        if fmt == "calfits":
            p["meta"]["xkw"] = sorted(f"{k.upper()}={pv(v)}" for k, v in c.extra_keywords.items())
        return p
    return f


def dress(rng, c, fmt):
    xk = {"vfint": 3, "vffloat": 2.5, "vfstr": "text here", "vfbool": True}
    if fmt == "calh5":
        xk["vfnone"] = None
        xk["a_long_keyword"] = 5
    for k, v in xk.items():
        if rng.random() < 0.3:
            c.extra_keywords[k] = v
    if rng.random() < 0.3:
        old = [str(x) for x in c.telescope.antenna_names]
        new = {x: "station_at_" + x for x in old}
        c.telescope.antenna_names = np.array([new[x] for x in old])
        if c.ref_antenna_name in new:
            c.ref_antenna_name = new[c.ref_antenna_name]
    if fmt == "calfits" and rng.random() < 0.7 and c.Ntimes > 1:
        c.integration_time[:] = c.integration_time[0]


def mk(rng, fmt):
    kw = {"flexj": bool(rng.random() < 0.1), "meta_only": bool(rng.random() < 0.05)}
    if fmt == "calfits":
        r = rng.random()
        if r < 0.9:
            kw.update(nspws=1)
        if r < 0.7:
            kw.update(kind=str(rng.choice(["gain", "delay"])), flexj=False)
            if rng.random() < 0.5:
                kw.update(shuffle=False)
            if rng.random() < 0.7:
                kw.update(trange=False)
    if rng.random() < 0.1:
        kw["t0"] = WRAP + float(rng.integers(-3, 2)) * 60.0
    c = make_cal(rng, **kw)
    dress(rng, c, fmt)
    return c


def do_write(rng, rec, c, reg, path, fmt, clobber):
    kw = {"clobber": True} if clobber else {}
    if fmt == "calh5":
        if rng.random() < 0.3:
            kw["data_compression"] = str(rng.choice(["lzf", "gzip"]))
        if rng.random() < 0.2:
            kw["quality_compression"] = None
    out, res = call(c.write_calh5 if fmt == "calh5" else c.write_calfits, path, **kw)
    out_ev(rec, "Write", out, res, o=reg, path=path, fmt=fmt, w=[], args={"clobber": clobber}, post={reg: pr(fmt)(c)})
    return out == "ok"


def do_read(rng, rec, c, path, fmt, r):
    a, kw = {"x": 0}, {}
    if rng.random() < 0.7:
        a, kw = gen_select(rng, c)
    a["rd"] = True
    if not kw and rng.random() < 0.3:
        a["rd"] = False
        kw["read_data"] = False
    if fmt == "calfits":
        # the format does not have these
        for k, q in (("spws", "spws"), ("pcids", "phase_center_ids"), ("names", "catalog_names")):
            a.pop(k, None)
            kw.pop(q, None)
    n = UVCal()
    k = rng.random()
    if fmt == "calh5" and k < 0.4:
        out, res = call(n.read_calh5, path, **kw)
    elif fmt == "calfits" and k < 0.4 and set(kw) <= {"read_data"}:
        out, res = call(n.read_calfits, path, **kw)
    elif k < 0.7:
        out, res = call(n.read, path, **kw)
    else:
        out, res = call(UVCal.from_file, path, file_type=fmt, **kw)
        n = res if out == "ok" else n
    out_ev(rec, "Read", out, res, path=path, fmt=fmt, r=r, w=[r], args=a, post={r: pr(fmt)(n if out == "ok" else c)})


def do_meta(rng, rec, c, path):
    xo = c.telescope.x_orientation
    keys = [(int(rng.choice(c.telescope.antenna_numbers)), int(rng.choice([-5, -6, -1, -2, -7]))) for _ in range(5)]

    def get():
        m = FastCalH5Meta(path)
        r = {"ants": [int(x) for x in m.ant_array], "jones": [int(x) for x in m.jones_array],
             "times": [t2tok(x) for x in m.time_array] if c.time_range is None else [], "freqs": [fx(x) for x in m.freq_array] if not c.wide_band else [],
             "type": str(m.cal_type), "style": str(m.cal_style), "conv": str(m.gain_convention),
             "keys": [{"ant": x, "j": j, "has": bool(m.has_key(x, j if rng.random() < 0.5 else uvutils.jnum2str(j, x_orientation=xo)))} for x, j in keys],
             "uvc": projc(m.to_uvcal())}
        m.close()
        return r
    out, res = call(get)
    out_ev(rec, "Meta", out, res, path=path, res=res if out == "ok" else {})


def file_scenario(rng, rec):
    fmt = str(rng.choice(["calh5", "calfits"]))
    path = os.path.join(rec.scratch, "a." + fmt)
    c = mk(rng, fmt)
    rec.ev("Make", o="a", post={"a": pr(fmt)(c)})
    have = c if do_write(rng, rec, c, "a", path, fmt, False) else None
    if rng.random() < 0.3:
        v = mk(rng, fmt)
        rec.ev("Make", o="v", post={"v": pr(fmt)(v)})
        cl = bool(rng.random() < 0.5)
        if do_write(rng, rec, v, "v", path, fmt, cl):
            have = v
        elif have is None:
            return
    if have is None:
        return
    for _ in range(2):
        do_read(rng, rec, have, path, fmt, "r")
    if fmt == "calh5" and rng.random() < 0.5:
        do_meta(rng, rec, have, path)


def runs_scenario(rng, rec):
    """Long axes: selections made of several runs."""
    path = os.path.join(rec.scratch, "l.calh5")
    n = int(rng.integers(38, 56))
    ax = str(rng.choice(["freq", "time"]))
    if ax == "freq":
        c = make_cal(rng, kind="gain", nfreqs=n, ntimes=1, nants=2, njones=int(rng.choice([1, 2])), nspws=int(rng.choice([1, 2])))
    else:
        c = make_cal(rng, ntimes=n, nfreqs=1, nspws=1, nants=1, njones=int(rng.choice([1, 2])), shuffle=False, trange=False)
    rec.ev("Make", o="a", post={"a": projc(c)})
    if not do_write(rng, rec, c, "a", path, "calh5", False):
        return
    for _ in range(2):
        if ax == "freq":
            v = runs(rng, n)
            a, kw = {"x": 0, "chans": v}, {"freq_chans": v}
        else:
            v = [c.time_array[i] for i in runs(rng, n)]
            a, kw = {"x": 0, "times": [t2tok(x) for x in v]}, {"times": v}
        a["rd"] = True
        u = UVCal()
        out, res = call(u.read_calh5, path, **kw)
        out_ev(rec, "Read", out, res, path=path, fmt="calh5", r="r", w=["r"], args=a, post={"r": projc(u if out == "ok" else c)})


def many_scenario(rng, rec):
    fmt = "calh5"
    c = big_cal(rng, flexj=bool(rng.random() < 0.1))
    ax = str(rng.choice([x for x in ("ant", "freq", "time", "jones") if size(c, x) > 1] or ["ant"]))
    n = size(c, ax)
    if n < 2:
        return
    concat = bool(rng.random() < 0.5)
    k = 1 if not concat else min(n - 1, int(rng.integers(1, 3)))
    cutp = np.sort(rng.choice(np.arange(1, n), k, replace=False))
    paths = []
    for i, ix in enumerate(np.split(np.arange(n), cutp)):
        p = cut(rng, c, ax, ix).copy()
        rec.ev("Make", o=f"p{i}", post={f"p{i}": projc(p)})
        path = os.path.join(rec.scratch, f"f{i}.calh5")
        if not do_write(rng, rec, p, f"p{i}", path, fmt, False):
            return
        paths.append(path)
    a = {"axis": ax if concat else ""}
    real = {"ant": "antenna", "freq": "spw" if c.wide_band else "freq"}.get(ax, ax)
    u = UVCal()
    out, res = call(u.read, paths if rng.random() < 0.5 else np.array(paths), axis=real if concat else None)
    out_ev(rec, "ReadMany", out, res, paths=paths, r="r", w=["r"], args=a, post={"r": projc(u if out == "ok" else c)})


def run(chk):
    tr = chk.scenarios("calfile", file_scenario, chk.n(450, 4500)) + chk.scenarios("calmany", many_scenario, chk.n(120, 1200))
    tr += chk.scenarios("calruns", runs_scenario, chk.n(40, 300))
    chk.validate("TraceCalIO", "TraceCalIO.cfg", tr, min_ops={"Write/ok": 300, "Write/error": 20, "Read/ok": 200, "Read/error": 10, "ReadMany/ok": 50, "Meta/ok": 30})
