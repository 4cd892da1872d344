"""C07/C08: averaging and resampling in time and frequency."""
import numpy as np
from astropy.time import Time

from uvd_phase import mm, ref_app, ref_uvw
from vf.harness import call
from vf.num import fx
from vf.uvd import cells, make_tel, make_uvd, proj


def make(rng, rec, drift_ok=True, **kw):
    tel = make_tel(rng, big="huge" if rng.random() < 0.08 else False)
    kw.setdefault("ntimes", int(rng.integers(1, 8)))
    kw.setdefault("nbls", int(rng.integers(1, 4)))
    kw.setdefault("nfreqs", int(rng.integers(1, 4)))
    u = make_uvd(rng, tel=tel, dt=float(rng.choice([10.0, 20.0, 40.0])), npols=int(rng.choice([1, 2])),
                 meta_only=bool(rng.random() < 0.08), projected=None if drift_ok else True, **kw)
    if u.data_array is not None and rng.random() < 0.5:
        # some completely flagged stretches
        m = rng.random(u.flag_array.shape[1:]) < 0.4
        u.flag_array[:, m] = True
    if rng.random() < 0.5 and u.Nphase > 1:
        # make the phase centers follow the times or the baselines so that windows are not mixed
        key = u.baseline_array if rng.random() < 0.6 else u.time_array
        ids = list(u.phase_center_catalog)
        uk = np.unique(key)
        u.phase_center_id_array = np.array([ids[int(np.searchsorted(uk, x)) * len(ids) // len(uk)] for x in key])
        u._clear_unused_phase_centers()
        u._set_app_coords_helper()
        u.uvw_array = ref_uvw(u)
        u.check()
    if drift_ok and rng.random() < 0.25:
        m = rng.random(u.Nblts) < 0.5 if rng.random() < 0.2 else u.baseline_array >= rng.choice(u.baseline_array)
        m = m if m.any() else ~m
        u.phase(lon=float(rng.uniform(0, 6)), lat=float(rng.uniform(0.8, 1.5)), cat_type="driftscan", phase_frame="altaz",
                epoch=None, cat_name="drift", select_mask=m)
        if u.data_array is not None:
            u.data_array = make_uvd_tokens(u)
    rec.ev("Make", o="a", post={"a": proj(u, dscale=100.0)})
    return u


def make_uvd_tokens(u):
    tok = np.arange(1, u.data_array.size + 1).reshape(u.data_array.shape)
    return (tok + 1j * (2 * tok + 1)).astype(u.data_array.dtype)


def drifty(u):
    return np.array([u.phase_center_catalog[int(c)]["cat_type"] in ("unprojected", "driftscan") for c in u.phase_center_id_array])


def seen_from(u, t):
    """The object with its unprojected and driftscan rows phased to the zenith of time t."""
    c = u.copy()
    m = drifty(c)
    if np.any(m):
        c.phase_to_time(Time(t, format="jd"), select_mask=m)
    return c


def refs(u):
    loc = u.telescope.location
    lst = Time(u.time_array, format="jd", scale="utc", location=loc).sidereal_time("apparent").rad
    app = [[] for _ in range(u.Nblts)]
    for cid, d in u.phase_center_catalog.items():
        rows = np.nonzero(u.phase_center_id_array == cid)[0]
        if d["cat_type"] != "sidereal" or d["cat_frame"] != "icrs" or not len(rows):
            continue
        ut, inv = np.unique(u.time_array[rows], return_inverse=True)
        ul = np.array([lst[rows[np.argmax(inv == k)]] for k in range(len(ut))])
        ra, dec, pa = ref_app(ut, ul, "icrs", d["cat_lon"], d["cat_lat"], None, u.telescope)
        for k, r in enumerate(rows):
            app[r] = [fx(ra[inv[k]], 1e6), fx(dec[inv[k]], 1e6), fx(pa[inv[k]], 1e6)]
    return {"lst": [fx(x, 1e7) for x in lst], "app": app, "uvw": mm(ref_uvw(u))}


def resample_step(rng, rec, u):
    pre = u.copy()
    up = bool(rng.random() < 0.35)
    a = {"bad": False, "sum": bool(rng.random() < 0.3), "drift": bool(rng.random() < 0.3), "orders": []}
    kw = {"summing_correlator_mode": a["sum"], "allow_drift": a["drift"]}
    o = rng.random()
    if o < 0.25:
        kw["blt_order"], kw["minor_order"] = "baseline", "time"
        a["orders"] = ["baseline", "time"]
    elif o < 0.4:
        kw["blt_order"], kw["minor_order"] = "ant1", "ant2"
        a["orders"] = ["ant1", "ant2"]
    else:
        a["orders"] = ["time", "baseline"]
    its = pre.integration_time
    if up:
        mx = float(rng.choice([5.0, 2.5, 10.0, 20.0, 3.0, 4.0, 0.01, 40.0])) if rng.random() < 0.9 else float(its.max() - 0.0004)
        a["max"] = fx(mx, 1000)
        a["bad"] = bool(mx < 1e-2 * its.min())
        op = "Up"
        fn = lambda: u.upsample_in_time(mx, **kw)
        if rng.random() < 0.25 and np.floor(its.max() / mx) >= 2:
            fn = lambda: u.resample_in_time(mx, only_upsample=True, **kw)
        t0 = float(pre.time_array[0])
    else:
        op = "Down"
        a["ragged"] = bool(rng.random() < 0.6)
        kw["keep_ragged"] = a["ragged"]
        a.update(mode="n", n=1, min=0)
        if rng.random() < 0.5:
            a["n"] = int(rng.integers(2, 5))
            kw["n_times_to_avg"] = a["n"]
            fn = lambda: u.downsample_in_time(**kw)
        else:
            mn = float(rng.choice([15.0, 20.0, 30.0, 40.0, 80.0, 5.0, 9000.0]))
            a["mode"], a["min"] = "min", fx(mn, 1000)
            a["bad"] = bool(mn > 1e2 * its.max())
            if rng.random() < 0.25 and np.floor(mn / its.min()) >= 2:
                fn = lambda: u.resample_in_time(mn, only_downsample=True, **kw)
            else:
                fn = lambda: u.downsample_in_time(min_int_time=mn, **kw)
        first = np.lexsort((pre.time_array, pre.baseline_array))[0]
        t0 = float(pre.time_array[first])
        if rng.random() < 0.03:
            kw["n_times_to_avg"], kw["min_int_time"] = 2, 30.0
            a["bad"] = True
            fn = lambda: u.downsample_in_time(**kw)
    out, res = call(fn)
    a.update({"uvw": [], "lst": [], "app": [], "pcells": [], "qcells": []})
    if out == "ok":
        a.update(refs(u))
        if u.data_array is not None:
            rot = not a["drift"]
            a["pcells"] = cells(seen_from(pre, t0) if rot else pre, 100.0)
            a["qcells"] = cells(seen_from(u, t0) if rot else u, 100.0)
    rec.ev(op, o="a", args=a, out=out, err=str(res) if out == "error" else "", post={"a": proj(u, dscale=100.0)})


def freq_step(rng, rec, u):
    n = int(rng.integers(1, 5))
    a = {"n": n, "sum": bool(rng.random() < 0.3), "prop": bool(rng.random() < 0.35),
         "respect": bool(u.flex_spw_polarization_array is not None or rng.random() < 0.7), "ragged": bool(rng.random() < 0.6)}
    out, res = call(u.frequency_average, n, summing_correlator_mode=a["sum"], propagate_flags=a["prop"],
                    respect_spws=a["respect"], keep_ragged=a["ragged"])
    rec.ev("FreqAvg", o="a", args=a, out=out, err=str(res) if out == "error" else "", post={"a": proj(u, dscale=100.0)})


def time_scenario(rng, rec):
    u = make(rng, rec)
    resample_step(rng, rec, u)


def noop_scenario(rng, rec):
    u = make(rng, rec)
    tgt = float(u.integration_time.min()) * 1.2
    if u.integration_time.max() / tgt < 2:
        out, res = call(u.resample_in_time, tgt)
        rec.ev("Nothing", o="a", args={}, out=out, err=str(res), post={"a": proj(u, dscale=100.0)})


def freq_scenario(rng, rec):
    u = make(rng, rec, drift_ok=False, ntimes=int(rng.integers(1, 3)), nbls=int(rng.integers(1, 3)),
             nfreqs=int(rng.integers(1, 9)), flexpol=bool(rng.random() < 0.15))
    freq_step(rng, rec, u)


def run_C07(chk):
    tr = chk.scenarios("resample", time_scenario, chk.n(800, 8000))
    tr += chk.scenarios("resample-noop", noop_scenario, chk.n(40, 400))
    chk.validate("TraceAvg", "TraceAvg.cfg", tr, min_ops={"Down/ok": 200, "Down/error": 30, "Up/ok": 150, "Up/error": 5, "Nothing/ok": 10})


def run_C08(chk):
    tr = chk.scenarios("freqavg", freq_scenario, chk.n(700, 7000))
    chk.validate("TraceAvg", "TraceAvg.cfg", tr, min_ops={"FreqAvg/ok": 500})
