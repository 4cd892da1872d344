"""C20: applying calibration solutions (uvcalibrate) and flag objects (apply_uvflag) to visibilities."""
import numpy as np

from pyuvdata import Telescope, UVCal, UVFlag
from pyuvdata import utils as uvutils
from vf.apply import pcal, pdata
from vf.flag import projf
from vf.harness import call
from vf.uvd import CIRCPOLS, LINPOLS, STOKES, make_tel, make_uvd

from beam import ev

GAINS = np.array([1, 2, 1j, 1 + 1j, -1, 2j])


def renumber(rng, tel, xo):
    """The same antennas (by name) with other numbers, order and feed orientation."""
    n = tel.Nants
    p = rng.permutation(n)
    nums = np.asarray(tel.antenna_numbers)[p] if rng.random() < 0.5 else rng.choice(150, n, replace=False)
    return Telescope.new(name=str(tel.name), location=tel.location, antenna_positions=np.asarray(tel.antenna_positions)[p],
                         antenna_names=[str(x) for x in np.asarray(tel.antenna_names)[p]], antenna_numbers=nums, instrument="vfinst", x_orientation=xo)


def mk_data(rng, **kw):
    r = rng.random()
    base = LINPOLS if r < 0.65 else (CIRCPOLS if r < 0.95 else STOKES)
    pols = list(rng.permutation(base)[:int(rng.choice([1, 2, 4]))])
    u = make_uvd(rng, pols=pols, **kw)
    u.data_array = (rng.integers(-40, 41, u.data_array.shape) + 1j * rng.integers(-40, 41, u.data_array.shape)).astype(u.data_array.dtype)
    return u


def mk_cal(rng, u, prop):
    bad = str(rng.choice(["", "", "", "", "", "", "time", "freq", "ant", "jones", "wide", "spws"]))
    tel = renumber(rng, u.telescope, u.telescope.x_orientation if u.telescope.x_orientation is not None and rng.random() < 0.6 else str(rng.choice(["east", "north"])))
    kind = "wide" if bad == "wide" else ("delay" if rng.random() < 0.3 or bad == "spws" else "gain")
    lin = u.polarization_array[0] <= -5
    jones = list(rng.permutation([-5, -6, -7, -8] if lin else [-1, -2, -3, -4]))
    if rng.random() < 0.7:
        jones = [j for j in jones if j in (-5, -6, -1, -2)]
    if bad == "jones":
        jones = jones[:1]
    names = np.asarray(tel.antenna_names)
    used = {str(u.telescope.antenna_names[list(u.telescope.antenna_numbers).index(a)]) for a in np.union1d(u.ant_1_array, u.ant_2_array)}
    keep = [str(x) for x in names if str(x) in used or rng.random() < 0.5]
    if bad == "ant":
        keep = [x for x in keep if rng.random() < 0.6] or [str(names[0])]
    num = dict(zip([str(x) for x in names], tel.antenna_numbers))
    ants = rng.permutation([num[x] for x in keep])
    ut = np.unique(u.time_array)
    step = float(np.min(np.diff(ut))) if len(ut) > 1 else 20 / 86400.0
    kw = {}
    r = rng.random()
    if r < 0.3:
        k = int(rng.integers(1, len(ut) + 1))
        edges = np.array_split(ut, k)
        tr = np.array([[e[0] - step / 4, e[-1] + step / 4] for e in edges])
        if rng.random() < 0.4:
            tr = np.concatenate([tr, [[ut[-1] + step, ut[-1] + 2 * step]]])
        tr = tr[rng.permutation(len(tr))]
        if bad == "time":
            tr = tr[:1] if len(tr) > 1 else tr + 5 * step
        kw["time_range"] = tr
        nt = len(tr)
    else:
        if r < 0.5 and len(ut) > 1:
            ct = ut[:1]
        else:
            ct = ut
            if rng.random() < 0.4:
                ct = np.concatenate([ct, [ut[0] - step * 1.5, ut[-1] + step * 2]])
            ct = rng.permutation(ct)
            if rng.random() < 0.3:
                ct = ct + 2e-4 / 86400
        if bad == "time":
            ct = ct + step / 3 if rng.random() < 0.5 else ct[:max(1, len(ct) - 1)]
        kw["time_array"] = ct
        nt = len(ct)
    if kind == "gain":
        f = u.freq_array.copy()
        w = u.channel_width.copy()
        if rng.random() < 0.4:
            f = np.concatenate([f, f[:1] - 3e7])
            w = np.concatenate([w, w[:1]])
        if bad == "freq":
            f = f[:-1] if len(f) > 1 else f + 1e5
            w = w[:len(f)]
        if rng.random() < 0.4:
            p = rng.permutation(len(f))
            f, w = f[p], w[p]
        kw.update(freq_array=f, channel_width=w, flex_spw_id_array=np.zeros(len(f), int))
        nf = len(f)
    else:
        nf = 2 if bad == "spws" else 1
        lo = 5e7 if bad != "freq" else 1.001e8
        kw.update(freq_range=np.array([[lo + 2e8 * i, lo + 2e8 * i + 1e8] for i in range(nf)]), cal_type="delay" if kind == "delay" else "gain")
        if kind == "wide":
            kw["cal_type"] = "gain"
    shp = (len(ants), nf, nt, len(jones))
    d = {"flag_array": rng.random(shp) < float(rng.choice([0, 0.1, 0.3]))}
    if kind == "delay":
        d["delay_array"] = rng.integers(-3, 4, shp) * 5e-6
    else:
        g = rng.choice(GAINS, shp)
        if prop and rng.random() < 0.4:
            g = np.where(rng.random(shp) < 0.1, 0, g)
        d["gain_array"] = g.astype(complex)
    c = UVCal.new(cal_style="redundant", gain_convention=str(rng.choice(["divide", "multiply"])), jones_array=np.array(jones), telescope=tel,
                  ant_array=ants, integration_time=10.0, data=d, **kw)
    if rng.random() < 0.6:
        c.gain_scale = "Jy" if rng.random() < 0.8 else "K str"
        if rng.random() < 0.6:
            c.pol_convention = str(rng.choice(["sum", "avg"]))
    c.check()
    return c


def cal_scenario(rng, rec):
    u = mk_data(rng)
    undo = bool(rng.random() < 0.35)
    prop = bool(rng.random() < 0.7)
    c = mk_cal(rng, u, prop)
    if undo and rng.random() < 0.8:
        u.vis_units = str(c.gain_scale or "Jy")
        if rng.random() < 0.4:
            u.pol_convention = str(rng.choice(["sum", "avg"]))
    elif rng.random() < 0.07:
        u.vis_units = "Jy"
        u.pol_convention = "avg"
    elif not undo:
        u.vis_units = "uncalib"
    pc = lambda x: str(rng.choice(["sum", "avg"])) if rng.random() < x else None
    kw = {"undo": undo, "prop_flags": prop, "flip_gain_conj": bool(rng.random() < 0.3), "delay_convention": str(rng.choice(["minus", "plus"])),
          "time_check": bool(rng.random() < 0.6), "ant_check": bool(rng.random() < 0.6), "uvc_pol_convention": pc(0.25), "uvd_pol_convention": pc(0.3)}
    a = {"undo": undo, "flip": kw["flip_gain_conj"], "prop": prop, "dconv": kw["delay_convention"], "timecheck": kw["time_check"],
         "antcheck": kw["ant_check"], "cpc": str(kw["uvc_pol_convention"]), "dpc": str(kw["uvd_pol_convention"])}
    for k, v in (("flip_gain_conj", False), ("delay_convention", "minus"), ("prop_flags", True), ("undo", False), ("time_check", True), ("ant_check", True)):
        if kw[k] == v and rng.random() < 0.5:
            kw.pop(k)
    rec.ev("Make", o="u", post={"u": pdata(u)})
    rec.ev("Make", o="c", post={"c": pcal(c)})
    one(rng, rec, u, c, a, kw, "Calibrate", uvutils.uvcalibrate, pcal)


def one(rng, rec, u, c, a, kw, op, fn, pr):
    if rng.random() < 0.5:
        out, res = call(fn, u, c, **kw)
        ev(rec, op, out, res, o="u", o2="c", r="u", args=a, post={"u": pdata(u), "c": pr(c)})
    else:
        out, res = call(fn, u, c, inplace=False, **kw)
        ev(rec, op, out, res, o="u", o2="c", r="r", args=a, post={"u": pdata(u), "c": pr(c), "r": pdata(res if out == "ok" else u)})


def mk_flags(rng, u):
    typ = str(rng.choice(["baseline", "baseline", "baseline", "waterfall", "antenna"]))
    src = u.copy()
    src.flag_array[:] = False
    if typ == "antenna":
        ants = np.union1d(u.ant_1_array, u.ant_2_array)
        if rng.random() < 0.3:
            ants = rng.permutation(ants)[:max(1, len(ants) - 1)]
        t = np.unique(u.time_array)
        if rng.random() < 0.2 and len(t) > 1:
            t = t[:-1]
        jones = [int(p) for p in u.polarization_array]
        if jones[0] > 0:
            jones = [-5]
        if rng.random() < 0.3:
            jones = jones[:1]
        tel = u.telescope.copy()
        tel.x_orientation = tel.x_orientation or "east"
        cal = UVCal.new(cal_style="redundant", gain_convention="divide", jones_array=np.array(jones), telescope=tel, ant_array=rng.permutation(ants),
                        time_array=rng.permutation(t), freq_array=u.freq_array, channel_width=u.channel_width, flex_spw_id_array=u.flex_spw_id_array,
                        integration_time=10.0, data={"gain_array": np.ones((len(ants), u.Nfreqs, len(t), len(jones)), complex)})
        cal.spw_array = u.spw_array
        f = UVFlag(cal, mode="flag")
    else:
        f = UVFlag(src, mode="flag", waterfall=typ == "waterfall")
    if rng.random() < 0.06:
        f.to_metric()
        return f
    f.flag_array = rng.random(f.flag_array.shape) < 0.4
    if typ == "baseline":
        if rng.random() < 0.4:
            f.select(blt_inds=sorted(rng.choice(f.Nblts, int(rng.integers(1, f.Nblts + 1)), replace=False)))
        if rng.random() < 0.15:
            f.select(times=[rng.choice(f.time_array)])
        if rng.random() < 0.4:
            p = rng.permutation(f.Nblts)
            for k in ("time_array", "lst_array", "ant_1_array", "ant_2_array", "baseline_array", "flag_array"):
                setattr(f, k, getattr(f, k)[p])
    if rng.random() < 0.25:
        f.select(freq_chans=sorted(rng.choice(f.Nfreqs, 1 if rng.random() < 0.6 else int(rng.integers(1, f.Nfreqs + 1)), replace=False)))
    elif rng.random() < 0.3:
        p = rng.permutation(f.Nfreqs)
        ax = {"baseline": 1, "waterfall": 1, "antenna": 1}[typ]
        f.freq_array, f.channel_width, f.flex_spw_id_array = f.freq_array[p], f.channel_width[p], f.flex_spw_id_array[p]
        f.flag_array = np.take(f.flag_array, p, axis=ax)
    if rng.random() < 0.3:
        p = rng.permutation(f.Npols)[:f.Npols if rng.random() < 0.6 else int(rng.integers(1, f.Npols + 1))]
        f.polarization_array = f.polarization_array[p]
        f.flag_array = f.flag_array[..., p]
        f.Npols = len(p)
    r = rng.random()
    if r < 0.06:
        f.time_array = f.time_array + float(rng.choice([-1, 1])) * 3 / 86400
        f.set_lsts_from_time_array()
    elif r < 0.12:
        f.freq_array = f.freq_array + float(rng.choice([-1, 1])) * 1e4
    f.check()
    return f


def flag_scenario(rng, rec):
    u = mk_data(rng)
    f = mk_flags(rng, u)
    kw = {"force_pol": bool(rng.random() < 0.6), "unflag_first": bool(rng.random() < 0.3), "flag_missing": bool(rng.random() < 0.5)}
    a = {"force": kw["force_pol"], "unflag": kw["unflag_first"], "missing": kw["flag_missing"]}
    for k, v in (("force_pol", True), ("unflag_first", False), ("flag_missing", True)):
        if kw[k] == v and rng.random() < 0.5:
            kw.pop(k)
    rec.ev("Make", o="u", post={"u": pdata(u)})
    rec.ev("Make", o="c", post={"c": projf(f)})
    one(rng, rec, u, f, a, kw, "ApplyFlags", uvutils.apply_uvflag, projf)


def run(chk):
    tr = chk.scenarios("calibrate", cal_scenario, chk.n(800, 8000))
    tr += chk.scenarios("flags", flag_scenario, chk.n(800, 8000))
    chk.validate("TraceApply", "TraceApply.cfg", tr, min_ops={"Calibrate/ok": 80, "Calibrate/error": 30, "ApplyFlags/ok": 100, "ApplyFlags/error": 20})
