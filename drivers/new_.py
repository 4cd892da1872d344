"""C26: objects built from their parts (UVData.new, UVCal.new, UVCal.initialize_from_uvdata)."""
import numpy as np
from astropy.time import Time

from pyuvdata import UVCal, UVData
from vf.cal import make_cal, projc
from vf.harness import call
from vf.num import fx
from vf.uvd import JD0, enu_table, make_tel, make_uvd, pcat, proj, ptel, t2tok

STR = {"east": {-5: "ee", -6: "nn", -7: "en", -8: "ne"}, "north": {-5: "nn", -6: "ee", -7: "ne", -8: "en"}}
XY = {-1: "rr", -2: "ll", -3: "rl", -4: "lr", -5: "xx", -6: "yy", -7: "xy", -8: "yx", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
TFN = {"T": True, "F": False, "N": None}


def lst_of(tel, jd):
    """Apparent sidereal time by astropy, in 1e-7 rad."""
    return fx(Time(jd, format="jd", location=tel.location).sidereal_time("apparent").rad, 1e7)


def times_of(rng, n, uniq=True):
    step = float(rng.choice([10.0, 20.0, 32.5]))
    t = float(rng.integers(0, 50)) * 100 + step * np.arange(n)
    if rng.random() < 0.4:
        t = t + np.cumsum(rng.integers(0, 3, n)) * step
    t = JD0 + t / 86400
    if rng.random() < 0.4:
        t = t[rng.permutation(n)]
    return t


def freqs_of(rng, n=None):
    n = n or int(rng.integers(1, 5))
    w = float(rng.choice([1e5, 2.5e5]))
    f = 1e8 + w * np.cumsum(rng.integers(1, 3, n))
    r = rng.random()
    if r < 0.2:
        f = f[::-1].copy()
    elif r < 0.3:
        f = f[rng.permutation(n)]
    ch = rng.random()
    if ch < 0.35:
        widths, arg = [], None
    elif ch < 0.6:
        widths, arg = [w], float(w)
    elif ch < 0.95:
        arr = w * rng.integers(1, 4, n)
        widths, arg = [int(x) for x in arr], arr.astype(float)
    else:
        arr = np.full(n + 2, w)
        widths, arg = [int(x) for x in arr], arr
    sp = rng.random()
    if sp < 0.5:
        ids, sarg = [], None
    else:
        k = min(n, int(rng.integers(1, 4)))
        pool = rng.choice([0, 1, 2, 3, 7, 11], k, replace=False)
        ids = pool[np.sort(np.concatenate([np.arange(k), rng.integers(0, k, n - k)]))].tolist()
        sarg = np.array(ids)
    return f, widths, arg, [int(x) for x in ids], sarg


def its_of(rng, n):
    r = rng.random()
    if r < 0.35:
        return [], None
    if r < 0.6:
        return [7500], 7.5
    if r < 0.95:
        v = rng.integers(1, 9, n) * 2.5
        return [int(x * 1000) for x in v], v
    return [1000] * (n + 2), np.ones(n + 2)


def pol_arg(rng, pols, xo):
    pols = [int(p) for p in pols]
    r = rng.random()
    if r < 0.4:
        return np.array(pols)
    if r < 0.5:
        return pols
    if r < 0.75 and xo is not None and all(p in STR["east"] for p in pols):
        return [STR[xo][p] for p in pols]
    return [XY[p] for p in pols]


DUMMY = {}


def dummy(kind):
    if kind not in DUMMY:
        g = np.random.default_rng(0)
        DUMMY[kind] = proj(make_uvd(g)) if kind == "u" else projc(make_cal(g))
    return DUMMY[kind]


def sc_new(rng, rec):
    tel = make_tel(rng, nants=int(rng.integers(2, 5)), big=[False, True, "huge"][int(rng.choice(3, p=[0.85, 0.08, 0.07]))])
    ants = [int(x) for x in tel.antenna_numbers]
    allp = [(a, b) for i, a in enumerate(ants) for b in ants[i:]]
    kw = {"telescope": tel}
    a = {"tel": ptel(tel), "given": bool(rng.random() < 0.75), "outer": "N", "tfast": str(rng.choice(["T", "F", "N"])), "badkw": bool(rng.random() < 0.04)}
    pairs = []
    mode = str(rng.choice(["outer", "outer", "rows", "rows", "odd"]))
    times = times_of(rng, int(rng.integers(1, 4)))
    if a["given"]:
        pairs = [allp[i] for i in rng.choice(len(allp), int(rng.integers(1, min(5, len(allp)) + 1)), replace=False)]
        if rng.random() < 0.5:
            pairs = [p[::-1] if rng.random() < 0.5 else p for p in pairs]
        if mode == "outer":
            a["outer"] = "N" if len(pairs) != len(times) and rng.random() < 0.5 else "T"
        elif mode == "rows":
            grid = [(t, p) for t in times for p in pairs] if rng.random() < 0.6 else [(t, p) for p in pairs for t in times]
            r = rng.random()
            if r < 0.3:
                grid = [grid[i] for i in rng.permutation(len(grid))]
            if r > 0.6:
                grid = [grid[i] for i in np.sort(rng.choice(len(grid), int(rng.integers(1, len(grid) + 1)), replace=False))]
            times, pairs = np.array([t for t, _ in grid]), [p for _, p in grid]
            a["outer"] = "F" if rng.random() < 0.6 else "N"
            if rng.random() < 0.3:
                # only ever a true statement
                ut, up = sorted(set(times)), sorted(set(pairs))
                full = len(ut) * len(up) == len(times) and len(set(zip(times, pairs))) == len(times)
                slow_t = all(list(times[i * len(up):(i + 1) * len(up)]) == [times[i * len(up)]] * len(up) for i in range(len(ut)))
                slow_p = all(pairs[i * len(ut):(i + 1) * len(ut)] == [pairs[i * len(ut)]] * len(ut) for i in range(len(up)))
                if full and slow_t and all(pairs[i] == pairs[i % len(up)] for i in range(len(pairs))):
                    kw["blts_are_rectangular"] = True
                elif full and slow_p and all(times[i] == times[i % len(ut)] for i in range(len(times))):
                    kw["blts_are_rectangular"] = True
                elif len(times) != len(ut) * len(up):
                    kw["blts_are_rectangular"] = False
        else:
            a["outer"] = str(rng.choice(["T", "F", "N"]))
            if rng.random() < 0.5:
                times = np.concatenate([times, times[:1]])
            if rng.random() < 0.5:
                pairs = pairs + pairs[:1]
        kw["antpairs"] = np.array(pairs) if rng.random() < 0.5 else pairs
        if a["outer"] != "N":
            kw["do_blt_outer"] = TFN[a["outer"]]
    elif rng.random() < 0.3:
        kw["do_blt_outer"] = True
    if a["tfast"] != "N":
        kw["time_axis_faster_than_bls"] = TFN[a["tfast"]]
    a["times"] = [t2tok(t) for t in times]
    a["lst"] = [lst_of(tel, t) for t in times]
    a["pairs"] = [[int(x) for x in p] for p in pairs]
    a["its"], it = its_of(rng, len(times))
    if it is not None:
        kw["integration_time"] = it
    f, a["widths"], w, a["spwids"], sp = freqs_of(rng)
    a["freqs"] = [fx(x) for x in f]
    if w is not None:
        kw["channel_width"] = w
    if sp is not None:
        kw["flex_spw_id_array"] = sp
    base = [[-5, -6, -7, -8], [-1, -2, -3, -4], [1, 2, 3, 4], [-5, -6, -7, -8]][int(rng.integers(0, 4))]
    a["pols"] = [int(x) for x in rng.permutation(base)[:int(rng.integers(1, 5))]]
    kw["polarization_array"] = pol_arg(rng, a["pols"], tel.x_orientation)
    uniq_t, uniq_p = len(set(times)) == len(times), len(set(pairs)) == len(pairs)
    npairs = len(pairs) if a["given"] else len(allp)
    isrows = a["given"] and (a["outer"] == "F" or (a["outer"] == "N" and len(times) == len(pairs) and not (uniq_t and uniq_p)))
    nblts = len(times) if isrows else len(times) * npairs
    cat, ids, unproj = {}, [], True
    if rng.random() < 0.5:
        npc = int(rng.choice([1, 1, 2, 3]))
        for k, cid in enumerate(rng.choice([0, 1, 2, 5, 9], npc, replace=False)):
            if rng.random() < 0.5:
                cat[int(cid)] = {"cat_name": f"src{k}", "cat_type": "sidereal", "cat_lon": 0.3 + 0.4 * k, "cat_lat": -0.5 + 0.1 * k,
                                 "cat_frame": "icrs"}
                unproj = False
            else:
                cat[int(cid)] = {"cat_name": f"unp{k}", "cat_type": "unprojected"}
        kw["phase_center_catalog"] = cat
        if npc > 1 and rng.random() < 0.9 or rng.random() < 0.3:
            ids = rng.choice(list(cat), nblts).astype(int).tolist()
            kw["phase_center_id_array"] = np.array(ids)
    a["cat"] = [{"id": c, "name": d["cat_name"]} for c, d in cat.items()]
    a["ids"] = [int(x) for x in ids]
    a["enu"] = [enu_table(tel)] if unproj else []
    a["units"] = str(rng.choice(["Jy", "uncalib", "K str", "furlong"], p=[0.4, 0.4, 0.17, 0.03]))
    kw["vis_units"] = a["units"]
    a["data"] = str(rng.choice(["none", "empty", "given", "given", "badshape"], p=[0.2, 0.2, 0.3, 0.25, 0.05]))
    shape = (nblts, len(f), len(a["pols"]))
    a["cells"] = []
    if a["data"] == "empty":
        kw["empty"] = True
    elif a["data"] == "given":
        d = np.arange(1, 1 + int(np.prod(shape))).reshape(shape)
        kw["data_array"] = d + 1j * (2 * d + 1)
        fl = np.zeros(shape, bool)
        ns = np.ones(shape)
        if rng.random() < 0.6:
            kw["flag_array"] = fl = rng.random(shape) < 0.4
        if rng.random() < 0.6:
            kw["nsample_array"] = ns = rng.integers(0, 6, shape).astype(float)
        a["cells"] = [[int(x), int(2 * x + 1), int(y), int(z * 1000)] for x, y, z in zip(d.ravel(), fl.ravel(), ns.ravel())]
    elif a["data"] == "badshape":
        which = str(rng.choice(["data_array", "flag_array", "nsample_array"]))
        kw["data_array"] = np.ones(shape, complex)
        bad = np.ones((shape[0] + 1,) + shape[1:], {"data_array": complex, "flag_array": bool, "nsample_array": float}[which])
        kw[which] = bad
    a["xkw"] = []
    if rng.random() < 0.4:
        kw["extra_keywords"] = {"foo": 3, "bar": "text"}
        a["xkw"] = ["foo=3", "bar='text'"]
    if a["badkw"]:
        kw["no_such_attribute"] = 3
    h = ""
    if rng.random() < 0.5:
        h = "my own history. "
        kw["history"] = h
    out, u = call(UVData.new, freq_array=f, times=times, **kw)
    a["hist"] = out == "error" or (u.history.startswith(h) and "new_uvdata" in u.history)
    rec.ev("New", args=a, out=out, post=proj(u) if out == "ok" else dummy("u"), **({"text": u[-150:]} if out == "error" else {}))


def sc_cal(rng, rec):
    tel = make_tel(rng, nants=int(rng.integers(2, 5)), x_orient=str(rng.choice(["east", "north"])))
    if rng.random() < 0.04:
        tel.x_orientation = None
    nums = [int(x) for x in tel.antenna_numbers]
    kw = {"telescope": tel}
    a = {"tel": ptel(tel), "badkw": bool(rng.random() < 0.04), "ants": [], "ranged": bool(rng.random() < 0.4), "times": [], "ranges": []}
    if rng.random() < 0.5:
        a["ants"] = [int(x) for x in rng.permutation(nums)[:int(rng.integers(1, len(nums) + 1))]]
        if rng.random() < 0.06:
            a["ants"][-1] = 57
        kw["ant_array"] = np.array(a["ants"])
    t = times_of(rng, int(rng.integers(1, 4)))
    if a["ranged"]:
        half = rng.integers(1, 5, len(t)) / 86400
        tr = np.stack([t - half, t + half], axis=1)
        a["ranges"] = [[t2tok(x), t2tok(y)] for x, y in tr]
        a["lst"] = [[lst_of(tel, x), lst_of(tel, y)] for x, y in tr]
        kw["time_range"] = tr
    else:
        a["times"] = [t2tok(x) for x in t]
        a["lst"] = [[lst_of(tel, x)] for x in t]
        kw["time_array"] = t
    a["its"], it = its_of(rng, len(t))
    if it is not None:
        kw["integration_time"] = it
    a["wide"] = bool(rng.random() < 0.4)
    a["type"] = ""
    a["franges"], a["freqs"], a["widths"], a["spwids"] = [], [], [], []
    if a["wide"]:
        k = int(rng.integers(1, 4))
        fr = np.array([[1e8 + 5e6 * s, 1e8 + 5e6 * s + float(rng.integers(1, 9)) * 1e5] for s in rng.permutation(k)])
        a["franges"] = [[fx(x), fx(y)] for x, y in fr]
        kw["freq_range"] = fr[0] if k == 1 and rng.random() < 0.5 else fr
        nf = k
    if not a["wide"] or rng.random() < 0.05:
        if a["wide"] or rng.random() < 0.95:
            f, a["widths"], w, a["spwids"], sp = freqs_of(rng)
            a["freqs"] = [fx(x) for x in f]
            kw["freq_array"] = f
            nf = len(f)
            if w is not None:
                kw["channel_width"] = w
            if sp is not None:
                kw["flex_spw_id_array"] = sp
        else:
            nf = 1
    if rng.random() < 0.5:
        a["type"] = str(rng.choice(["gain", "delay"]))
        kw["cal_type"] = a["type"]
    typ = (a["type"] or "delay") if a["wide"] else "gain"
    a["style"] = str(rng.choice(["sky", "redundant", "magic"], p=[0.45, 0.5, 0.05]))
    a["conv"] = str(rng.choice(["divide", "multiply"]))
    a["hasref"] = a["style"] == "sky" and bool(rng.random() < 0.93)
    a["hascat"] = a["style"] == "sky" and bool(rng.random() < 0.93)
    if a["hasref"]:
        kw["ref_antenna_name"] = str(tel.antenna_names[0])
    if a["hascat"]:
        kw["sky_catalog"] = "gleam"
    r = rng.random()
    if r < 0.15:
        kw["jones_array"], a["jones"] = "linear", [-5, -6, -7, -8]
    elif r < 0.3:
        kw["jones_array"], a["jones"] = "circular", [-1, -2, -3, -4]
    else:
        base = [[-5, -6, -7, -8], [-1, -2, -3, -4]][int(rng.integers(0, 2))]
        a["jones"] = [int(x) for x in rng.permutation(base)[:int(rng.integers(1, 5))]]
        ch = rng.random()
        if ch < 0.5:
            kw["jones_array"] = np.array(a["jones"])
        elif ch < 0.8 and base[0] == -5 and tel.x_orientation:
            kw["jones_array"] = ["J" + STR[str(tel.x_orientation)][j] for j in a["jones"]]
        else:
            kw["jones_array"] = ["J" + XY[j] for j in a["jones"]]
    a["data"] = str(rng.choice(["none", "empty", "given"]))
    shape = (len(a["ants"] or nums), nf, len(t), len(a["jones"]))
    a["cells"] = []
    if a["data"] == "empty":
        kw["empty"] = True
    elif a["data"] == "given":
        n = int(np.prod(shape))
        tok = np.arange(1, n + 1).reshape(shape)
        fl, q, data = np.zeros(shape, bool), None, {}
        vals = np.zeros(shape) if typ == "delay" else np.ones(shape, complex)
        if rng.random() < 0.8:
            vals = tok * 1e-9 if typ == "delay" else tok + 1j * (2 * tok)
            data[typ + "_array"] = vals
        if rng.random() < 0.5 or not data:
            data["flag_array"] = fl = rng.random(shape) < 0.4
        if rng.random() < 0.4:
            data["quality_array"] = q = rng.integers(1, 90, shape) / 10
        kw["data"] = data
        vr, fr_, qr = vals.ravel(), fl.ravel(), None if q is None else q.ravel()
        a["cells"] = [[fx(vr[i], 1e9) if typ == "delay" else fx(vr[i].real), 0 if typ == "delay" else fx(vr[i].imag), int(fr_[i]),
                       -1 if qr is None else fx(qr[i], 10)] for i in range(n)]
    if a["badkw"]:
        kw["no_such_attribute"] = 3
    out, c = call(UVCal.new, cal_style=a["style"], gain_convention=a["conv"], **kw)
    rec.ev("CalNew", args=a, out=out, post=projc(c) if out == "ok" else dummy("c"), **({"text": c[-150:]} if out == "error" else {}))


def sc_from(rng, rec):
    u = make_uvd(rng, ntimes=int(rng.integers(1, 4)), x_orient=str(rng.choice(["east", "north"])) if rng.random() < 0.9 else None,
                 meta_only=bool(rng.random() < 0.5), flexpol=bool(rng.random() < 0.05))
    u.history = "previous life"
    before = proj(u)
    tel = u.telescope
    ur = {"rows": [[b["t"], b["lst"], b["it"]] for b in before["axes"]["blt"]],
          "freqs": [[x["f"], x["w"], x["spw"]] for x in before["axes"]["freq"]],
          "ants": sorted(set(u.ant_1_array.tolist()) | set(u.ant_2_array.tolist())),
          "pols": [int(p) for p in u.polarization_array], "tel": before["tel"]}
    a = {"style": str(rng.choice(["sky", "redundant"])), "conv": str(rng.choice(["divide", "multiply"])),
         "type": str(rng.choice(["gain", "gain", "delay"])), "wide": bool(rng.random() < 0.2), "jones": [], "antnums": [], "newtimes": [],
         "xo": "", "empty": bool(rng.random() < 0.5), "hasref": False}
    kw = {"cal_type": a["type"], "metadata_only": not a["empty"]}
    if a["wide"]:
        kw["wide_band"] = True
    if a["style"] == "sky" and rng.random() < 0.95:
        a["hasref"] = True
        kw["ref_antenna_name"], kw["sky_catalog"] = str(tel.antenna_names[0]), "gleam"
    if rng.random() < 0.4:
        base = [[-5, -6, -7, -8], [-1, -2, -3, -4]][int(rng.integers(0, 2))]
        a["jones"] = [int(x) for x in rng.permutation(base)[:int(rng.integers(1, 5))]]
        kw["jones_array"] = np.array(a["jones"])
    if rng.random() < 0.4:
        sub = [int(x) for x in rng.permutation(tel.antenna_numbers)[:int(rng.integers(1, tel.Nants + 1))]]
        if set(sub) & set(ur["ants"]):
            a["antnums"] = sub
            names = {int(n): str(m) for n, m in zip(tel.antenna_numbers, tel.antenna_names)}
            if rng.random() < 0.5:
                kw["antenna_numbers"] = sub
            else:
                kw["antenna_names"] = [names[x] for x in sub]
            if a["hasref"]:
                kw["ref_antenna_name"] = names[sub[0]]
    if rng.random() < 0.2:
        t = times_of(rng, int(rng.integers(1, 4)))
        kw["time_array"] = t
        a["newtimes"] = [t2tok(x) for x in t]
    if rng.random() < 0.25:
        a["xo"] = str(rng.choice(["east", "north"]))
        kw["x_orientation"] = a["xo"][0] if rng.random() < 0.5 else a["xo"]
    inc = bool(rng.random() < 0.7)
    if not inc:
        kw["include_uvdata_history"] = False
    out, c = call(UVCal.initialize_from_uvdata, u, cal_style=a["style"], gain_convention=a["conv"], **kw)
    a["histok"] = out == "error" or ("previous life" in c.history) == inc
    rec.ev("FromUVData", u=ur, args=a, out=out, post=projc(c) if out == "ok" else dummy("c"), same=proj(u) == before,
           **({"text": c[-150:]} if out == "error" else {}))


def run(chk):
    from vf.num import fx  # noqa: F401
    t1 = chk.scenarios("new", sc_new, chk.n(700, 12000))
    chk.validate("TraceNew", "TraceNew.cfg", t1, min_ops={"New/ok": 250})
    t2 = chk.scenarios("cal", sc_cal, chk.n(400, 8000))
    t2 += chk.scenarios("from", sc_from, chk.n(300, 6000))
    chk.validate("TraceCalNew", "TraceCalNew.cfg", t2, min_ops={"CalNew/ok": 120, "FromUVData/ok": 100})
