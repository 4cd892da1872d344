"""C18 (select, combine, or, files) and C19 (conversions) of UVFlag objects."""
import os

import numpy as np

from pyuvdata import UVFlag
from pyuvdata import utils as uvutils
from pyuvdata.uvflag import flags2waterfall
from vf.cal import make_cal
from vf.flag import fill, fm, like, make_flag, projf
from vf.harness import call
from vf.num import fx
from vf.uvd import make_tel, make_uvd, t2tok

from beam import as_form, ev, pick


def gen_select(rng, u):
    a, kw = {"x": 0}, {}
    bl = u.type == "baseline"
    opts = ["times", "inds", "freqs", "chans", "pols", "ants"]
    opts += ["bls", "astr"] if bl or rng.random() < 0.1 else []
    opts += ["ainds"] if u.type == "antenna" else []
    nrow = u.Nblts if bl else u.Ntimes
    for o in rng.choice(opts, int(rng.choice([1, 1, 2, 3])), replace=False):
        bad = rng.random() < 0.07
        if o == "times":
            v = pick(rng, np.unique(u.time_array)) + ([u.time_array[0] + 1.0] if bad else [])
            a[o] = [t2tok(x) for x in v]
            kw["times"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "inds":
            v = [int(x) for x in pick(rng, np.arange(nrow))] + ([int(rng.choice([nrow, -1]))] if bad else [])
            if rng.random() < 0.2:
                v += v[:1]
            a[o] = v
            kw["blt_inds"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "freqs":
            v = pick(rng, u.freq_array) + ([1.23e9] if bad else [])
            a[o] = [fx(x) for x in v]
            kw["frequencies"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "chans":
            v = [int(x) for x in pick(rng, np.arange(u.Nfreqs))] + ([u.Nfreqs + 1] if bad else [])
            a[o] = v
            kw["freq_chans"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "pols":
            v = [int(x) for x in pick(rng, u.polarization_array)]
            if bad:
                v += [[-1, -5][int(v[0] > -5)]]
            a[o] = [str(x) for x in v]
            if rng.random() < 0.4 and not bad:
                v = [str(uvutils.polnum2str(x, x_orientation=u.telescope.x_orientation if rng.random() < 0.5 else None)) for x in v]
            kw["polarizations"] = v[0] if len(v) == 1 and not isinstance(v[0], str) and rng.random() < 0.5 else v
        elif o == "ants":
            if u.type == "waterfall":
                if rng.random() < 0.8:
                    continue
                v = [int(u.telescope.antenna_numbers[0])]
            else:
                v = [int(x) for x in pick(rng, u.ant_array if u.type == "antenna" else np.union1d(u.ant_1_array, u.ant_2_array), 1 if u.type == "antenna" else 2 if u.Nants_data > 1 else 1)]
            v += [1234] if bad else []
            if rng.random() < 0.2:
                v += v[:1]
            if "ainds" in a:
                continue
            a[o] = v
            kw["antenna_nums"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "ainds":
            if "ants" in a:
                continue
            v = [int(x) for x in pick(rng, np.arange(u.Nants_data))] + ([int(rng.choice([u.Nants_data, -1]))] if bad else [])
            a[o] = v
            kw["ant_inds"] = as_form(rng, v)
        elif o == "astr":
            if rng.random() < 0.5:
                continue
            a[o] = str(rng.choice(["auto", "cross", "all"]))
            kw["ant_str"] = a[o]
        else:
            if u.type != "baseline":
                v = [(0, 1)]
            else:
                v = [(int(x), int(y)) for x, y in pick(rng, np.array(sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))))]
            v = [(y, x) if rng.random() < 0.4 else (x, y) for x, y in v]
            if bad:
                v += [(1234, 1235)]
            withp = rng.random() < 0.3 and set(u.polarization_array) <= {-5, -6, -7, -8}
            pp = [int(rng.choice(u.polarization_array)) if withp else "" for _ in v]
            a[o] = [{"a1": x, "a2": y, "p": str(p)} for (x, y), p in zip(v, pp)]
            v = [(x, y) + ((uvutils.polnum2str(p),) if withp else ()) for (x, y), p in zip(v, pp)]
            kw["bls"] = v[0] if len(v) == 1 and rng.random() < 0.5 else v
    return a, kw


def do_select(rng, rec, u, o, r):
    a, kw = gen_select(rng, u)
    if o == r:
        out, res = call(u.select, **kw)
        n = u
    else:
        out, res = call(u.select, inplace=False, **kw)
        n = res if out == "ok" else u
    ev(rec, "Select", out, res, o=o, r=r, args=a, post={o: projf(u), r: projf(n)})
    return n if out == "ok" else None


def bad(rng, rec, u):
    n = [int(x) for x in u.telescope.antenna_numbers]
    rows = u.Nblts if u.type == "baseline" else u.Ntimes
    s = [{"times": [u.time_array[0] + 40]}, {"times": [u.time_array[0], u.time_array[0] + 40]}, {"blt_inds": [rows]}, {"blt_inds": [0, -1]}, {"frequencies": [1.0]}, {"freq_chans": [u.Nfreqs]}, {"polarizations": [17]},
         {"polarizations": ["nosuch"]}, {"antenna_nums": [max(n) + 1]}]
    if u.type == "baseline":
        x = (int(u.ant_1_array[0]), int(u.ant_2_array[0]))
        s += [{"bls": []}, {"bls": [x, 3]}, {"bls": [(x[0], "y")]}, {"bls": [(x[0], max(n) + 1)]}, {"bls": [x], "ant_str": "all"}, {"ant_str": "all", "antenna_nums": [x[0]]}, {"bls": [x + (3,)]}, {"ant_inds": [0]}][:7]
    else:
        s += [{"bls": [(n[0], n[-1])]}, {"ant_str": "auto"}]
        if u.type == "waterfall":
            s += [{"antenna_nums": [n[0]]}]
        else:
            s += [{"ant_inds": [u.Nants_data]}]
    kw = dict(s[int(rng.integers(0, len(s)))], inplace=bool(rng.random() < 0.6))
    out, res = call(u.select, **kw)
    ev(rec, "Refused", out, res, o="a", args={"kw": str(kw), "type": u.type}, post={"a": projf(u)})


def sel_scenario(rng, rec):
    u = make_flag(rng)
    rec.ev("Make", o="a", post={"a": projf(u)})
    for k in range(3):
        if rng.random() < 0.15:
            bad(rng, rec, u)
        r = do_select(rng, rec, u, "a", "b")
        if r is not None and rng.random() < 0.5:
            if do_select(rng, rec, r, "b", "b") is None:
                return


AXES = {"waterfall": ["time", "frequency", "polarization", "pol"], "baseline": ["time", "baseline", "frequency", "polarization", "jones"],
        "antenna": ["time", "antenna", "frequency", "polarization", "jones"]}


def shift(rng, b, ax):
    """Move the labels of b along axis ax away from the original ones (or not)."""
    if ax == "time":
        b.time_array = b.time_array + float(rng.choice([500, 1000])) / 86400.0
        b.set_lsts_from_time_array()
    elif ax == "frequency":
        b.freq_array = b.freq_array + 3e7
        if rng.random() < 0.5:
            old = b.spw_array.copy()
            b.spw_array = rng.choice([20, 21, 22, 0, 1], len(old), replace=False)
            b.flex_spw_id_array = np.array([b.spw_array[list(old).index(x)] for x in b.flex_spw_id_array])


def add_scenario(rng, rec):
    typ = str(rng.choice(["waterfall", "baseline", "antenna"]))
    u = make_flag(rng, typ=typ, weights=True)
    ax = str(rng.choice(AXES[typ]))
    r = rng.random()
    if ax in ("time", "frequency") and rng.random() < 0.85:
        a, b = u, u.copy()
        fill(rng, b, unique=True, ws=u.weights_square_array is not None)
        for k in b._data_params:
            if b.mode == "metric":
                setattr(b, k, getattr(b, k) + 500)
        if rng.random() < 0.92:
            shift(rng, b, ax)
    elif ax in ("polarization", "pol", "jones"):
        if u.Npols == 1:
            a, b = u, u.copy()
            b.polarization_array = np.array([{-5: -6, -1: -2, 1: 2}.get(int(u.polarization_array[0]), -5)])
        else:
            m = int(rng.integers(1, u.Npols))
            p = rng.permutation(u.polarization_array)
            a, b = u.select(polarizations=[int(x) for x in p[:m]], inplace=False), u.select(polarizations=[int(x) for x in p[m:]], inplace=False)
    elif ax == "antenna":
        if u.Nants_data == 1:
            return
        m = int(rng.integers(1, u.Nants_data))
        p = rng.permutation(u.Nants_data)
        a, b = u.select(ant_inds=list(p[:m]), inplace=False), u.select(ant_inds=list(p[m:]), inplace=False)
        if rng.random() < 0.5:
            # b's telescope knows only its own antennas
            t = b.telescope
            keep = np.isin(t.antenna_numbers, b.ant_array)
            for k in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
                if getattr(t, k) is not None:
                    setattr(t, k, getattr(t, k)[keep])
            t.Nants = int(keep.sum())
    elif ax == "baseline":
        pairs = sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))
        a, b = u, u.copy()
        per = {p: tuple(u.time_array[(u.ant_1_array == p[0]) & (u.ant_2_array == p[1])]) for p in pairs}
        gs = [p for p in pairs if per[p] == per[pairs[0]]]
        if len(gs) < 2:
            return
        a, b = u.select(bls=[gs[0]], inplace=False), u.select(bls=[gs[1]], inplace=False)
    else:
        a, b = u, make_flag(rng, typ=typ if rng.random() < 0.7 else None)
    if r < 0.06:
        b.telescope.name = "elsewhere"
    elif r < 0.1 and b.mode == "metric":
        b.to_flag(threshold=3)
    elif r < 0.14 and a.type == b.type == "waterfall" and a.mode == b.mode == "metric":
        x = a if rng.random() < 0.5 else b
        x.weights_square_array = np.ones_like(x.metric_array) if x.weights_square_array is None else None
    elif r < 0.18:
        ax = str(rng.choice(["time", "baseline", "antenna", "frequency", "pol", "bogus"]))
        if ax in ("antenna", "baseline", "pol") and ax in (typ, "pol"):
            ax = "bogus"
    elif r < 0.22 and ax not in ("polarization", "pol", "jones") and a.Npols == 1 and b.Npols == 1:
        b.polarization_array = np.array([{-5: -6, -1: -2, 1: 2}.get(int(a.polarization_array[0]), -5)])
    b.filename = [str(rng.choice(["bbb.uvh5", "ccc.uvh5"]))]
    rec.ev("Make", o="a", post={"a": projf(a)})
    rec.ev("Make", o="b", post={"b": projf(b)})
    inpl = rng.random() < 0.4
    kw = {} if ax == "time" and rng.random() < 0.5 else {"axis": ax.upper() if rng.random() < 0.1 else ax}
    if inpl:
        out, res = call(a.__iadd__, b, **kw)
        ev(rec, "Add", out, res, o="a", o2="b", r="a", args={"axis": ax}, post={"a": projf(a), "b": projf(b)})
    else:
        out, res = call(a.__add__, b, **kw)
        ev(rec, "Add", out, res, o="a", o2="b", r="c", args={"axis": ax}, post={"a": projf(a), "b": projf(b), "c": projf(res if out == "ok" else a)})
        if out == "ok" and rng.random() < 0.3:
            poke(rec, res, {"a": lambda: projf(a), "b": lambda: projf(b)})


def poke(rec, u, seen):
    """Change the arrays of u in place: no other object may see it."""
    for k in ("time_array", "lst_array", "freq_array", "channel_width", "polarization_array", "spw_array", "flex_spw_id_array", "ant_1_array", "ant_2_array",
              "baseline_array", "ant_array", "flag_array", "metric_array", "weights_array"):
        x = getattr(u, k)
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fiub":
            x[...] = ~x if x.dtype == bool else x + 1
        elif isinstance(x, list):
            x.clear()
    for k in ("antenna_numbers", "antenna_positions", "antenna_diameters"):
        x = getattr(u.telescope, k)
        if isinstance(x, np.ndarray):
            x[...] = x + 1
    if isinstance(u.filename, list):
        u.filename.append("poked")
    if u.extra_keywords is not None:
        u.extra_keywords["poked"] = 1
    rec.ev("Poke", seen={k: f() for k, f in seen.items()})


def or_scenario(rng, rec):
    a = make_flag(rng, mode="flag")
    b = a.copy()
    fill(rng, b)
    if rng.random() < 0.1:
        b.to_metric()
    rec.ev("Make", o="a", post={"a": projf(a)})
    rec.ev("Make", o="b", post={"b": projf(b)})
    if rng.random() < 0.5:
        out, res = call(a.__or__, b)
        ev(rec, "Or", out, res, o="a", o2="b", r="c", args={"x": 0}, post={"a": projf(a), "b": projf(b), "c": projf(res if out == "ok" else a)})
    else:
        out, res = call(a.__ior__, b)
        ev(rec, "Or", out, res, o="a", o2="b", r="a", args={"x": 0}, post={"a": projf(a), "b": projf(b)})


def file_scenario(rng, rec):
    paths = [os.path.join(rec.scratch, f"f{k}.h5") for k in range(2)]
    u = make_flag(rng)
    if rng.random() < 0.3 and u.Npols > 1 and u.weights_square_array is None:
        u.collapse_pol(method="mean")
    u.extra_keywords = {"k1": str(rng.choice(["text", ""])), "k2": int(rng.integers(0, 9)), "k3": 2.5, "k4": True, "longer key": "x y"}
    v = u.copy()
    fill(rng, v, unique=True, ws=u.weights_square_array is not None)
    if rng.random() < 0.85:
        shift(rng, v, "time")
    objs = {"a": u, "b": v}
    written = set()
    for k in objs:
        rec.ev("Make", o=k, post={k: projf(objs[k])})
    for step in range(5):
        if rng.random() < 0.55 or not written:
            o = str(rng.choice(["a", "b"]))
            p = paths[int(rng.integers(2))]
            cl = bool(rng.random() < 0.7)
            out, res = call(objs[o].write, p, clobber=cl, **({"data_compression": None} if rng.random() < 0.3 else {}))
            ev(rec, "Write", out, res, o=o, path=os.path.basename(p), args={"clobber": cl}, post={o: projf(objs[o])})
            if out == "ok":
                written.add(p)
        else:
            ps = [p for p in paths if p in written]
            if len(ps) == 2 and rng.random() < 0.4:
                ps = list(rng.permutation(ps))
            else:
                ps = [str(rng.choice(ps))]
            n = UVFlag() if rng.random() < 0.6 else None
            arg = ps[0] if len(ps) == 1 and rng.random() < 0.7 else (ps if rng.random() < 0.5 else tuple(ps))
            if n is None:
                out, n = call(UVFlag, arg)
                res = n
            else:
                out, res = call(n.read, arg)
            b = [os.path.basename(p) for p in ps]
            ev(rec, "Read", out, res, paths=b, names=b, r="r", post={"r": projf(n)} if out == "ok" else {"r": projf(u)})


METH = ["mean", "absmean", "quadmean", "or", "and"]


def meth(rng, u):
    if rng.random() < 0.07:
        return str(rng.choice(METH + ["bogus"]))
    return str(rng.choice(METH if u.mode == "flag" else METH[:3]))


def to_wf(rng, rec, u):
    keep, ws, m = bool(rng.random() < 0.5), bool(rng.random() < 0.3), meth(rng, u)
    kw = {}
    if m != "quadmean" or rng.random() < 0.5:
        kw["method"] = m.upper() if rng.random() < 0.1 else m
    if not keep or rng.random() < 0.5:
        kw["keep_pol"] = keep
    if ws:
        kw["return_weights_square"] = True
    out, res = call(u.to_waterfall, **kw)
    ev(rec, "ToWaterfall", out, res, o="a", r="a", args={"method": m, "keep": keep, "ws": ws}, post={"a": projf(u)})
    return out == "ok"


def conv_scenario(rng, rec):
    u = make_flag(rng, unique=False, ws=False)
    rec.ev("Make", o="a", post={"a": projf(u)})
    for step in range(int(rng.choice([1, 2, 2]))):
        k = str(rng.choice(["wf", "pol", "flag", "metric", "comb", "wf"]))
        if k == "wf":
            to_wf(rng, rec, u)
        elif k == "pol":
            m = meth(rng, u)
            out, res = call(u.collapse_pol, method=m)
            ev(rec, "CollapsePol", out, res, o="a", r="a", args={"method": m}, post={"a": projf(u)})
        elif k == "flag":
            thr = float(rng.choice([-3, 0, 0.5, 2, np.inf]))
            out, res = call(u.to_flag, **({} if np.isinf(thr) else {"threshold": thr}))
            ev(rec, "ToFlag", out, res, o="a", r="a", args={"thr": fm(thr)}, post={"a": projf(u)})
        elif k == "metric":
            if u.mode == "flag" and rng.random() < 0.6:
                # rows and columns that are flagged throughout
                ax = int(rng.integers(u.flag_array.ndim - 1))
                ix = [slice(None)] * u.flag_array.ndim
                ix[ax] = int(rng.integers(u.flag_array.shape[ax]))
                u.flag_array[tuple(ix)] = True
                rec.ev("Make", o="a", post={"a": projf(u)})
            w = bool(rng.random() < 0.7)
            out, res = call(u.to_metric, convert_wgts=w)
            ev(rec, "ToMetric", out, res, o="a", r="a", args={"wgts": w}, post={"a": projf(u)})
        else:
            if u.weights_square_array is not None:
                continue
            m = meth(rng, u)
            others = []
            for i in range(int(rng.choice([1, 2]))):
                v = u.copy()
                fill(rng, v)
                if rng.random() < 0.07:
                    v = make_flag(rng, typ=u.type, unique=False, ws=False)
                others.append(v)
                rec.ev("Make", o=f"o{i}", post={f"o{i}": projf(v)})
            names = [f"o{i}" for i in range(len(others))]
            arg = others[0] if len(others) == 1 and rng.random() < 0.5 else others
            if rng.random() < 0.5:
                out, res = call(u.combine_metrics, arg, method=m)
                ev(rec, "Combine", out, res, o="a", r="a", others=names, args={"method": m}, post={"a": projf(u), **{n: projf(v) for n, v in zip(names, others)}})
            else:
                out, res = call(u.combine_metrics, arg, method=m, inplace=False)
                ev(rec, "Combine", out, res, o="a", r="c", others=names, args={"method": m},
                   post={"a": projf(u), "c": projf(res if out == "ok" else u), **{n: projf(v) for n, v in zip(names, others)}})


def mess(rng, x):
    """Another object that differs in one of the things a broadcast needs to agree on."""
    k = int(rng.integers(6))
    if k == 0:
        x.freq_array = x.freq_array + 1e6
    elif k == 1:
        x.channel_width = x.channel_width * 2
    elif k == 2:
        x.telescope.name = "elsewhere"
    elif k == 3:
        x.telescope.antenna_names = np.array([s + "q" for s in x.telescope.antenna_names])
    elif k == 4:
        x.telescope.antenna_positions = x.telescope.antenna_positions + 1.0
    elif hasattr(x, "jones_array"):
        x.jones_array = np.array([{-5: -6, -6: -5, -7: -8, -8: -7, -1: -2, -2: -1, -3: -4, -4: -3}[int(j)] for j in x.jones_array])
    else:
        x.polarization_array = x.polarization_array[::-1] if x.Npols > 1 else np.array([{-5: -6, -1: -2, 1: 2}.get(int(x.polarization_array[0]), -5)])


def reorder_ants(rng, tel):
    p = rng.permutation(tel.Nants)
    for k in ("antenna_numbers", "antenna_names", "antenna_positions", "antenna_diameters"):
        if getattr(tel, k) is not None:
            setattr(tel, k, getattr(tel, k)[p])


def bl_scenario(rng, rec):
    uvd = make_uvd(rng, ntimes=int(rng.choice([2, 3])), x_orient=str(rng.choice(["east", "north"])))
    if rng.random() < 0.6:
        u = make_flag(rng, typ="waterfall", src=uvd, unique=rng.random() < 0.5)
    else:
        # antenna flags at the times of the data
        cal = make_cal(rng, tel=uvd.telescope.copy(), kind="gain", trange=False, jones=[int(p) for p in uvd.polarization_array if p < 0] or [-5])
        pols = uvd.polarization_array
        u = UVFlag(cal, mode=str(rng.choice(["flag", "flag", "flag", "metric"])))
        n = len(u.ant_array)
        ts = np.unique(uvd.time_array)
        lst = dict(zip(uvd.time_array, uvd.lst_array))
        if rng.random() < 0.5:
            ts = rng.permutation(ts)
        u.time_array, u.lst_array, u.Ntimes = ts, np.array([lst[t] for t in ts]), len(ts)
        for k in ("freq_array", "channel_width", "spw_array", "flex_spw_id_array", "Nspws", "Nfreqs"):
            setattr(u, k, np.copy(getattr(uvd, k)) if isinstance(getattr(uvd, k), np.ndarray) else getattr(uvd, k))
        u.polarization_array, u.Npols = pols.copy(), len(pols)
        if u.mode == "flag":
            u.flag_array = np.zeros((n, u.Nfreqs, u.Ntimes, u.Npols), bool)
        else:
            u.metric_array = np.zeros((n, u.Nfreqs, u.Ntimes, u.Npols))
        fill(rng, u)
        u.extra_keywords = {}
        u.filename = ["aaa.uvh5"]
        u._filename.form = (1,)
    x = uvd
    if rng.random() < 0.5 and u.Ntimes > 1:
        # the template has only some of the times, or some the flags do not have
        if rng.random() < 0.5:
            x = uvd.select(times=[float(t) for t in pick(rng, np.unique(uvd.time_array))], inplace=False)
        else:
            u.select(times=[float(t) for t in pick(rng, u.time_array)])
    else:
        x = uvd.copy()
    if rng.random() < 0.3:
        x = UVFlag(x, mode=str(rng.choice(["flag", "metric"])))
        if rng.random() < 0.5:
            fill(rng, x)
    if rng.random() < 0.25:
        reorder_ants(rng, x.telescope)
    if rng.random() < 0.12:
        mess(rng, x)
    force = bool(rng.random() < 0.3)
    if u.mode == "metric" and u.type == "waterfall" and u.Npols > 1 and rng.random() < 0.3 and u.weights_square_array is None:
        u.collapse_pol(method="mean")
        force = rng.random() < 0.8
    elif u.Npols > 1 and rng.random() < 0.25:
        u.select(polarizations=[int(u.polarization_array[-1])])
        force = bool(rng.random() < 0.8)
    rec.ev("Make", o="a", post={"a": projf(u)})
    rec.ev("Like", o="u", post={"u": like(x)})
    out, res = call(u.to_baseline, x, force_pol=force)
    ev(rec, "ToBaseline", out, res, o="a", o2="u", r="a", args={"force": force}, post={"a": projf(u), "u": like(x)})
    if out == "ok":
        if rng.random() < 0.5:
            do_select(rng, rec, u, "a", "b")
        if rng.random() < 0.5:
            poke(rec, u, {"u": lambda: like(x)})


def ant_scenario(rng, rec):
    cal = make_cal(rng, kind="gain", trange=False, flexj=False)
    u = make_flag(rng, typ="waterfall", src=cal, unique=False)
    x = cal.copy()
    if rng.random() < 0.4:
        x = x.select(antenna_nums=[int(a) for a in pick(rng, x.ant_array)], inplace=False)
    if rng.random() < 0.3:
        x = UVFlag(x, mode=str(rng.choice(["flag", "metric"])))
    if rng.random() < 0.25:
        reorder_ants(rng, x.telescope)
    if rng.random() < 0.12:
        mess(rng, x)
    force = bool(rng.random() < 0.3)
    if u.Npols > 1 and rng.random() < 0.3:
        u.select(polarizations=[int(u.polarization_array[-1])])
        force = bool(rng.random() < 0.8)
    rec.ev("Make", o="a", post={"a": projf(u)})
    rec.ev("Like", o="u", post={"u": like(x)})
    out, res = call(u.to_antenna, x, force_pol=force)
    ev(rec, "ToAntenna", out, res, o="a", o2="u", r="a", args={"force": force}, post={"a": projf(u), "u": like(x)})
    if out == "ok":
        if rng.random() < 0.4:
            to_wf(rng, rec, u)
        if rng.random() < 0.6:
            poke(rec, u, {"u": lambda: like(x)})


def from_scenario(rng, rec):
    src = make_uvd(rng) if rng.random() < 0.5 else make_cal(rng, kind="gain", trange=False, flexj=False)
    rec.ev("Like", o="u", post={"u": like(src)})
    mode, cf, wf, lab = str(rng.choice(["flag", "metric"])), bool(rng.random() < 0.5), bool(rng.random() < 0.35), str(rng.choice(["", "FM"]))
    out, n = call(UVFlag, src, mode=mode, copy_flags=cf, waterfall=wf, label=lab)
    dummy = None
    if out == "error":
        dummy = UVFlag(src)
    ev(rec, "From", out, n, o2="u", r="a", args={"mode": mode, "copy": cf, "wf": wf, "label": lab}, post={"u": like(src), "a": projf(n if out == "ok" else dummy)})
    keep = bool(rng.random() < 0.5)
    out2, w = call(flags2waterfall, src, keep_pol=keep)
    res = {"shape": list(w.shape), "vals": [fx(x, 1e4) for x in w.ravel()]} if out2 == "ok" else {"x": 0}
    ev(rec, "F2W", out2, w, o2="u", args={"keep": keep}, res=res, post={"u": like(src)})
    if out == "ok" and rng.random() < 0.6:
        poke(rec, n, {"u": lambda: like(src)})


def run_C18(chk):
    tr = chk.scenarios("flagsel", sel_scenario, chk.n(320, 4000)) + chk.scenarios("flagadd", add_scenario, chk.n(320, 4000)) \
        + chk.scenarios("flagor", or_scenario, chk.n(60, 500)) + chk.scenarios("flagfile", file_scenario, chk.n(120, 1500))
    chk.validate("TraceFlag", "TraceFlag.cfg", tr, min_ops={"Select/ok": 200, "Select/error": 20, "Add/ok": 100, "Add/error": 10, "Or/ok": 30, "Read/ok": 80, "Write/ok": 80})


def run_C19(chk):
    tr = chk.scenarios("flagconv", conv_scenario, chk.n(400, 5000)) + chk.scenarios("flagbl", bl_scenario, chk.n(200, 3000)) \
        + chk.scenarios("flagant", ant_scenario, chk.n(160, 2000)) + chk.scenarios("flagfrom", from_scenario, chk.n(120, 1500))
    chk.validate("TraceFlag", "TraceFlag.cfg", tr, min_ops={"ToWaterfall/ok": 60, "ToBaseline/ok": 60, "ToAntenna/ok": 50, "CollapsePol/ok": 20, "ToFlag/ok": 20,
                                                          "ToMetric/ok": 20, "Combine/ok": 20, "From/ok": 40, "F2W/ok": 60})
