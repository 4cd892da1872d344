"""C10 (select, reorder, access), C11 (combine), C12 (conversions) of calibration objects."""
import numpy as np

from pyuvdata import utils as uvutils
from vf.cal import make_cal, projc
from vf.harness import call
from vf.num import fx
from vf.uvd import JD0, make_tel, t2tok


def pick(rng, arr, lo=1):
    n = len(arr)
    return [arr[i] for i in rng.choice(n, int(rng.integers(lo, n + 1)), replace=False)]


def as_form(rng, v):
    r = rng.random()
    if len(v) == 1 and r < 0.3:
        return v[0]
    return list(v) if r < 0.6 else (np.array(v) if r < 0.85 else tuple(v))


def mids(c):
    """Times/LSTs that are well inside or outside every range."""
    return c.get_time_array(), c.get_lst_array()


def gen_select(rng, c):
    a, kw = {"x": 0}, {}
    tm, ls = mids(c)
    n = int(rng.integers(1, 4))
    opts = ["ants", "antnames", "freqs", "chans", "spws", "times", "trange", "lsts", "lrange", "jones", "pcids", "names"]
    for o in rng.choice(opts, n, replace=False):
        bad = rng.random() < 0.06
        if o == "ants":
            v = [int(x) for x in pick(rng, c.ant_array)] + ([777] if bad else [])
            if rng.random() < 0.05:
                v = [int(x) for x in pick(rng, c.telescope.antenna_numbers)]
            a[o] = v
            kw["antenna_nums"] = as_form(rng, v)
        elif o == "antnames":
            nm = dict(zip(c.telescope.antenna_numbers, c.telescope.antenna_names))
            v = [str(nm[x]) for x in pick(rng, c.ant_array)] + (["nope"] if bad else [])
            a[o] = v
            kw["antenna_names"] = v if rng.random() < 0.5 else np.array(v)
        elif o == "freqs":
            if c.wide_band:
                if rng.random() < 0.8:
                    continue
                a[o], kw["frequencies"] = [100000000], [1e8]
                continue
            v = pick(rng, c.freq_array) + ([1.23e8] if bad else [])
            a[o] = [fx(x) for x in v]
            kw["frequencies"] = as_form(rng, v)
        elif o == "chans":
            if c.wide_band:
                if rng.random() < 0.8:
                    continue
                a[o], kw["freq_chans"] = [0], [0]
                continue
            v = [int(x) for x in pick(rng, np.arange(c.Nfreqs))] + ([c.Nfreqs + 2] if bad else [])
            a[o] = v
            kw["freq_chans"] = as_form(rng, v)
        elif o == "spws":
            v = [int(x) for x in pick(rng, c.spw_array)] + ([55] if bad else [])
            a[o] = v
            kw["spws"] = list(v) if rng.random() < 0.5 else np.array(v)
        elif o == "times":
            v = list(pick(rng, tm)) + ([JD0 + 3.7] if bad else [])
            a[o] = [t2tok(x) for x in v]
            kw["times"] = as_form(rng, v)
        elif o == "trange":
            lo, hi = np.sort(rng.choice(tm, 2))
            if c.time_range is not None and rng.random() < 0.5:
                w = (c.time_range[0, 1] - c.time_range[0, 0]) * float(rng.choice([0.2, 0.7]))
            else:
                w = 1.0 / 86400
            lo, hi = lo - w, hi + w
            if bad:
                lo, hi = lo + 5, hi + 5
            a[o] = [t2tok(lo), t2tok(hi)]
            kw["time_range"] = [lo, hi]
        elif o == "lsts":
            v = list(pick(rng, ls)) + ([(ls[0] + 2.0) % (2 * np.pi)] if bad else [])
            a[o] = [fx(x, 1e7) for x in v]
            kw["lsts"] = as_form(rng, v)
        elif o == "lrange":
            w = float(rng.choice([1e-4, 3e-3]))
            i, j = rng.integers(0, len(ls), 2)
            lo, hi = (ls[i] - w) % (2 * np.pi), (ls[j] + w) % (2 * np.pi)
            if bad:
                lo, hi = (ls[i] + 2.0) % (2 * np.pi), (ls[i] + 2.5) % (2 * np.pi)
            a[o] = [fx(lo, 1e7), fx(hi, 1e7)]
            kw["lst_range"] = [lo, hi]
        elif o == "jones":
            src = c.jones_array if c.flex_jones_array is None else np.unique(c.flex_jones_array)
            v = [int(x) for x in pick(rng, src)] + ([-4 if src[0] < -4 else -8] if bad else [])
            a[o] = v
            if rng.random() < 0.3:
                v = [str(uvutils.jnum2str(x, x_orientation=c.telescope.x_orientation if rng.random() < 0.5 else None)) for x in v]
            kw["jones"] = as_form(rng, v) if not isinstance(v[0], str) else v
        elif o == "pcids":
            if c.phase_center_id_array is None and rng.random() < 0.8:
                continue
            v = [int(x) for x in pick(rng, np.unique(c.phase_center_id_array))] if c.phase_center_id_array is not None else [0]
            v = [77] if bad else v
            a[o] = v
            kw["phase_center_ids"] = as_form(rng, v)
        elif o == "names":
            if c.phase_center_id_array is None and rng.random() < 0.8:
                continue
            v = pick(rng, ["src0", "src1"]) if not bad else ["nope"]
            a[o] = v
            kw["catalog_names"] = as_form(rng, v) if rng.random() < 0.7 else v
    return a, kw


def ev_select(rng, rec, c, reg, dst):
    a, kw = gen_select(rng, c)
    if rng.random() < 0.5:
        out, res = call(c.select, **kw)
        rec.ev("Select", o=reg, r=reg, args=a, out=out, err=str(res) if out == "error" else "", post={reg: projc(c)})
        return c
    out, res = call(c.select, inplace=False, **kw)
    n = res if out == "ok" else c
    rec.ev("Select", o=reg, r=dst, args=a, out=out, err=str(res) if out == "error" else "", post={reg: projc(c), dst: projc(n)})
    return c


def ev_reorder(rng, rec, c, reg):
    ax = str(rng.choice(["ant", "freq", "time", "jones"]))
    a, kw = {"axis": ax, "rev": False}, {}
    fn = {"ant": c.reorder_antennas, "freq": c.reorder_freqs, "time": c.reorder_times, "jones": c.reorder_jones}[ax]
    if ax == "freq":
        if c.wide_band:
            r = rng.random()
            if r < 0.3:
                v = rng.permutation(c.Nspws)
                a["index"] = [int(x) for x in v]
                kw["spw_order"] = as_form(rng, list(v)) if c.Nspws > 1 else v
            elif r < 0.4:
                a["key"] = "number"
            else:
                k = str(rng.choice(["number", "-number", "freq", "-freq"]))
                a["key"], a["rev"] = k.lstrip("-"), k[0] == "-"
                kw["spw_order"] = k
        else:
            r = rng.random()
            if r < 0.25:
                v = rng.permutation(c.Nfreqs)
                a["chanindex"] = [int(x) for x in v]
                kw["channel_order"] = [np.array(v), list(map(int, v)), tuple(map(int, v))][int(rng.integers(0, 3))]
            else:
                if r < 0.8:
                    if rng.random() < 0.3:
                        v = rng.permutation(c.Nspws)
                        a["spwindex"] = [int(x) for x in v]
                        kw["spw_order"] = list(map(int, v))
                    else:
                        a["spworder"] = str(rng.choice(["number", "-number", "freq", "-freq"]))
                        kw["spw_order"] = a["spworder"]
                if r > 0.4:
                    a["chan"] = str(rng.choice(["freq", "-freq"]))
                    kw["channel_order"] = a["chan"]
                    if rng.random() < 0.3:
                        v = rng.choice(c.spw_array, int(rng.integers(1, c.Nspws + 1)), replace=False)
                        a["select"] = [int(x) for x in v]
                        kw["select_spw"] = v
        out, res = call(fn, **kw)
    else:
        n = {"ant": c.Nants_data, "time": c.Ntimes, "jones": c.Njones}[ax]
        if rng.random() < 0.35 or (ax == "jones" and c.flex_jones_array is not None):
            v = rng.permutation(n)
            a["index"] = [int(x) for x in v]
            order = [np.array(v), list(map(int, v)), tuple(map(int, v))][int(rng.integers(0, 3))]
        else:
            k = str(rng.choice({"ant": ["number", "-number", "name", "-name"], "time": ["time", "-time"],
                                "jones": ["number", "-number", "name", "-name"]}[ax]))
            a["key"], a["rev"] = k.lstrip("-"), k[0] == "-"
            order = k
            if ax == "ant":
                nm = sorted(zip(c.telescope.antenna_names, c.telescope.antenna_numbers))
                a["rank"] = {str(int(x[1])): i for i, x in enumerate(nm)}
        out, res = call(fn, order) if rng.random() < 0.5 else call(fn, order=order)
    rec.ev("Reorder", o=reg, args=a, out=out, err=str(res) if out == "error" else "", post={reg: projc(c)})


def ev_get(rng, rec, c, reg):
    ants = [int(x) for x in c.telescope.antenna_numbers]
    what = str(rng.choice(["data", "flag", "qual"]))
    if c.flag_array is None or (what == "qual" and c.quality_array is None):
        return
    a = {"ant": int(rng.choice(c.ant_array)) if rng.random() < 0.9 else int(rng.choice(ants)), "what": what, "squeeze": bool(rng.random() < 0.6)}
    fn = {"data": c.get_gains, "flag": c.get_flags, "qual": c.get_quality}[what]
    key = [a["ant"]]
    if rng.random() < 0.6:
        a["j"] = int(rng.choice(c.jones_array)) if rng.random() < 0.9 else -3
        j = a["j"]
        if rng.random() < 0.4 and j != 0:
            j = str(uvutils.jnum2str(j, x_orientation=c.telescope.x_orientation if rng.random() < 0.5 else None))
        key.append(j)
    if rng.random() < 0.5:
        out, res = call(fn, tuple(key), squeeze_pol=a["squeeze"])
    else:
        out, res = call(fn, *key, squeeze_pol=a["squeeze"])
    r = {}
    if out == "ok":
        v = np.asarray(res).ravel()
        vals = [[fx(x.real), fx(x.imag)] for x in v] if what == "data" else [[int(x)] for x in v] if what == "flag" else [[fx(x, 10)] for x in v]
        r = {"shape": list(np.shape(res)), "vals": vals}
    rec.ev("Get", o=reg, args=a, out=out, err=str(res) if out == "error" else "", res=r, post={reg: projc(c)})


def ev_info(rng, rec, c, reg):
    def f():
        has = []
        for _ in range(4):
            an, j = int(rng.choice(c.telescope.antenna_numbers)), int(rng.choice([-5, -6, -7, -8, -1, int(c.jones_array[0])]))
            has.append({"ant": an, "j": j, "has": bool(c._key_exists(antnum=an, jpol=j))})
        return {"ant2ind": [int(c.ant2ind(x)) for x in c.ant_array], "jpol2ind": [int(c.jpol2ind(x)) for x in c.jones_array],
                "has": has, "times": [t2tok(x) for x in c.get_time_array()], "lsts": [fx(x, 1e7) for x in c.get_lst_array()]}
    out, res = call(f)
    rec.ev("Info", o=reg, args={}, out=out, err=str(res) if out == "error" else "", res=res if out == "ok" else {}, post={reg: projc(c)})


def bad(rng, rec, c, reg="a"):
    """A request that makes no sense."""
    from uvd_reorder import notperm
    n = [int(x) for x in c.telescope.antenna_numbers]
    nm = [str(x) for x in c.telescope.antenna_names]
    t = c.get_time_array()
    other = [x for x in n if x not in c.ant_array] or [max(n) + 1]
    s = [{"antenna_nums": [int(c.ant_array[0]), max(n) + 1]}, {"antenna_nums": other[:1]}, {"antenna_names": ["nosuch"]}, {"antenna_nums": [n[0]], "antenna_names": [nm[0]]},
         {"times": [t[0] + 40]}, {"times": [t[0], t[0] + 40]}, {"time_range": [t[0] + 40, t[0] + 41]}, {"time_range": [t[0], t[0] + 1, t[0] + 2]}, {"times": [t[0]], "time_range": [t[0] - 1, t[0] + 1]},
         {"phase_center_ids": [444]}, {"catalog_names": "nosuch"}, {"spws": [444]} if c.Nspws > 1 else {"times": [t[0] - 40]}]
    if not c.wide_band:
        s += [{"frequencies": [1.0]}, {"frequencies": [c.freq_array[0], 1.0]}, {"freq_chans": [c.Nfreqs]}]
    if c.flex_jones_array is None:
        s += [{"jones": [17]}, {"jones": ["nosuch"]}, {"jones": [int(c.jones_array[0]), -1 if c.jones_array[0] < -4 else -5]}]
    bs = lambda *v: str(rng.choice(["", "nosuch", *v]))
    r = [("reorder_antennas", {"order": notperm(rng, c.Nants_data)}), ("reorder_antennas", {"order": bs("num", "time")}), ("reorder_times", {"order": notperm(rng, c.Ntimes)}), ("reorder_times", {"order": bs("number")}),
         ("reorder_jones", {"order": notperm(rng, c.Njones)}), ("reorder_jones", {"order": bs("freq")})]
    if not c.wide_band and c.Nfreqs > 1:
        r += [("reorder_freqs", {"channel_order": notperm(rng, c.Nfreqs)}), ("reorder_freqs", {"channel_order": bs("number")}), ("reorder_freqs", {"spw_order": notperm(rng, c.Nspws)})]
    if rng.random() < 0.5:
        fn, kw = "select", dict(s[int(rng.integers(0, len(s)))], inplace=bool(rng.random() < 0.6))
    else:
        fn, kw = r[int(rng.integers(0, len(r)))]
    out, res = call(getattr(c, fn), **kw)
    rec.ev("Refused", o=reg, args={"fn": fn, "kw": str(kw)}, out=out, err=str(res) if out == "error" else "", post={reg: projc(c)})


def struct_scenario(rng, rec):
    kw = {}
    if rng.random() < 0.25:
        kw["t0"] = float(rng.integers(0, 860)) * 100.0
    if rng.random() < 0.2:  # near the LST wrap of the telescope
        kw["t0"] = WRAP + float(rng.integers(-3, 2)) * 60.0
    c = make_cal(rng, flexj=bool(rng.random() < 0.15), meta_only=bool(rng.random() < 0.1), **kw)
    rec.ev("Make", o="a", post={"a": projc(c)})
    for i in range(4):
        if rng.random() < 0.1:
            bad(rng, rec, c)
        r = rng.random()
        if r < 0.35:
            c = ev_select(rng, rec, c, "a", f"s{i}")
        elif r < 0.7:
            ev_reorder(rng, rec, c, "a")
        elif r < 0.9:
            ev_get(rng, rec, c, "a")
        else:
            ev_info(rng, rec, c, "a")


def _wrap():
    from vf.uvd import LOC
    t = np.arange(0, 86400, 10.0)
    from astropy.time import Time
    l = uvutils.get_lst_for_time(JD0 + t / 86400, telescope_loc=LOC)
    return float(t[int(np.argmin(l))])


WRAP = _wrap()


# ------------------------------------------------------------------ combine
def cut(rng, c, ax, ix):
    """Part of c along one axis (by position)."""
    ix = np.sort(ix)
    if ax == "ant":
        return c.select(antenna_nums=c.ant_array[ix], inplace=False)
    if ax == "time":
        return c.select(times=c.get_time_array()[ix], inplace=False)
    if ax == "jones":
        return c.select(jones=c.jones_array[ix], inplace=False)
    if c.wide_band:
        return c.select(spws=c.spw_array[ix], inplace=False) if c.Nspws > 1 else c.copy()
    return c.select(freq_chans=ix, inplace=False)


def size(c, ax):
    return {"ant": c.Nants_data, "time": c.Ntimes, "jones": c.Njones, "freq": c.Nspws if c.wide_band else c.Nfreqs}[ax]


def shuffle_cal(rng, c):
    if rng.random() < 0.5:
        c.reorder_antennas(rng.permutation(c.Nants_data))
    if rng.random() < 0.5:
        c.reorder_times(rng.permutation(c.Ntimes))
    if rng.random() < 0.5:
        c.reorder_jones(rng.permutation(c.Njones))
    if rng.random() < 0.5:
        if c.wide_band:
            if c.Nspws > 1:
                c.reorder_freqs(spw_order=rng.permutation(c.Nspws))
        elif c.Nspws == 1 and c.Nfreqs > 1:
            c.reorder_freqs(channel_order=rng.permutation(c.Nfreqs))
        elif c.Nfreqs > 1:
            c.reorder_freqs(spw_order=str(rng.choice(["number", "-number"])), channel_order=str(rng.choice(["freq", "-freq"])))


def drop_optional(rng, c):
    if c.flag_array is not None:
        if rng.random() < 0.15:
            c.quality_array = None
        if rng.random() < 0.2:
            c.total_quality_array = None


def do_add(rng, rec, objs, a, b, dst):
    if rng.random() < 0.4:
        if rng.random() < 0.5:
            def f():
                x = objs[a]
                x += objs[b]
                return x
            out, res = call(f)
        else:
            out, res = call(objs[a].__add__, objs[b], inplace=True)
        rec.ev("Add", o=a, o2=b, r=a, args={}, out=out, err=str(res) if out == "error" else "", post={a: projc(objs[a]), b: projc(objs[b])})
        return a if out == "ok" else None
    out, res = call(lambda: objs[a] + objs[b])
    post = {a: projc(objs[a]), b: projc(objs[b])}
    if out == "ok":
        objs[dst] = res
    post[dst] = projc(res) if out == "ok" else post[a]
    rec.ev("Add", o=a, o2=b, r=dst, args={}, out=out, err=str(res) if out == "error" else "", post=post)
    return dst if out == "ok" else None


def big_cal(rng, **kw):
    return make_cal(rng, nants=int(rng.integers(1, 4)), ntimes=int(rng.integers(1, 4)), **kw)


def spoil(rng, b):
    k = int(rng.integers(0, 6))
    if k == 0:
        b.gain_convention = "divide" if b.gain_convention == "multiply" else "multiply"
    elif k == 1:
        b.telescope.name = "other"
    elif k == 2 and b.cal_style == "sky":
        b.ref_antenna_name = "somebody"
    elif k == 3 and b.phase_center_id_array is not None:
        b.phase_center_id_array = None
        b.phase_center_catalog = None
    elif k == 4 and b.ref_antenna_array is not None:
        b.ref_antenna_array = b.ref_antenna_array + 1000
    elif k == 5 and b.phase_center_catalog is not None:
        for v in b.phase_center_catalog.values():
            v["cat_lon"] = v["cat_lon"] + 0.01


def add_scenario(rng, rec):
    c = big_cal(rng, flexj=bool(rng.random() < 0.2), meta_only=bool(rng.random() < 0.1), trange=bool(rng.random() < 0.2))
    ax = str(rng.choice([x for x in ("ant", "freq", "time", "jones") if size(c, x) > 1] or ["ant"]))
    k = int(rng.choice([2, 2, 3]))
    lab = rng.integers(0, k, size(c, ax))
    objs = {}
    for i in range(k):
        ix = np.nonzero(lab == i)[0]
        if len(ix):
            p = cut(rng, c, ax, ix)
            # unequal extents along another axis
            if rng.random() < 0.4:
                o = str(rng.choice(["ant", "freq", "time", "jones"]))
                if o != ax and size(p, o) > 1:
                    p = cut(rng, p, o, rng.choice(size(p, o), int(rng.integers(1, size(p, o) + 1)), replace=False))
            shuffle_cal(rng, p)
            drop_optional(rng, p)
            if rng.random() < 0.05:
                spoil(rng, p)
            objs[f"p{i}"] = p
            rec.ev("Make", o=f"p{i}", post={f"p{i}": projc(p)})
    names = list(objs)
    names = [names[i] for i in rng.permutation(len(names))]
    cur = names[0]
    for j, nm in enumerate(names[1:]):
        cur = do_add(rng, rec, objs, cur, nm, f"s{j}")
        if cur is None:
            return


def block_scenario(rng, rec):
    """Two blocks differing on several axes (padding), sometimes overlapping."""
    c = big_cal(rng, flexj=bool(rng.random() < 0.1), trange=bool(rng.random() < 0.15))
    objs = {}
    for nm in ("a", "b"):
        p = c
        for ax in ("ant", "freq", "time", "jones"):
            if rng.random() < 0.6 and size(p, ax) > 1:
                p = cut(rng, p, ax, rng.choice(size(p, ax), int(rng.integers(1, size(p, ax) + 1)), replace=False))
        p = p.copy()
        shuffle_cal(rng, p)
        drop_optional(rng, p)
        objs[nm] = p
        rec.ev("Make", o=nm, post={nm: projc(p)})
    do_add(rng, rec, objs, "a", "b", "s")


def pc_scenario(rng, rec):
    """Objects of different times with phase center ids that collide."""
    tel = make_tel(rng, x_orient="east")
    st = int(rng.integers(0, 2**31))
    objs = {}
    for k in range(3):
        r = np.random.default_rng(st)
        c = make_cal(r, tel=tel, pcs=True, ntimes=2, t0=1000.0 + 5000.0 * k, trange=False, scan=True, refarr=False)
        ids = rng.choice([0, 1, 2], 2, replace=False)
        c.phase_center_catalog = {}
        nm = rng.permutation(3)[:2]
        for i, cid in zip(nm, ids):
            c._add_phase_center(f"src{i}", cat_type="sidereal", cat_lon=0.3 + 0.4 * int(i), cat_lat=-0.5, cat_frame="icrs", cat_id=int(cid))
        c.phase_center_id_array = rng.choice(ids, 2).astype(int)
        objs[f"p{k}"] = c
        rec.ev("Make", o=f"p{k}", post={f"p{k}": projc(c)})
    if rng.random() < 0.5:
        cur = do_add(rng, rec, objs, "p0", "p1", "s0")
        if cur:
            do_add(rng, rec, objs, cur, "p2", "s1")
    else:
        do_concat(rng, rec, objs, ["p0", "p1", "p2"], "time")


def do_concat(rng, rec, objs, names, ax):
    real = {"ant": "antenna", "freq": "spw" if objs[names[0]].wide_band else "freq"}.get(ax, ax)
    inplace = bool(rng.random() < 0.3)
    rest = [objs[n] for n in names[1:]]
    arg = rest[0] if len(rest) == 1 and rng.random() < 0.5 else rest
    out, res = call(objs[names[0]].fast_concat, arg, real, inplace=inplace)
    post = {n: projc(objs[n]) for n in names}
    r = names[0] if inplace else "cc"
    if not inplace:
        post["cc"] = projc(res) if out == "ok" else post[names[0]]
    rec.ev("Concat", regs=names, r=r, args={"axis": ax}, out=out, err=str(res) if out == "error" else "", post=post)


def mislabel(rng, p, ax):
    """Change one set of labels of p."""
    k = int(rng.integers(0, 7))
    if k == 0 and not p.wide_band:
        p.freq_array = p.freq_array + 1e5
    elif k == 1 and not p.wide_band:
        p.channel_width = p.channel_width * 2
    elif k == 2:
        p.integration_time = p.integration_time * 2
    elif k == 3:
        if p.time_range is not None:
            p.time_range = p.time_range + 30.0 / 86400
        else:
            p.time_array = p.time_array + 30.0 / 86400
        p.set_lsts_from_time_array()
    elif k == 4 and p.flex_jones_array is None:
        p.jones_array = np.array([-5, -6, -7, -8])[: p.Njones] if p.jones_array[0] > -5 else np.array([-1, -2, -3, -4])[: p.Njones]
    elif k == 5 and ax != "ant":
        free = [int(x) for x in p.telescope.antenna_numbers if x not in p.ant_array]
        if free:
            p.ant_array[int(rng.integers(0, p.Nants_data))] = free[0]
    elif k == 6 and p.Nants_data > 1:
        p.reorder_antennas(order=np.roll(np.arange(p.Nants_data), 1))


def concat_scenario(rng, rec):
    c = big_cal(rng, flexj=bool(rng.random() < 0.2), meta_only=bool(rng.random() < 0.1))
    ax = str(rng.choice([x for x in ("ant", "freq", "time", "jones") if size(c, x) > 1] or ["ant"]))
    n = size(c, ax)
    # contiguous pieces keep windows contiguous
    cutp = np.sort(rng.choice(np.arange(1, n), min(n - 1, int(rng.integers(1, 3))), replace=False)) if n > 1 else []
    objs = {}
    for i, ix in enumerate(np.split(np.arange(n), cutp)):
        p = cut(rng, c, ax, ix).copy()
        drop_optional(rng, p)
        if rng.random() < 0.06:
            spoil(rng, p)
        elif rng.random() < 0.06:
            o = str(rng.choice(["ant", "freq", "time", "jones"]))
            if o != ax and size(p, o) > 1:
                p = cut(rng, p, o, [0])
        elif rng.random() < 0.1:
            mislabel(rng, p, ax)
        elif rng.random() < 0.05 and p.wide_band and ax != "freq":
            p.freq_range = p.freq_range + 1e5
        objs[f"p{i}"] = p
        rec.ev("Make", o=f"p{i}", post={f"p{i}": projc(p)})
    if len(objs) < 2:
        return
    names = list(objs)
    if rng.random() < 0.5:
        names = [names[i] for i in rng.permutation(len(names))]
    do_concat(rng, rec, objs, names, ax)


# -------------------------------------------------------------- conversions
def conv_scenario(rng, rec):
    r = rng.random()
    if r < 0.4:
        c = make_cal(rng)
        rec.ev("Make", o="a", post={"a": projc(c)})
        out, res = call(c.convert_to_flex_jones)
        rec.ev("ToFlex", o="a", args={}, out=out, err=str(res) if out == "error" else "", post={"a": projc(c)})
        if rng.random() < 0.2:
            out, res = call(c.convert_to_flex_jones)
            rec.ev("ToFlex", o="a", args={}, out=out, err=str(res) if out == "error" else "", post={"a": projc(c)})
        if rng.random() < 0.3 and c.Nspws > 1:
            if c.wide_band:
                c.reorder_freqs(spw_order=rng.permutation(c.Nspws))
            else:
                c.reorder_freqs(spw_order=str(rng.choice(["number", "-number"])))
            rec.ev("Make", o="a", post={"a": projc(c)})
        if rng.random() < 0.3 and c.Nspws > 1:
            call(c.select, spws=c.spw_array[: c.Nspws - 1])
            rec.ev("Make", o="a", post={"a": projc(c)})
    elif r < 0.7:
        c = make_cal(rng, flexj=True, nspws=int(rng.choice([1, 2, 3, 4])), nfreqs=int(rng.integers(2, 7)), meta_only=bool(rng.random() < 0.1))
        if rng.random() < 0.4:  # repeated Jones terms
            c.flex_jones_array = rng.choice(c.flex_jones_array, c.Nspws)
        if rng.random() < 0.3 and c.wide_band:
            c.freq_range = np.repeat(c.freq_range[:1], c.Nspws, axis=0)
        rec.ev("Make", o="a", post={"a": projc(c)})
    else:
        return gain_scenario(rng, rec)
    if not c.wide_band and c.flex_jones_array is not None and c.Nspws > 1 and rng.random() < 0.25:
        # the same channels with other widths are another window
        m = c.flex_spw_id_array == int(rng.choice(c.spw_array))
        c.channel_width[m] *= 2
        rec.ev("Make", o="a", post={"a": projc(c)})
    a = {"combine": bool(rng.random() < 0.65)}
    out, res = call(c.remove_flex_jones, combine_spws=a["combine"])
    rec.ev("FromFlex", o="a", args=a, out=out, err=str(res) if out == "error" else "", post={"a": projc(c)})
    out, res = call(c.check)
    if out != "ok":
        rec.ev("Malformed", err="check", msg=str(res))


def gain_scenario(rng, rec):
    kind = "delay" if rng.random() < 0.93 else "wide"
    c = make_cal(rng, kind=kind, nspws=1 if rng.random() < 0.9 else 2, even=True)
    if kind == "delay":
        k = rng.integers(-8, 16, c.delay_array.shape)
        c.delay_array = k / 8 * 1e-5
    rec.ev("Make", o="a", post={"a": projc(c, dscale=8e5)})
    lo, hi = c.freq_range[0]
    nf = int(rng.integers(1, 5))
    f = lo + 1e5 * np.sort(rng.choice(np.arange(0, 39), nf, replace=False))
    if rng.random() < 0.2:
        f = f[::-1].copy()
    if rng.random() < 0.06:
        f[-1] = hi + 1e5
    w = np.full(nf, 1e5) * rng.integers(1, 3, nf)
    a = {"freqs": [fx(x) for x in f], "widths": [fx(x) for x in w], "badwidth": False, "sign": -1}
    kw = {}
    r = rng.random()
    if r < 0.4:
        kw["delay_convention"] = "plus"
        a["sign"] = 1
    elif r < 0.6:
        kw["delay_convention"] = "minus"
    elif r < 0.64:
        kw["delay_convention"] = "sideways"
        a["sign"] = 0
    if rng.random() < 0.05:
        a["badwidth"] = True
        w = np.append(w, 1e5)
    out, res = call(c.convert_to_gain, freq_array=f, channel_width=w, **kw)
    rec.ev("ToGain", o="a", args=a, out=out, err=str(res) if out == "error" else "", post={"a": projc(c, gscale=1e6 if out == "ok" else 1.0, dscale=8e5)})


def run_C10(chk):
    tr = chk.scenarios("cal-struct", struct_scenario, chk.n(700, 7000))
    chk.validate("TraceCal", "TraceCal.cfg", tr, min_ops={"Select/ok": 200, "Select/error": 40, "Reorder/ok": 300, "Get/ok": 150, "Info/ok": 60, "Refused/error": 80})


def run_C11(chk):
    tr = chk.scenarios("cal-add", add_scenario, chk.n(300, 3000))
    tr += chk.scenarios("cal-block", block_scenario, chk.n(200, 2000))
    tr += chk.scenarios("cal-pc", pc_scenario, chk.n(60, 600))
    tr += chk.scenarios("cal-concat", concat_scenario, chk.n(250, 2500))
    chk.validate("TraceCal", "TraceCal.cfg", tr, min_ops={"Add/ok": 200, "Add/error": 20, "Concat/ok": 150, "Concat/error": 5})


def run_C12(chk):
    tr = chk.scenarios("cal-conv", conv_scenario, chk.n(600, 6000))
    chk.validate("TraceCal", "TraceCal.cfg", tr, min_ops={"ToFlex/ok": 100, "FromFlex/ok": 150, "ToGain/ok": 80})
