"""C03: combining UVData objects."""
import numpy as np

from vf.harness import call
from vf.uvd import make_tel, make_uvd, proj


def shuffle_obj(rng, u):
    if rng.random() < 0.4:
        u.reorder_blts(order=rng.permutation(u.Nblts))
    elif rng.random() < 0.3:
        u.reorder_blts(order=str(rng.choice(["time", "baseline", "ant1", "ant2"])))
    if rng.random() < 0.3 and u.Nfreqs > 1:
        u.reorder_freqs(channel_order=rng.permutation(u.Nfreqs)) if u.Nspws == 1 else u.reorder_freqs(
            spw_order=str(rng.choice(["number", "-number"])), channel_order=str(rng.choice(["freq", "-freq"])))
    if rng.random() < 0.3:
        u.reorder_pols(rng.permutation(u.Npols))


def part(rng, u, blts=None, chans=None, pols=None):
    kw = {}
    if blts is not None:
        kw["blt_inds"] = blts
    if chans is not None:
        kw["freq_chans"] = chans
    if pols is not None:
        kw["polarizations"] = u.polarization_array[pols]
    return u.select(inplace=False, **kw) if kw else u.copy()


def subset(rng, n):
    return np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))


def do_add(rng, rec, objs, a, b, dst):
    inplace = bool(rng.random() < 0.4)
    if inplace:
        op = rng.random() < 0.5
        if op:
            def f():
                x = objs[a]
                x += objs[b]
                return x
            out, res = call(f)
        else:
            out, res = call(objs[a].__add__, objs[b], inplace=True)
        post = {a: proj(objs[a]), b: proj(objs[b])}
        rec.ev("Add", o=a, o2=b, r=a, args={"inplace": True}, out=out, err=str(res) if out == "error" else "", post=post)
        return a if out == "ok" else None
    out, res = call(lambda: objs[a] + objs[b])
    post = {a: proj(objs[a]), b: proj(objs[b])}
    if out == "ok":
        objs[dst] = res
        post[dst] = proj(res)
    else:
        post[dst] = post[a]
    rec.ev("Add", o=a, o2=b, r=dst, args={"inplace": False}, out=out, err=str(res) if out == "error" else "", post=post)
    return dst if out == "ok" else None


def scenario_partition(rng, rec):
    u = make_uvd(rng, meta_only=bool(rng.random() < 0.12))
    k = int(rng.choice([2, 2, 3]))
    axis = str(rng.choice(["blt", "freq", "pol"]))
    n = {"blt": u.Nblts, "freq": u.Nfreqs, "pol": u.Npols}[axis]
    lab = rng.integers(0, k, n)
    parts = []
    for i in range(k):
        ix = np.nonzero(lab == i)[0]
        if len(ix):
            parts.append(part(rng, u, **{{"blt": "blts", "freq": "chans", "pol": "pols"}[axis]: ix}))
    objs = {}
    for i, p in enumerate(parts):
        shuffle_obj(rng, p)
        objs[f"p{i}"] = p
        rec.ev("Make", o=f"p{i}", post={f"p{i}": proj(p)})
    order = list(rng.permutation(len(parts)))
    cur = f"p{order[0]}"
    for j, i in enumerate(order[1:]):
        cur = do_add(rng, rec, objs, cur, f"p{i}", f"s{j}")
        if cur is None:
            return


def scenario_blocks(rng, rec):
    """Two arbitrary blocks of one observation, possibly overlapping, overlap possibly blank."""
    u = make_uvd(rng, ragged=False)
    a = part(rng, u, subset(rng, u.Nblts), subset(rng, u.Nfreqs), subset(rng, u.Npols))
    b = part(rng, u, subset(rng, u.Nblts), subset(rng, u.Nfreqs), subset(rng, u.Npols))
    # blank the overlap in one of them
    mode = rng.random()
    shuffle_obj(rng, a)
    shuffle_obj(rng, b)
    tgt = a if mode < 0.6 else (b if mode < 0.75 else None)
    if tgt is not None:
        o = b if tgt is a else a
        ok = set(zip(o.time_array, o.baseline_array))
        bm = np.array([(t, x) in ok for t, x in zip(tgt.time_array, tgt.baseline_array)])
        fm = np.isin(tgt.freq_array, o.freq_array)
        pm = np.isin(tgt.polarization_array, o.polarization_array)
        ix = np.ix_(bm, fm, pm)
        tgt.data_array[ix] = 0
        tgt.flag_array[ix] = True
    if rng.random() < 0.12:
        what = int(rng.integers(0, 4))
        if what == 0:
            b.vis_units = "K str"
        elif what == 1:
            b.telescope.name = "other"
        elif what == 2:
            b.integration_time = b.integration_time + 3.0
        else:
            b.channel_width = b.channel_width * 1.5
    objs = {"a": a, "b": b}
    rec.ev("Make", o="a", post={"a": proj(a)})
    rec.ev("Make", o="b", post={"b": proj(b)})
    do_add(rng, rec, objs, "a", "b", "s")


def scenario_distinct(rng, rec):
    """Objects of different observations: different phase centers with colliding ids."""
    tel = make_tel(rng, big="huge" if rng.random() < 0.1 else False)
    base = make_uvd(rng, tel=tel, ntimes=2)
    objs = {}
    n = int(rng.choice([2, 3, 4]))
    freqs = (base.freq_array.copy(), base.channel_width.copy(), None)
    spws = base.spw_array
    spw_of = np.array([list(spws).index(s) for s in base.flex_spw_id_array])
    for i in range(n):
        o = make_uvd(rng, tel=tel, times=base.time_array[:1] + (1 + i) * 0.01 + np.arange(2) * 1e-4,
                     freqs=(freqs[0], freqs[1], spw_of), pols=list(base.polarization_array), scan=False, eq=False,
                     dtype=np.complex128, tok0=1 + 1000 * i)
        o.flex_spw_id_array = base.flex_spw_id_array.copy()
        o.spw_array = spws.copy()
        o.vis_units = "Jy"
        o.extra_keywords = {}
        # sources: same name means same source
        m = int(rng.integers(0, 3))
        for cid in list(o.phase_center_catalog):
            d = o.phase_center_catalog[cid]
            if d["cat_type"] == "sidereal":
                d["cat_name"] = d["cat_name"] + f"_{m}"
                d["cat_lon"] = d["cat_lon"] + 0.05 * m
        o._set_app_coords_helper()
        o.check()
        objs[f"o{i}"] = o
        rec.ev("Make", o=f"o{i}", post={f"o{i}": proj(o)})
    regs = list(objs)
    if rng.random() < 0.5:
        cur = regs[0]
        for j, r in enumerate(regs[1:]):
            cur = do_add(rng, rec, objs, cur, r, f"s{j}")
            if cur is None:
                return
    else:
        concat(rng, rec, objs, regs, "blt")


def concat(rng, rec, objs, regs, axis):
    inplace = bool(rng.random() < 0.4)
    first, others = objs[regs[0]], [objs[r] for r in regs[1:]]
    arg = others if (len(others) > 1 or rng.random() < 0.5) else others[0]
    real_axis = "polarization" if axis == "pol" else axis
    out, res = call(first.fast_concat, arg, real_axis, inplace=inplace)
    dst = regs[0] if inplace else "s"
    if inplace:
        res_obj = first
    else:
        res_obj = res
    post = {r: proj(objs[r]) for r in regs}
    if out == "ok":
        post[dst] = proj(res_obj)
    else:
        post.setdefault(dst, post[regs[0]])
    rec.ev("Concat", regs=regs, r=dst, args={"axis": axis, "inplace": inplace}, out=out,
           err=str(res) if out == "error" else "", post=post)


def mislabel(rng, p):
    """Change one set of labels of p."""
    k = int(rng.integers(0, 8))
    if k == 0:
        p.freq_array = p.freq_array + 1e5
    elif k == 1:
        p.channel_width = p.channel_width * 2
    elif k == 2:
        p.integration_time[int(rng.integers(0, p.Nblts))] *= 2
    elif k == 3:
        p.time_array = p.time_array + 30.0 / 86400
        p.set_lsts_from_time_array()
        p._set_app_coords_helper()
    elif k == 4:
        p.vis_units = "uncalib" if p.vis_units != "uncalib" else "Jy"
    elif k == 5:
        p.telescope.antenna_names = np.array([str(x) + "x" for x in p.telescope.antenna_names])
    elif k == 6 and p.Nblts > 1:
        p.reorder_blts(order=np.roll(np.arange(p.Nblts), 1))
    elif k == 7 and p.flex_spw_polarization_array is None:
        if p.Npols > 1:
            p.reorder_pols(order=np.arange(p.Npols)[::-1])
        else:
            p.polarization_array = np.array([-5 if p.polarization_array[0] != -5 else -6])


def scenario_concat(rng, rec):
    u = make_uvd(rng, meta_only=bool(rng.random() < 0.1))
    axis = str(rng.choice(["blt", "freq", "pol"]))
    n = {"blt": u.Nblts, "freq": u.Nfreqs, "pol": u.Npols}[axis]
    k = min(n, int(rng.choice([2, 3, 4])))
    if axis == "freq":
        cuts = np.sort(rng.choice(np.arange(1, n), k - 1, replace=False)) if n > 1 else []
        chunks = np.split(np.arange(n), cuts)
    else:
        chunks = [np.sort(c) for c in np.array_split(rng.permutation(n), k)]
    objs = {}
    regs = []
    for i, ix in enumerate(chunks):
        p = part(rng, u, **{{"blt": "blts", "freq": "chans", "pol": "pols"}[axis]: ix})
        if axis == "blt" and rng.random() < 0.6:
            p.reorder_blts(order=rng.permutation(p.Nblts) if rng.random() < 0.5 else str(rng.choice(["time", "baseline", "ant1"])))
        if rng.random() < 0.12:
            mislabel(rng, p)
        objs[f"p{i}"] = p
        regs.append(f"p{i}")
        rec.ev("Make", o=f"p{i}", post={f"p{i}": proj(p)})
    if len(regs) < 2:
        return
    if axis != "freq":
        regs = [regs[i] for i in rng.permutation(len(regs))]
    concat(rng, rec, objs, regs, axis)


def run(chk):
    tr = chk.scenarios("partition", scenario_partition, chk.n(300, 3000))
    tr += chk.scenarios("blocks", scenario_blocks, chk.n(300, 3000))
    tr += chk.scenarios("distinct", scenario_distinct, chk.n(160, 1500))
    tr += chk.scenarios("concat", scenario_concat, chk.n(160, 1500))
    chk.validate("TraceUVD", "TraceUVD.cfg", tr, min_ops={"Add/ok": 200, "Add/error": 30, "Concat/ok": 60, "Concat/error": 10})
