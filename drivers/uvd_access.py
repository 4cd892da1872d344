"""C04: getters, setters and index lookups always answer for the current contents."""
import numpy as np

from vf.harness import call
from vf.num import fx
from vf.uvd import blnums, enu_table, grid_tel, make_tel, make_uvd, proj, t2tok
from uvd_reorder import step as reorder_step
from uvd_select import gen_select, runs
from pyuvdata import utils as uvutils


def num(x):
    return int(x)


def gen_key(rng, u):
    """abstract key, positional arguments in one of the accepted spellings"""
    ants = sorted(set(u.ant_1_array.tolist()) | set(u.ant_2_array.tolist()))
    i = int(rng.integers(0, u.Nblts))
    pair = (int(u.ant_1_array[i]), int(u.ant_2_array[i]))
    r = rng.random()
    if r < 0.35:
        pair = pair[::-1]
    elif r < 0.42:
        pair = (int(rng.choice(ants)), int(rng.choice(ants)))
    allp = {True: [-5, -6, -7, -8], False: [-1, -2, -3, -4]}[u.polarization_array[0] < -4]
    if u.polarization_array[0] > 0:
        allp = [1, 2, 3, 4]
    p = int(rng.choice(u.polarization_array)) if rng.random() < 0.85 else int(rng.choice(allp))
    pstr = uvutils.polnum2str(p, x_orientation=u.telescope.x_orientation if rng.random() < 0.7 else None)
    pv = pstr if rng.random() < 0.6 else (np.int64(p) if rng.random() < 0.3 else p)
    kind = str(rng.choice(["pair", "pair", "triple", "triple", "triple", "pol", "bl"]))
    if kind == "pair":
        return {"pair": list(pair)}, ((pair,) if rng.random() < 0.6 else pair)
    if kind == "triple":
        forms = [(pair + (pv,),), pair + (pv,), (pair, pv)]
        return {"pair": list(pair), "pol": p}, forms[int(rng.integers(0, 3))]
    if kind == "pol":
        return {"pol": p}, (pv,)
    bl = int(u.antnums_to_baseline(pair[0], pair[1]))
    return {"pair": list(pair)}, (bl,)


def flat(kind, arr):
    arr = np.asarray(arr)
    v = arr.ravel()
    if kind == "data":
        return [[fx(x.real), fx(x.imag)] for x in v]
    if kind == "flags":
        return [[int(x)] for x in v]
    return [[fx(x, 1000)] for x in v]


def get(rng, rec, u, reg="a"):
    key, pos = gen_key(rng, u)
    kind = str(rng.choice(["data", "data", "flags", "nsamples", "times", "lsts"]))
    a = {"key": key, "kind": kind, "squeeze": "none"}
    fn = getattr(u, "get_" + kind)
    kw = {}
    if kind in ("data", "flags", "nsamples"):
        a["squeeze"] = str(rng.choice(["default", "none", "full"]))
        kw["squeeze"] = a["squeeze"]
        if rng.random() < 0.3:
            kw["force_copy"] = True
    out, res = call(fn, *pos, **kw)
    r = {"vals": [], "shape": []}
    if out == "ok":
        if kind == "times":
            r["vals"] = [t2tok(t) for t in res]
        elif kind == "lsts":
            r["vals"] = [fx(t, 1e7) for t in res]
        else:
            r = {"vals": flat(kind, res), "shape": list(np.shape(res))}
            # what is handed out cannot be used to change the object
            try:
                res[...] = 77
            except ValueError:
                pass
    rec.ev("Get", o=reg, args=a, res=r, out=out, err=str(res) if out == "error" else "", post={reg: proj(u)})


def setv(rng, rec, u, reg="a"):
    key, pos = gen_key(rng, u)
    kind = str(rng.choice(["data", "flags", "nsamples"]))
    arr = {"data": u.data_array, "flags": u.flag_array, "nsamples": u.nsample_array}[kind]
    # shape that fits the rows as asked
    if "pair" in key:
        n = int(np.sum((u.ant_1_array == key["pair"][0]) & (u.ant_2_array == key["pair"][1])))
    else:
        n = u.Nblts
    shape = [max(n, 1), u.Nfreqs, 1 if "pol" in key else u.Npols]
    if rng.random() < 0.12:
        shape[int(rng.integers(0, 3))] += 1
    if kind == "data":
        v = (rng.integers(0, 999, shape) + 1j * rng.integers(0, 999, shape)).astype(arr.dtype)
    elif kind == "flags":
        v = rng.random(shape) < 0.5
    else:
        v = rng.integers(0, 9, shape).astype(arr.dtype)
    out, res = call(getattr(u, "set_" + kind), v, *pos)
    rec.ev("Set", o=reg, args={"key": key, "kind": kind, "shape": shape, "vals": flat(kind, v)}, out=out,
           err=str(res) if out == "error" else "", post={reg: proj(u)})


def index(rng, rec, u, reg="a"):
    key, _ = gen_key(rng, u)
    while "pair" not in key:
        key, _ = gen_key(rng, u)
    ordered = bool(rng.random() < 0.5)
    pair = tuple(key["pair"])
    out, res = call(u.antpair2ind, *((pair,) if rng.random() < 0.5 else pair), ordered=ordered)
    r = {"vals": []}
    if out == "ok" and res is not None:
        r["vals"] = [int(x) for x in np.arange(u.Nblts)[res]]
    rec.ev("Index", o=reg, args={"pair": list(pair), "ordered": ordered}, res=r, out=out, post={reg: proj(u)})


def listing(rng, rec, u, reg="a"):
    what = str(rng.choice(["ants", "bls", "antpairs", "antpairpols", "pols", "iter", "enu"]))
    if what == "iter" and u.data_array is None:
        what = "ants"
    pn = lambda s: int(uvutils.polstr2num(s, x_orientation=u.telescope.x_orientation))
    a = {"what": what, "antenu": {}}
    f = {"ants": u.get_ants, "bls": u.get_baseline_nums, "antpairs": u.get_antpairs, "antpairpols": u.get_antpairpols,
         "pols": u.get_pols, "iter": lambda: list(u.antpairpol_iter(squeeze="none")), "enu": u.get_enu_data_ants}[what]
    out, res = call(f)
    r = {"vals": [], "items": [], "pos": []}
    if out == "ok":
        if what in ("ants", "bls"):
            r["vals"] = blnums(res) if what == "bls" else [fx(x) for x in res]
        elif what == "antpairs":
            r["vals"] = [[int(x), int(y)] for x, y in res]
        elif what == "antpairpols":
            r["vals"] = [[int(x), int(y), pn(p)] for x, y, p in res]
        elif what == "pols":
            r["vals"] = [pn(p) for p in res]
        elif what == "enu":
            a["antenu"] = enu_table(u.telescope)
            r["vals"] = [int(x) for x in res[1]]
            r["pos"] = [[fx(c, 1000) for c in row] for row in res[0]]
        else:
            r["items"] = [{"k": [int(k[0]), int(k[1]), pn(k[2])], "vals": flat("data", d)} for k, d in res]
    rec.ev("List", o=reg, args=a, res=r, out=out, post={reg: proj(u)})


def access(rng, rec, u):
    k = rng.random()
    if u.data_array is None:
        return index(rng, rec, u) if k < 0.5 else listing(rng, rec, u)
    if k < 0.5:
        get(rng, rec, u)
    elif k < 0.65:
        index(rng, rec, u)
    elif k < 0.8:
        listing(rng, rec, u)
    else:
        setv(rng, rec, u)


def scenario(rng, rec):
    tel = grid_tel(rng) if rng.random() < 0.3 else make_tel(rng, big=[False, True, "huge"][int(rng.choice(3, p=[0.75, 0.12, 0.13]))])
    pols = [None, None, None, [-7, -8], [-5, -7], [-7], [-8, -7], [-5, -7, -8], [-3, -4], [-5, -6, -8]][int(rng.integers(0, 10))]
    u = make_uvd(rng, tel=tel, pols=pols, meta_only=bool(rng.random() < 0.06), allbls=bool(rng.random() < 0.3))
    # sometimes a pair appears in both orders
    if rng.random() < 0.3 and u.Nblts > 2:
        c, _ = call(u.conjugate_bls, rng.choice(u.Nblts, u.Nblts // 2, replace=False))
    rec.ev("Make", o="a", post={"a": proj(u)})
    for _ in range(int(rng.integers(2, 4))):
        for _ in range(int(rng.integers(2, 5))):
            access(rng, rec, u)
        # then change the object and look again
        r = rng.random()
        if r < 0.55:
            reorder_step(rng, rec, u)
        elif r < 0.8:
            a, kw = gen_select(rng, u, allow_bad=False)
            out, res = call(u.select, **kw)
            rec.ev("Select", o="a", r="a", args=a, out=out, err=str(res), post={"a": proj(u)})
        else:
            u = u.copy()
    for _ in range(3):
        access(rng, rec, u)


def long_scenario(rng, rec):
    """Many integrations; the rows of a pair form runs of unequal length."""
    u = make_uvd(rng, nfreqs=1, nspws=1, nbls=2, ntimes=int(rng.integers(30, 40)), npols=int(rng.choice([2, 4])), ragged=False,
                 shuffle=str(rng.choice(["no", "bl"])), npc=1, scan=False)
    rows = np.nonzero((u.ant_1_array == u.ant_1_array[0]) & (u.ant_2_array == u.ant_2_array[0]))[0]
    drop = rows[~np.isin(np.arange(len(rows)), runs(rng, len(rows)))]
    u.select(blt_inds=[int(i) for i in range(u.Nblts) if i not in set(drop.tolist())])
    if rng.random() < 0.5:
        k = int(rng.integers(u.Nblts // 3, u.Nblts // 2))
        u.reorder_blts(order=np.concatenate([np.arange(k, u.Nblts), np.arange(k)]))
    rec.ev("Make", o="a", post={"a": proj(u)})
    for _ in range(3):
        setv(rng, rec, u)
        if rng.random() < 0.5:
            get(rng, rec, u)


def run(chk):
    tr = chk.scenarios("long", long_scenario, chk.n(40, 400))
    tr += chk.scenarios("access", scenario, chk.n(500, 5000))
    chk.validate("TraceUVD", "TraceUVD.cfg", tr, min_ops={
        "Get/ok": 1000, "Get/error": 50, "Set/ok": 200, "Set/error": 50, "Index/ok": 300, "List/ok": 300})
