"""C01: UVData.select."""
import numpy as np

from vf.harness import call
from vf.uvd import JD0, STOKES, make_uvd, proj, t2tok
from vf.num import fx
from pyuvdata import utils as uvutils


def shape_arg(rng, vals, arr=True, scalar=True):
    """The same list of values in one of the accepted container forms."""
    vals = list(vals)
    k = int(rng.integers(0, 6))
    if len(vals) == 1 and k == 0 and scalar:
        return vals[0]
    if k == 1:
        return np.array(vals)
    if k == 2:
        return tuple(vals)
    if k == 3 and arr and len(vals) % 2 == 0:
        return np.array(vals).reshape(2, -1)
    if k == 4:
        return np.array(vals + vals[:1])
    return vals


def runs(rng, n):
    """Indices forming two or three runs of unequal length on a long axis."""
    cuts = [0, n] if rng.random() < 0.15 else [0, int(rng.integers(n // 3, 2 * n // 3)), n]
    if len(cuts) == 3 and rng.random() < 0.4:
        cuts.insert(1, cuts[1] // 2)
    out = []
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        st = int(rng.choice([1, 1, 1, 2])) if len(cuts) < 4 else 1
        out += list(range(lo + int(rng.integers(0, 3)), hi - int(rng.integers(1, 4)), st))
    return [int(x) for x in out]


def some(rng, pool, extra=None, p_extra=0.06):
    pool = list(pool)
    n = int(rng.integers(1, len(pool) + 1))
    out = [pool[i] for i in rng.choice(len(pool), n, replace=False)]
    if extra is not None and rng.random() < p_extra:
        out.append(extra)
    return out


def gen_select(rng, uvd, allow_bad=True, soft=False):
    """(abstract args, concrete kwargs) for a random select request."""
    a, kw = {}, {}
    pe = 0.06 if allow_bad else 0.0
    ants = sorted(set(uvd.ant_1_array.tolist()) | set(uvd.ant_2_array.tolist()))
    pairs = sorted(set(zip(uvd.ant_1_array.tolist(), uvd.ant_2_array.tolist())))
    names = {int(n): str(s) for n, s in zip(uvd.telescope.antenna_numbers, uvd.telescope.antenna_names)}
    times = np.unique(uvd.time_array)
    lsts = np.unique(uvd.lst_array)
    nsel = int(rng.choice([1, 1, 2, 2, 3, 4]))
    kinds = ["ants", "antnames", "bls", "blpols", "astr", "times", "trange", "lsts", "lrange", "freqs", "chans",
             "freqchan", "pols", "inds", "pcids", "names"]
    for kind in rng.choice(kinds, nsel, replace=False):
        if kind in ("blpols", "pols") and (("blpols" in a or "pols" in a or "astr" in a) and rng.random() > pe):
            continue
        if kind in ("blpols", "pols", "astr") and uvd.flex_spw_polarization_array is not None:
            continue
        if kind in ("bls", "blpols") and ("bls" in a or "blpols" in a):
            continue
        if kind in ("ants", "antnames") and ("ants" in a or "antnames" in a) and rng.random() > pe:
            continue
        if kind in ("pcids", "names") and ("pcids" in a or "names" in a) and rng.random() > pe:
            continue
        if kind in ("times", "trange", "lsts", "lrange") and (set(a) & {"times", "trange", "lsts", "lrange"}) and rng.random() > pe:
            continue
        if "astr" in a and kind in ("ants", "antnames", "bls", "blpols", "pols"):
            continue
        if kind == "ants":
            v = some(rng, ants if rng.random() < 0.5 else ants[: max(2, len(ants) - 1)], 98, pe)
            a["ants"] = [int(x) for x in v]
            kw["antenna_nums"] = shape_arg(rng, [int(x) for x in v])
        elif kind == "antnames":
            v = [names[x] for x in some(rng, ants)]
            if rng.random() < pe:
                v.append("nosuch")
            a["antnames"] = v
            kw["antenna_names"] = shape_arg(rng, v)
        elif kind == "bls":
            v = some(rng, pairs)
            v = [(x[1], x[0]) if rng.random() < 0.3 else x for x in v]
            form = rng.random()
            if form < 0.2:
                v = [x for x in v if x in pairs] or [pairs[0]]
                a["bls"] = [list(x) for x in v]
                num = dict(zip(zip(uvd.ant_1_array, uvd.ant_2_array), uvd.baseline_array))
                kw["bls"] = [int(num[x]) for x in v]
            else:
                if rng.random() < pe:
                    v.append((ants[0], 97))
                a["bls"] = [list(x) for x in v]
                kw["bls"] = v[0] if (len(v) == 1 and rng.random() < 0.5) else v
        elif kind == "blpols":
            v = some(rng, pairs)
            pl = [int(p) for p in uvd.polarization_array]
            w, ww = [], []
            for x in v:
                p = int(rng.choice(pl))
                if rng.random() < 0.3:
                    x = (x[1], x[0])
                a_, b_ = x
                w.append([int(a_), int(b_), p])
                ww.append((a_, b_, uvutils.polnum2str(p)))
            a["blpols"] = w
            kw["bls"] = ww[0] if (len(ww) == 1 and rng.random() < 0.5) else ww
        elif kind == "astr":
            if set(a) & {"ants", "antnames", "bls", "blpols", "pols"}:
                continue
            form = int(rng.integers(0, 4))
            if form == 3:
                v = some(rng, pairs)
                a["bls"] = [list(x) for x in v]
                kw["ant_str"] = ",".join(f"{x}_{y}" for x, y in v)
                a["astr"] = "pairs"
            else:
                a["astr"] = ["auto", "cross", "all"][form]
                kw["ant_str"] = a["astr"]
        elif kind == "times":
            v = some(rng, times)
            if rng.random() < pe:
                v.append(times[-1] + 0.5)
            if rng.random() < 0.3:
                v = [x + rng.uniform(-1, 1) * 3e-4 / 86400 for x in v]
            a["times"] = [t2tok(x) for x in v]
            kw["times"] = shape_arg(rng, v)
        elif kind == "trange":
            edges = [times + 3.0 / 86400, times - 3.0 / 86400] + ([] if soft else [times])
            v = sorted(rng.choice(np.concatenate(edges[::-1]), 2, replace=False))
            a["trange"] = [t2tok(x) for x in v]
            kw["time_range"] = list(v) if rng.random() < 0.5 else np.array(v)
        elif kind == "lsts":
            v = some(rng, lsts)
            a["lsts"] = [fx(x, 1e7) for x in v]
            kw["lsts"] = shape_arg(rng, v)
        elif kind == "lrange":
            v = rng.choice(np.concatenate([lsts + 2e-5, lsts - 2e-5]), 2, replace=False)
            v = np.clip(v, 0, 2 * np.pi)
            a["lrange"] = [fx(x, 1e7) for x in v]
            kw["lst_range"] = list(v)
        elif kind in ("freqs", "freqchan"):
            v = some(rng, uvd.freq_array, 3.0e8, pe)
            a["freqs"] = [fx(x) for x in v]
            kw["frequencies"] = shape_arg(rng, v)
        if kind in ("chans", "freqchan"):
            v = some(rng, range(uvd.Nfreqs), uvd.Nfreqs, pe)
            a["chans"] = [int(x) for x in v]
            kw["freq_chans"] = shape_arg(rng, [int(x) for x in v])
        if kind == "pols":
            pl = [int(p) for p in uvd.polarization_array]
            v = some(rng, pl)
            if rng.random() < pe:
                v.append(-9 if -9 not in pl else 4)
            a["pols"] = v
            if rng.random() < 0.4 and -9 not in v:
                xo = uvd.telescope.x_orientation if rng.random() < 0.5 else None
                kw["polarizations"] = shape_arg(rng, [uvutils.polnum2str(p, x_orientation=xo) for p in v] , scalar=False)
            else:
                kw["polarizations"] = shape_arg(rng, v)
        if kind == "inds":
            v = some(rng, range(uvd.Nblts))
            if rng.random() < pe:
                v.append(int(rng.choice([-1, uvd.Nblts])))
            a["inds"] = [int(x) for x in v]
            kw["blt_inds"] = shape_arg(rng, [int(x) for x in v])
        if kind == "pcids":
            v = some(rng, uvd.phase_center_catalog)
            a["pcids"] = [int(x) for x in v]
            kw["phase_center_ids"] = shape_arg(rng, [int(x) for x in v])
        if kind == "names":
            v = some(rng, [d["cat_name"] for d in uvd.phase_center_catalog.values()])
            a["names"] = [str(x) for x in v]
            kw["catalog_names"] = shape_arg(rng, v, arr=False)
    a["keep"] = bool(rng.random() < 0.6)
    kw["keep_all_metadata"] = a["keep"]
    return a, kw


def bad(rng, rec, uvd):
    """A request that makes no sense."""
    p = list(zip(uvd.ant_1_array.tolist(), uvd.ant_2_array.tolist()))
    x = p[int(rng.integers(0, len(p)))]
    flex = uvd.flex_spw_polarization_array is not None
    pn = uvutils.polnum2str(int(uvd.polarization_array[0])) if not flex else "xx"
    num = int(uvd.baseline_array[0])
    t, names = uvd.time_array, [str(n) for n in uvd.telescope.antenna_names]
    absent = int(max(uvd.telescope.antenna_numbers)) + 1
    free = [int(n) for n in uvd.telescope.antenna_numbers if n not in uvd.ant_1_array and n not in uvd.ant_2_array]
    reqs = [{"bls": []}, {"bls": [x, num]}, {"bls": [(x[0], names[0])]}, {"bls": [(names[0], x[1])]}, {"bls": [(x[0], x[1], 3)]}, {"bls": [num, absent * 70000]},
            {"bls": "text"}, {"bls": x[0]}, {"bls": [(absent, x[1])]}, {"bls": [(x[0], absent)]}, {"bls": [(x[0], x[1], pn)], "polarizations": [pn]},
            {"antenna_nums": [x[0]], "antenna_names": [names[0]]}, {"antenna_nums": [x[0], absent]}, {"antenna_names": [names[0], "nosuch"]},
            {"antenna_nums": free[:1] or [absent]},
            {"times": [t[0]], "time_range": [t[0] - 1, t[0] + 1]}, {"times": [t[0] + 40]}, {"times": [t[0], t[0] + 40]}, {"time_range": [t[0] + 40, t[0] + 41]},
            {"time_range": [t[0], t[0] + 1, t[0] + 2]}, {"time_range": t[0]}, {"lst_range": [0.1]}, {"lsts": [7.0]}, {"lsts": [-0.5]},
            {"times": [t[0]], "lsts": [uvd.lst_array[0]]}, {"time_range": [t[0] - 1, t[0] + 1], "lst_range": [0.0, 6.28]},
            {"frequencies": [uvd.freq_array[0], 1.0]}, {"freq_chans": [uvd.Nfreqs]}, {"blt_inds": [uvd.Nblts]}, {"blt_inds": [0, -1]}, {"blt_inds": []},
            {"catalog_names": "nosuch"}, {"phase_center_ids": [444]}, {"phase_center_ids": [0], "catalog_names": "src0"},
            {"ant_str": "auto", "bls": [x]}, {"ant_str": "all", "antenna_nums": [x[0]]}, {"ant_str": f"{absent}"}, {"ant_str": f"{absent}_{absent}"}]
    if not flex:
        reqs += [{"polarizations": [pn, "nosuch"]}, {"polarizations": [17]}, {"ant_str": "pI", "polarizations": [pn]}]
    kw = reqs[int(rng.integers(0, len(reqs)))]
    inplace = bool(rng.random() < 0.6)
    out, res = call(uvd.select, inplace=inplace, **kw)
    rec.ev("Refused", o="a", args={"kw": str(kw), "inplace": inplace}, out=out, err=str(res) if out == "error" else "", post={"a": proj(uvd)})


def scenario(rng, rec):
    uvd = make_uvd(rng, meta_only=bool(rng.random() < 0.15))
    if rng.random() < 0.3:
        uvd.reorder_blts(order=str(rng.choice(["time", "baseline", "ant1", "ant2"])))
    if rng.random() < 0.3:
        uvd.set_rectangularity(force=True)
    rec.ev("Make", o="a", post={"a": proj(uvd)})
    for _ in range(3):
        if rng.random() < 0.15:
            bad(rng, rec, uvd)
        a, kw = gen_select(rng, uvd)
        inplace = bool(rng.random() < 0.5)
        if inplace:
            out, err = call(uvd.select, inplace=True, **kw)
            rec.ev("Select", o="a", r="a", args=a, out=out, err=str(err) if out == "error" else "", post={"a": proj(uvd)})
        else:
            out, res = call(uvd.select, inplace=False, **kw)
            post = {"a": proj(uvd)}
            post["b"] = proj(res) if out == "ok" else post["a"]
            rec.ev("Select", o="a", r="b", args=a, out=out, err=str(res) if out == "error" else "", post=post)
            if out == "ok":
                uvd = res
                rec.ev("Make", o="a", post={"a": post["b"]})


def run(chk):
    tr = chk.scenarios("select", scenario, chk.n(700, 6000))
    chk.validate("TraceUVD", "TraceUVD.cfg", tr, min_ops={"Select/ok": 200, "Select/error": 20, "Refused/error": 100})
