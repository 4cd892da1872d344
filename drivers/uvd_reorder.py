"""C02: reordering and conjugation keep every visibility with its labels."""
import numpy as np

from vf.harness import call
from vf.uvd import enu_table, grid_tel, make_uvd, proj

CONVS = ["ant1<ant2", "ant2<ant1", "u<0", "u>0", "v<0", "v>0", "index"]


def gen_conj(rng, uvd):
    conv = str(rng.choice(CONVS))
    a = {"conv": conv, "enu": bool(rng.random() < 0.6), "tol": 0, "antenu": enu_table(uvd.telescope)}
    if conv == "index":
        v = rng.choice(uvd.Nblts, int(rng.integers(1, uvd.Nblts + 1)), replace=False)
        a["inds"] = [int(x) for x in v]
        a["enu"] = False
        return a, ([np.array(v), list(map(int, v)), tuple(map(int, v))][int(rng.integers(0, 3))]), {}
    kw = {"use_enu": a["enu"]}
    if uvd.telescope.name == "vfgrid":
        a["tol"] = 500
        kw["uvw_tol"] = 0.5
    return a, conv, kw


def step(rng, rec, uvd, reg="a"):
    k = rng.choice(["conj", "blts", "blts", "freqs", "pols"])
    if k == "conj":
        a, conv, kw = gen_conj(rng, uvd)
        out, err = call(uvd.conjugate_bls, conv, **kw)
        rec.ev("Conjugate", o=reg, args=a, out=out, err=str(err), post={reg: proj(uvd)})
    elif k == "blts":
        a, kw = {"autos": False, "keys": ["x"]}, {}
        if rng.random() < 0.2:
            v = rng.permutation(uvd.Nblts)
            a["index"] = [int(x) for x in v]
            kw["order"] = [np.array(v), list(map(int, v)), tuple(map(int, v))][int(rng.integers(0, 3))]
        else:
            o = str(rng.choice(["time", "baseline", "ant1", "ant2", "bda"]))
            minors = {"time": ["baseline", "ant1", "ant2", "time"], "baseline": ["time", "baseline"],
                      "ant1": ["ant2", "time", "baseline", "ant1"], "ant2": ["ant1", "time", "baseline", "ant2"], "bda": []}[o]
            kw["order"] = o
            m = {"time": "baseline", "baseline": "time", "ant1": "ant2", "ant2": "ant1", "bda": None}[o]
            if minors and rng.random() < 0.5:
                mm = str(rng.choice(minors))
                kw["minor_order"] = mm
                if mm != o:
                    m = mm
            a["keys"] = [o] + ([m] if m else [])
            if rng.random() < 0.3:
                a["autos"] = True
                kw["autos_first"] = True
        if rng.random() < 0.3:
            ca, conv, ckw = gen_conj(rng, uvd)
            a["conj"] = ca
            kw["conj_convention"] = conv
            if "use_enu" in ckw:
                kw["conj_convention_use_enu"] = ckw["use_enu"]
            if "uvw_tol" in ckw:
                kw["uvw_tol"] = ckw["uvw_tol"]
        out, err = call(uvd.reorder_blts, **kw)
        rec.ev("ReorderBlts", o=reg, args=a, out=out, err=str(err), post={reg: proj(uvd)})
    elif k == "freqs":
        a, kw = {"x": 0}, {}
        r = rng.random()
        if r < 0.2:
            v = rng.permutation(uvd.Nfreqs)
            a["chanindex"] = [int(x) for x in v]
            kw["channel_order"] = [np.array(v), list(map(int, v)), tuple(map(int, v))][int(rng.integers(0, 3))]
        else:
            if r < 0.8:
                if rng.random() < 0.25:
                    v = rng.permutation(uvd.Nspws)
                    a["spwindex"] = [int(x) for x in v]
                    kw["spw_order"] = list(map(int, v)) if rng.random() < 0.5 else v
                else:
                    a["spworder"] = str(rng.choice(["number", "-number", "freq", "-freq"]))
                    kw["spw_order"] = a["spworder"]
            if r > 0.35:
                a["chan"] = str(rng.choice(["freq", "-freq"]))
                kw["channel_order"] = a["chan"]
                if rng.random() < 0.3:
                    v = rng.choice(uvd.spw_array, int(rng.integers(1, uvd.Nspws + 1)), replace=False)
                    a["select"] = [int(x) for x in v]
                    kw["select_spw"] = int(v[0]) if (len(v) == 1 and rng.random() < 0.5) else v
        out, err = call(uvd.reorder_freqs, **kw)
        rec.ev("ReorderFreqs", o=reg, args=a, out=out, err=str(err), post={reg: proj(uvd)})
    elif k == "pols":
        a, kw = {"x": 0}, {}
        if rng.random() < 0.4:
            v = rng.permutation(uvd.Npols)
            a["index"] = [int(x) for x in v]
            kw["order"] = list(map(int, v)) if rng.random() < 0.5 else v
        else:
            a["kind"] = str(rng.choice(["AIPS", "CASA"]))
            kw["order"] = a["kind"]
        out, err = call(uvd.reorder_pols, **kw)
        rec.ev("ReorderPols", o=reg, args=a, out=out, err=str(err), post={reg: proj(uvd)})


def notperm(rng, n):
    """An index list that is no permutation of n."""
    v = list(map(int, rng.permutation(n)))
    k = int(rng.integers(0, 4))
    if k == 0 and n > 1:
        v[0] = v[1]
    elif k == 1:
        v = v[:-1] if n > 1 else v + v
    elif k == 2:
        v = v + [0]
    else:
        v[int(rng.integers(0, n))] = n
    return np.array(v) if rng.random() < 0.5 else v


def bad(rng, rec, uvd, reg="a"):
    """A request that makes no sense."""
    kw = {}
    k = str(rng.choice(["conj", "blts", "blts", "freqs", "pols"]))
    if k == "conj":
        v = list(map(int, rng.choice(uvd.Nblts, int(rng.integers(1, uvd.Nblts + 1)), replace=False)))
        f = int(rng.integers(0, 4))
        v = [v + [uvd.Nblts], [-1] + v, [x + 0.0 for x in v], str(rng.choice(["ant1>ant2", "u", "w>0", ""]))][f]
        fn, kw = uvd.conjugate_bls, {"convention": np.array(v) if f < 3 and rng.random() < 0.5 else v}
    elif k == "blts":
        fn = uvd.reorder_blts
        f = int(rng.integers(0, 6))
        if f < 2:
            kw = {"order": notperm(rng, uvd.Nblts)}
        elif f == 2:
            kw = {"order": list(map(int, rng.permutation(uvd.Nblts))), "minor_order": str(rng.choice(["time", "baseline"]))}
        elif f == 3:
            kw = {"order": str(rng.choice(["times", "freq", "", "bls"]))}
        elif f == 4:
            kw = {"order": str(rng.choice(["time", "ant1", "baseline"])), "minor_order": str(rng.choice(["bda", "freq", "ant3"]))}
        else:
            kw = {"order": "baseline", "minor_order": str(rng.choice(["ant1", "ant2"]))} if rng.random() < 0.5 else {"order": "bda", "minor_order": "time"}
        if rng.random() < 0.3:
            kw["conj_convention"] = str(rng.choice(CONVS[:2]))
        if rng.random() < 0.3:
            kw["autos_first"] = True
    elif k == "freqs":
        fn = uvd.reorder_freqs
        f = int(rng.integers(0, 4))
        if f == 0:
            kw = {"channel_order": notperm(rng, uvd.Nfreqs)}
        elif f == 1:
            kw = {"spw_order": notperm(rng, uvd.Nspws)}
        elif f == 2:
            kw = {"channel_order": str(rng.choice(["frequency", "number", ""]))}
        else:
            kw = {"spw_order": str(rng.choice(["frequency", "--freq", ""]))}
    else:
        fn = uvd.reorder_pols
        kw = {"order": notperm(rng, uvd.Npols) if rng.random() < 0.6 else str(rng.choice(["aips", "MIR", ""]))}
    out, err = call(fn, **kw)
    rec.ev("Refused", o=reg, args={"what": k, "kw": str(kw)}, out=out, err=str(err), post={reg: proj(uvd)})


def scenario(rng, rec):
    tel = grid_tel(rng) if rng.random() < 0.4 else None
    uvd = make_uvd(rng, tel=tel, meta_only=bool(rng.random() < 0.1), npols=int(rng.choice([1, 2, 4, 4])))
    rec.ev("Make", o="a", post={"a": proj(uvd)})
    for _ in range(4):
        (bad if rng.random() < 0.08 else step)(rng, rec, uvd)


def run(chk):
    tr = chk.scenarios("reorder", scenario, chk.n(600, 6000))
    chk.validate("TraceUVD", "TraceUVD.cfg", tr, min_ops={
        "Conjugate/ok": 100, "ReorderBlts/ok": 200, "ReorderFreqs/ok": 100, "ReorderPols/ok": 100, "Refused/error": 50})
