"""C23: redundant baselines: groups, compression, inflation."""
import numpy as np

from pyuvdata import utils as uvutils
from vf.harness import call
from vf.num import fx, fxs
from vf.uvd import enu_table, grid_tel, make_uvd, proj

P = {"dscale": 100.0}


def pr(u):
    return proj(u, **P)


def make(rng):
    tol = float(rng.choice([0.5, 1.0, 1.0, 3.0]))
    nants = int(rng.choice([3, 4, 4, 5, 6]))
    tel = grid_tel(rng, nants=nants)
    jit = 0.0
    if rng.random() < 0.5:
        jit = tol / 50
        tel.antenna_positions = tel.antenna_positions + rng.uniform(-jit, jit, tel.antenna_positions.shape)
    pols = [None, None, None, [-5], [-5, -6], [-7], [-5, -7], [-7, -8]][int(rng.integers(0, 8))]
    npairs = nants * (nants + 1) // 2
    npc = int(rng.choice([1, 1, 2]))
    u = make_uvd(rng, tel=tel, nfreqs=int(rng.integers(1, 3)), ntimes=int(rng.integers(1, 4)), allbls=bool(rng.random() < 0.5),
                 nbls=int(rng.integers(2, npairs + 1)), pols=pols, npols=int(rng.choice([1, 4])), npc=npc, ragged=bool(rng.random() < 0.3),
                 projected=[True, False][int(rng.random() < 0.5)] if npc == 1 or rng.random() < 0.7 else None,
                 meta_only=bool(rng.random() < 0.05), shuffle=str(rng.choice(["no", "bl", "rand"])), dtype=np.complex128)
    if u.data_array is not None:
        u.nsample_array[...] = np.maximum(u.nsample_array, 1)
        if rng.random() < 0.5:
            u.flag_array[rng.random(u.flag_array.shape) < 0.5] = True
    if rng.random() < 0.3:
        u.reorder_blts(order=str(rng.choice(["time", "baseline"])), minor_order=None)
    # keep clear of the borders of the direction convention
    pos = {int(k): np.array(v) / 1000 for k, v in enu_table(tel).items()}
    vecs = [u.uvw_array] + [np.array([pos[y] - pos[x] for x in pos for y in pos])]
    near = np.abs(np.abs(np.concatenate(vecs)) - tol)
    if near.min() < 0.1 * tol:
        return None
    a = {"tol": fx(tol, 1000), "jit": int(round(4000 * jit)) + 12, "enu": enu_table(tel)}
    return u, tol, a


def prs(u, gps):
    return [[[int(x) for x in u.baseline_to_antnums(b)] for b in g] for g in gps]


def red(rng, rec, u, tol, a):
    a = dict(a, antpos=bool(rng.random() < 0.4), conj=bool(rng.random() < 0.6), autos=bool(rng.random() < 0.6), cbl=bool(rng.random() < 0.4))
    if a["cbl"] and a["antpos"] and not set(u.polarization_array.tolist()).isdisjoint({-7, -8, -3, -4}):
        pl = set(u.polarization_array.tolist())
        if len(pl & {-7, -8}) == 1 or len(pl & {-3, -4}) == 1:
            a["cbl"] = False
    out, res = call(u.get_redundancies, tol=tol, use_antpos=a["antpos"], include_conjugates=a["conj"], include_autos=a["autos"],
                    conjugate_bls=a["cbl"], use_grid_alg=bool(rng.random() < 0.5))
    r = {"groups": [], "vecs": [], "lens": [], "conj": []}
    if out == "ok":
        r = {"groups": prs(u, res[0]), "vecs": [fxs(v, 1000) for v in res[1]], "lens": [fx(x, 1000) for x in res[2]], "conj": []}
        if a["conj"] and res[3] is not None:
            r["conj"] = [[int(x) for x in u.baseline_to_antnums(b)] for b in res[3]]
    rec.ev("Red", o="a", w=["a"], args=a, res=r, out=out, err=str(res) if out == "error" else "", post={"a": pr(u)})


def compress(rng, rec, u, tol, a):
    a = dict(a, method=str(rng.choice(["select", "average", "average", "average"])), keep=bool(rng.random() < 0.7))
    if rng.random() < 0.03:
        a["method"] = "mean"
    inp = bool(rng.random() < 0.5)
    out, res = call(u.compress_by_redundancy, method=a["method"], tol=tol, inplace=inp, keep_all_metadata=a["keep"],
                    use_grid_alg=bool(rng.random() < 0.5))
    ev = {"o": "a", "r": "a" if inp else "c", "w": ["a"] if inp else ["a", "c"], "args": a, "out": out, "err": str(res) if out == "error" else ""}
    if inp:
        rec.ev("Compress", post={"a": pr(u)}, **ev)
        return u if out == "ok" else None
    rec.ev("Compress", post={"a": pr(u), "c": pr(res if out == "ok" else u)}, **ev)
    return res if out == "ok" else None


def inflate(rng, rec, u, tol, a, reg):
    order, minor = [("time", None), ("time", "baseline"), ("baseline", None), ("ant1", "ant2"), ("time", "ant1")][int(rng.integers(0, 5))]
    eff = {"time": "baseline", "baseline": "time", "ant1": "ant2"}[order] if minor is None else minor
    if u.data_array is None:
        return
    out, res = call(u.inflate_by_redundancy, tol=tol, blt_order=order, blt_minor_order=minor, use_grid_alg=bool(rng.random() < 0.5))
    rec.ev("Inflate", o=reg, w=[reg], args=dict(a, order=[order, eff]), out=out, err=str(res) if out == "error" else "", post={reg: pr(u)})


def scenario(rng, rec):
    for _ in range(20):
        m = make(rng)
        if m:
            break
    else:
        return
    u, tol, a = m
    rec.ev("Make", o="a", post={"a": pr(u)})
    for _ in range(int(rng.integers(0, 3))):
        red(rng, rec, u, tol, a)
    if rng.random() < 0.85:
        c = compress(rng, rec, u, tol, a)
        if c is not None and rng.random() < 0.75:
            inflate(rng, rec, c, tol, a, "a" if c is u else "c")
    elif rng.random() < 0.7:
        inflate(rng, rec, u, tol, a, "a")
    else:
        red(rng, rec, u, tol, a)


def large(rng, rec):
    """More baselines than are compared at once."""
    n = int(rng.integers(1200, 3600))
    tol = float(rng.choice([0.3, 1.0, 2.0]))
    nx = int(rng.choice([3, 10, 60]))
    ncls = max(2, int(n * float(rng.choice([0.3, 0.7]))))
    cls = rng.integers(0, ncls, n)
    base = np.stack([(cls % nx) * (5 * tol if nx > 5 else 0.0), (cls // nx % 40) * 6.0 * tol, (cls // nx // 40) * 7.0 * tol], axis=1)
    vecs = base + rng.uniform(-0.05, 0.05, base.shape) * tol
    if rng.random() < 0.5:
        # spread over x, so that members of one group are compared in different blocks
        vecs[:, 0] += rng.choice([-0.35, 0.35], n) * tol
    if rng.random() < 0.3:
        vecs = vecs[:, ::-1].copy()
    lab = np.unique(base, axis=0, return_inverse=True)[1].ravel()
    out, res = call(uvutils.redundancy.get_baseline_redundancies, np.arange(1, n + 1), vecs, tol=tol, use_grid_alg=False)
    rec.ev("Large", args={"cls": [int(x) for x in lab]}, out=out, res=[[int(b) for b in g] for g in res[0]] if out == "ok" else [],
           err=str(res) if out == "error" else "")


def run(chk):
    tr = chk.scenarios("red", scenario, chk.n(700, 6000))
    tr += chk.scenarios("large", large, chk.n(16, 120))
    chk.validate("TraceRed", "TraceRed.cfg", tr, min_ops={"Red/ok": 150, "Compress/ok": 150, "Inflate/ok": 60})
