"""C22: replaying behaviours of the model spec/MCLife.tla into the real code."""
import json
import os
import re

import numpy as np

from pyuvdata import Telescope, UVData
from pyuvdata import utils as uvutils
from vf import tlc
from vf.harness import call
from vf.num import fx
from vf.uvd import JD0, LOC, proj

BEHS = []
TSEC = {1000: 100.0, 2000: 132.5, 3000: 151.0}
FHZ = {f: 1.0e8 + 1e5 * f for f in range(1, 9)}


def simulate(num, seed, cfg="MCLifeSim.cfg"):
    """Random behaviours of the model, deduplicated, in a fixed order."""
    r = tlc.run("MCLifeC", cfg, extra=("-simulate", f"num={num}", "-depth", "14", "-seed", str(seed)), workers=1)
    out, seen = [], set()
    for m in re.finditer(r'"VFBEH\|(.*?)\|END"', r["out"]):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            out.append(json.loads(m.group(1).replace('\\"', '"')))
    return out, r


def simulate_many(num, seed, parts=8):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(parts) as pool:
        res = list(pool.map(lambda k: simulate(num // parts, 1000 * seed + k)[0], range(parts)))
    return [b for r in res for b in r]


def start(rows, rng):
    """The real object that holds the visibilities of the model's initial state."""
    pos = np.array([[10.0 * n, 1.0 * n * n, 0.0] for n in (1, 2, 3)])
    ecef = uvutils.ECEF_from_ENU(pos, center_loc=LOC) - np.array([LOC.x.value, LOC.y.value, LOC.z.value])
    tel = Telescope.new(name="lifescope", location=LOC, antenna_positions=ecef, antenna_names=["a1", "a2", "a3"],
                        antenna_numbers=[1, 2, 3], instrument="life", x_orientation="east")
    cell = {tuple(r[:5]): r[5:] for r in rows}
    blts = list(dict.fromkeys((r[0], r[1], r[2]) for r in rows))
    freqs = list(dict.fromkeys(r[3] for r in rows))
    pols = list(dict.fromkeys(r[4] for r in rows))
    k = rng.permutation(len(blts)) if rng.random() < 0.3 else np.arange(len(blts))
    blts = [blts[i] for i in k]
    u = UVData.new(freq_array=np.array([FHZ[f] for f in freqs]), channel_width=1e5, polarization_array=np.array(pols),
                   times=np.array([JD0 + TSEC[b[0]] / 86400.0 for b in blts]), antpairs=np.array([b[1:] for b in blts]),
                   do_blt_outer=False, integration_time=10.0, telescope=tel, vis_units="Jy", empty=True)
    for i, b in enumerate(blts):
        for j, f in enumerate(freqs):
            for q, p in enumerate(pols):
                re_, im, fl, ns = cell[b + (f, p)]
                u.data_array[i, j, q] = re_ + 1j * im
                u.flag_array[i, j, q] = bool(fl)
                u.nsample_array[i, j, q] = ns / 1000.0
    u.check()
    return u


TLAB = {fx(v, 1e4): k for k, v in TSEC.items()}
FLAB = {fx(v): k for k, v in FHZ.items()}


def rows_of(p):
    """The projection of a real object in the labels of the model."""
    out = []
    nf, npol = len(p["axes"]["freq"]), len(p["axes"]["pol"])
    for i, b in enumerate(p["axes"]["blt"]):
        for j, f in enumerate(p["axes"]["freq"]):
            for k, q in enumerate(p["axes"]["pol"]):
                c = p["cells"][(i * nf + j) * npol + k]
                out.append([TLAB.get(b["t"], b["t"]), b["a1"], b["a2"], FLAB.get(f["f"], f["f"]), q["p"]] + c)
    return out


def crit(rng, c, u):
    kw = {}
    if "bls" in c:
        x = tuple(c["bls"][0])
        kw["bls"] = [x] if rng.random() < 0.7 else x
    if "times" in c:
        tt = JD0 + TSEC[c["times"][0]] / 86400.0
        r = rng.random()
        if r < 0.4:
            kw["times"] = [tt]
        elif r < 0.7:
            kw["times"] = tt
        else:
            kw["time_range"] = [tt - 2 / 86400.0, tt + 2 / 86400.0]
    if "freqs" in c:
        f = FHZ[c["freqs"][0]]
        if rng.random() < 0.5:
            kw["frequencies"] = [f]
        else:
            kw["freq_chans"] = [int(np.argmin(np.abs(u.freq_array - f)))]
    if "pols" in c:
        p = list(c["pols"])
        kw["polarizations"] = p if rng.random() < 0.5 else [uvutils.polnum2str(x, x_orientation="east" if rng.random() < 0.5 else None) for x in p]
    return kw


def rest(c, u, want):
    """The complement of c on u (row and channel numbers are those of the real object)."""
    if "pols" in c["rest"]:
        return {"polarizations": list(c["rest"]["pols"])}
    if "chans" in c["rest"]:
        keep = {r[3] for r in want}
        return {"freq_chans": [j for j, f in enumerate(u.freq_array) if FLAB[fx(f)] in keep]}
    keep = {tuple(r[:3]) for r in want}
    lab = [(TLAB[fx((t - JD0) * 86400.0, 1e4)], int(x), int(y)) for t, x, y in zip(u.time_array, u.ant_1_array, u.ant_2_array)]
    return {"blt_inds": [i for i, z in enumerate(lab) if z in keep]}


def replay(rng, rec):
    beh = BEHS[int(rec.tid.split(":")[-1])]
    path = os.path.join(rec.scratch, "f.uvh5")
    a, b, head = None, None, None

    def log(st, out, res):
        post = {"a": proj(a)}
        got = {"a": rows_of(post["a"]), "b": []}
        if b is not None:
            post["b"] = proj(b)
            got["b"] = rows_of(post["b"])
        args = {k: v for k, v in st["args"].items() if k in ("keys", "autos", "kind", "chan")}
        rec.ev(st["act"], act=st["act"], args=args or {"x": 0}, note=json.dumps(st["args"])[:200], out=out, err=str(res) if out == "error" else "", wantout=st["out"],
               want={"a": st["a"], "b": st["b"]}, got=got, post=post)

    for st in beh:
        act, c = st["act"], st["args"]
        out, res = "ok", None
        if act == "Init":
            a = start(st["a"], rng)
        elif act == "Select":
            if rng.random() < 0.5:
                out, res = call(a.select, **crit(rng, c, a))
            else:
                out, res = call(a.select, inplace=False, **crit(rng, c, a))
                a = res if out == "ok" else a
        elif act == "Split":
            kw2 = rest(c, a, st["a"])
            out, res = call(a.select, inplace=False, **crit(rng, c["first"], a))
            if out == "ok":
                b = res
                out, res = call(a.select, **kw2)
        elif act == "Add":
            if rng.random() < 0.5:
                out, res = call(a.__iadd__, b)
            else:
                out, res = call(a.__add__, b)
            if out == "ok":
                a, b = res, None
        elif act == "Drop":
            b = None
        elif act == "Swap":
            a, b = b, a
        elif act == "Conj":
            conv = c["conv"]
            if conv == "index":
                conv = np.nonzero((a.ant_1_array == c["pr"][0]) & (a.ant_2_array == c["pr"][1]))[0]
            out, res = call(a.conjugate_bls, conv, use_enu=False)
        elif act == "ReorderBlts":
            out, res = call(a.reorder_blts, order=c["keys"][0], minor_order=c["keys"][1])
        elif act == "ReorderPols":
            out, res = call(a.reorder_pols, order=c["kind"])
        elif act == "ReorderFreqs":
            out, res = call(a.reorder_freqs, channel_order=c["chan"])
        elif act == "Write":
            head = None
            out, res = call(a.write_uvh5, path, clobber=True)
        elif act == "InitFile":
            out, res = call(a.initialize_uvh5_file, path, clobber=True)
            head = a.copy(metadata_only=True)
        elif act == "WritePart":
            h = a.copy(metadata_only=True)
            if head is None or h != head:
                return  # same labels in the model, another order here: not a part of this file
            kw = crit(rng, c, a)
            p = a.select(inplace=False, **kw)
            out, res = call(a.write_uvh5_part, path, data_array=p.data_array, flag_array=p.flag_array, nsample_array=p.nsample_array, **kw)
        elif act == "ReadAll":
            n = UVData()
            out, res = call(n.read, path)
            a = n if out == "ok" else a
        elif act == "ReadPart":
            n = UVData()
            # channel numbers are those of the file
            out, res = call(n.read, path, keep_all_metadata=True, **crit(rng, {k: v for k, v in c.items() if k != "freqs"}, a),
                            **({"frequencies": [FHZ[c["freqs"][0]]]} if "freqs" in c else {}))
            b = n if out == "ok" else b
        log(st, out, res)
        if out != st["out"]:
            return


def run_C22(chk):
    chk.design("MCLifeC", "MCLife.cfg" if not chk.thorough else "MCLifeDeep.cfg", expect_min=3000, timeout=5000)
    chk.design("MCLifeC", "MCLaws.cfg" if not chk.thorough else "MCLawsDeep.cfg", expect_min=20, timeout=5000)
    BEHS[:] = simulate_many(chk.n(400, 6000), chk.seed)
    chk.cov["behaviours_generated_from_the_model"] = len(BEHS)
    tr = chk.scenarios("life", replay, len(BEHS))
    chk.validate("TraceLife", "TraceLife.cfg", tr, min_ops={
        "Init/ok": 300, "Select/ok": 100, "Split/ok": 200, "Add/ok": 50, "Add/error": 10, "Conj/ok": 200, "Conj/error": 20, "ReorderBlts/ok": 150,
        "ReorderPols/ok": 80, "ReorderFreqs/ok": 80, "Write/ok": 100, "InitFile/ok": 100, "WritePart/ok": 20, "ReadAll/ok": 20, "ReadPart/ok": 20, "Swap/ok": 40})
