"""C28: telescopes, what is known about them, and the frames of antenna positions (TELE.tla)."""
import csv
import math
import os
import warnings

import h5py
import numpy as np
from astropy import units
from astropy.coordinates import EarthLocation
from lunarsky import MoonLocation
from pyuvdata import Telescope, utils
from pyuvdata import telescopes as telmod
from pyuvdata.data import DATA_PATH
from pyuvdata.utils.coordinates import check_surface_based_positions
from vf.harness import call

LATS = [(0, 5), (3, 4), (4, 3), (5, 0), (-3, 4), (-4, 3), (-5, 0)]
LONS = LATS + [(0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]
BODIES = ["earth"] * 4 + ["SPHERE", "GSFC", "GRAIL23", "CE-1-LAM-GEO"]


def ang(d):
    return math.atan2(d[0], d[1])


def direc(x, table):
    for d in table:
        if abs((x - ang(d) + math.pi) % (2 * math.pi) - math.pi) < 2e-9:
            return list(d)
    return [99, 99]


def ints(v, scale):
    return [int(round(float(x) * scale)) if np.isfinite(x) and abs(x * scale) < 2**31 - 1 else -1 for x in v]


def place(rng, body):
    la, lo = LATS[int(rng.integers(0, 7))], LONS[int(rng.integers(0, 12))]
    return la, lo, int(25 * rng.integers(-10, 100))


def location(body, la, lo, alt):
    if body == "earth":
        return EarthLocation.from_geodetic(lat=ang(la) * units.rad, lon=ang(lo) * units.rad, height=alt * units.m)
    return MoonLocation.from_selenodetic(lat=ang(la) * units.rad, lon=ang(lo) * units.rad, height=alt * units.m, ellipsoid=body)


def points(rng, n, scale=200):
    return [[int(25 * x) for x in rng.integers(-scale, scale + 1, 3)] for _ in range(n)]


def frame_kw(rng, body):
    if body == "earth":
        return {} if rng.random() < 0.4 else {"frame": str(rng.choice(["ITRS", "itrs"]))}
    kw = {"frame": str(rng.choice(["MCMF", "mcmf"]))}
    if body != "SPHERE" or rng.random() < 0.5:
        kw["ellipsoid"] = body
    return kw


def given(rng, arr, shape="ok"):
    """(N, 3) points as given, and whether a single one."""
    one = len(arr) == 1 and rng.random() < 0.5
    x = np.array(arr, dtype=float)
    if shape == "cols":
        x = np.concatenate([x, x], axis=1)
    if one and shape == "ok":
        x = x[0]
    if rng.random() < 0.2:
        return x.tolist(), one
    if x.ndim == 2 and rng.random() < 0.3:
        x = np.asfortranarray(x)
    return x, one


def sc_frames(rng, rec):
    for _ in range(int(rng.integers(5, 10))):
        body = str(rng.choice(BODIES))
        la, lo, alt = place(rng, body)
        op = str(rng.choice(["ToEnu", "ToEnu", "FromEnu", "Rotate", "Xyz", "Lla", "Surface"]))
        if op in ("ToEnu", "FromEnu"):
            pts = points(rng, int(rng.integers(1, 6)), 200 if body == "earth" else 100)
            shape = "cols" if rng.random() < 0.04 else "ok"
            far = op == "ToEnu" and shape == "ok" and rng.random() < 0.06
            loc = location(body, la, lo, alt)
            cen = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
            kw = {"center_loc": loc} if rng.random() < 0.4 else {"latitude": ang(la), "longitude": ang(lo), "altitude": float(alt), **frame_kw(rng, body)}
            if op == "ToEnu":
                xyz = cen + np.array(pts, dtype=float)
                if far:
                    k = int(rng.integers(0, len(pts)))
                    xyz[k] = xyz[k] * float(rng.choice([0.9, 1.1]))
                x, one = given(rng, xyz, shape)
                out, res = call(utils.ENU_from_ECEF, x, **kw)
            else:
                x, one = given(rng, pts, shape)
                out, res = call(utils.ECEF_from_ENU, x, **kw)
                if out == "ok":
                    res = np.asarray(res) - cen
            a = {"body": body, "lat": list(la), "lon": list(lo), "alt": alt, "pts": pts, "far": bool(far), "shape": shape, "kw": sorted(kw)}
            r = [ints(v, 1000) for v in ([res] if one else res)] if out == "ok" else []
        elif op == "Rotate":
            pts = points(rng, int(rng.integers(1, 6)))
            back = bool(rng.random() < 0.5)
            fn = utils.ECEF_from_rotECEF if back else utils.rotECEF_from_ECEF
            out, res = call(fn, np.array(pts, dtype=float), ang(lo))
            a = {"lon": list(lo), "pts": pts, "back": back}
            r = [ints(v, 1000) for v in res] if out == "ok" else []
        elif op == "Surface":
            n = int(rng.integers(1, 4))
            mid, lims = (6370, (6350, 6390)) if body == "earth" else (1737, (1717, 1757))
            radii = [int(mid + rng.integers(-15, 16)) for _ in range(n)]
            if rng.random() < 0.5:
                radii[int(rng.integers(0, n))] = int(rng.choice([lims[0] - 3, lims[1] + 3, 1, 90000, 2 * mid]))
            loc = location(body, la, lo, alt)
            cen = np.array([loc.x.to_value("m"), loc.y.to_value("m"), loc.z.to_value("m")])
            pos = []
            for k in radii:
                v = rng.permutation([0.48, 0.6, 0.64]) * rng.choice([-1, 1], 3)
                pos.append(v / np.linalg.norm(v) * k * 1e3)
            pos = np.array(pos)
            how = int(rng.integers(0, 3))
            kw = {}
            if how == 0:
                pos, kw["telescope_loc"] = pos - cen, loc
            else:
                kw["telescope_frame"] = "itrs" if body == "earth" else "mcmf"
                if how == 1:
                    pos, kw["telescope_loc"] = pos - cen, cen
                elif body == "earth" and rng.random() < 0.5:
                    del kw["telescope_frame"]
            rs, wn = bool(rng.random() < 0.4), bool(rng.random() < 0.6)
            if not rs or rng.random() < 0.5:
                kw["raise_error"] = rs
            if not wn or rng.random() < 0.5:
                kw["raise_warning"] = wn
            warned = []

            def surf():
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    r = check_surface_based_positions(antenna_positions=pos, **kw)
                    warned.extend(w)
                return r

            out, res = call(surf)
            a = {"body": body, "radii": radii, "raise": rs, "warn": wn}
            r = {"good": bool(res) if out == "ok" else False, "warned": len(warned) > 0}
        else:
            n = int(rng.integers(1, 5))
            pl = [place(rng, body) for _ in range(n)]
            la_, lo_, al_ = [[ang(p[0]) for p in pl], [ang(p[1]) for p in pl], [float(p[2]) for p in pl]]
            one = n == 1 and rng.random() < 0.6
            bad = bool(op == "Xyz" and n > 1 and rng.random() < 0.06)
            args = [la_[0], lo_[0], al_[0]] if one else [np.array(la_), lo_, np.array(al_)]
            if bad:
                k = int(rng.integers(0, 3))
                args[k] = args[k][:-1]
            kw = frame_kw(rng, body)
            a = {"body": body, "places": [{"lat": list(p[0]), "lon": list(p[1]), "alt": p[2]} for p in pl], "bad": bad, "far": False, "check": True}
            out, res = call(utils.XYZ_from_LatLonAlt, *args, **kw)
            r = [ints(v, 100) for v in (np.atleast_2d(res))] if out == "ok" else []
            if op == "Lla":
                if out != "ok":
                    rec.ev("Malformed", err=res)
                    return
                xyz = np.array(np.atleast_2d(res))
                a["far"] = bool(rng.random() < 0.08)
                if a["far"]:
                    xyz[int(rng.integers(0, n))] *= float(rng.choice([0.9, 1.1]))
                x = xyz[0] if n == 1 and rng.random() < 0.5 else xyz
                a["check"] = bool(rng.random() < 0.7)
                if not a["check"] or rng.random() < 0.3:
                    kw["check_acceptability"] = a["check"]
                out, res = call(utils.LatLonAlt_from_XYZ, x if rng.random() < 0.8 else x.tolist(), **kw)
                r = []
                if out == "ok":
                    r = [{"lat": direc(p, LATS), "lon": direc(q, LONS), "alt": ints([h], 1000)[0]} for p, q, h in zip(*[np.atleast_1d(v) for v in res])]
        rec.ev(op, args=a, out=out, res=r, **({"err": res} if out == "error" else {}))


# ------------------------------------------------------------------ telescopes
def loctok(loc):
    if loc is None:
        return "none"
    if isinstance(loc, EarthLocation):
        return "earth " + " ".join(f"{q.to_value('m'):.2f}" for q in (loc.x, loc.y, loc.z)).replace("-0.00", "0.00")
    return f"{loc.ellipsoid} " + " ".join(f"{q.to_value('m'):.2f}" for q in (loc.x, loc.y, loc.z)).replace("-0.00", "0.00")


def seq(v):
    return [] if v is None else list(np.atleast_1d(v))


def ptel(t):
    return {"name": t.name or "none", "loc": loctok(t.location), "nums": [int(x) for x in seq(t.antenna_numbers)],
            "names": [str(x) for x in seq(t.antenna_names)],
            "pos": [] if t.antenna_positions is None else [ints(p, 1000) for p in t.antenna_positions],
            "diam": [ints([x], 1000)[0] for x in seq(t.antenna_diameters)], "xo": t.x_orientation or "none", "inst": t.instrument or "none",
            "nants": 0 if t.Nants is None else int(t.Nants)}


def anyloc(rng):
    body = str(rng.choice(BODIES))
    la, lo, alt = place(rng, body)
    return body, la, lo, alt, location(body, la, lo, alt)


def some_ants(rng, n):
    nums = [int(x) for x in rng.permutation(40)[:n]]
    if rng.random() < 0.1:
        nums[0] = int(rng.choice([5000, 2**20, 2**31 - 10]))
    k = int(rng.integers(0, 3))
    names = [f"{i:03d}" for i in nums] if k == 0 else [str(i) for i in rng.permutation(nums)] if k == 1 else [f"ant{int(x)}" for x in rng.permutation(40)[:n]]
    return nums, names


def asint(names):
    try:
        return [int(s) for s in names]
    except ValueError:
        return []


def sc_new(rng, rec):
    for _ in range(int(rng.integers(2, 5))):
        n = int(rng.integers(1, 7))
        body, la, lo, alt, loc = anyloc(rng)
        nums, names = some_ants(rng, n)
        if rng.random() < 0.05 and n > 1:
            names[1] = names[0]
        if rng.random() < 0.05 and n > 1:
            nums[1] = nums[0]
        pts = points(rng, n)
        keys = str(rng.choice(["", "", "int", "str"]))
        kw, a = {}, {"name": str(rng.choice(["tel", "HERA", "My Array"])), "loc": loctok(loc), "names": [], "nums": [], "keys": keys,
                     "posbad": False, "locbad": False, "xobad": False, "diam": [], "xo": "none", "inst": "none"}
        given_names, given_nums = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
        posv = np.array(pts, dtype=float)
        if keys == "int":
            nums = list(dict.fromkeys(nums))
            posv, given_nums = {k: np.array(v, dtype=float) for k, v in zip(nums, pts)}, True
            names, pts = names[:len(nums)], pts[:len(nums)]
        elif keys == "str":
            names = list(dict.fromkeys(names))
            posv, given_names = {k: np.array(v, dtype=float) for k, v in zip(names, pts)}, True
            nums, pts = nums[:len(names)], pts[:len(names)]
        else:
            if rng.random() < 0.04:
                k = int(rng.integers(0, 3))
                a["posbad"] = True
                posv = posv[:, :2] if k == 0 else posv.tolist() if k == 1 else posv.T if n != 3 else posv[:, :2]
            elif rng.random() < 0.04:
                posv = np.concatenate([posv, posv[:1]])
                pts = pts + pts[:1]
        if given_names:
            a["names"] = list(names)
            if keys != "str":
                if rng.random() < 0.04 and n > 1 and given_nums:
                    a["names"] = names[:-1]
                kw["antenna_names"] = list(a["names"]) if rng.random() < 0.5 else np.array(a["names"])
        if given_nums:
            a["nums"] = list(nums)
            if keys != "int":
                kw["antenna_numbers"] = list(nums) if rng.random() < 0.5 else np.array(nums)
        fmt = "{0:03d}"
        if rng.random() < 0.3:
            fmt = str(rng.choice(["ant{0}", "{0}", "a{0:05d}"]))
            kw["antname_format"] = fmt
        a["pos"] = [[1000 * c for c in p] for p in pts]
        a["asint"], a["asname"] = asint(a["names"]), [fmt.format(i) for i in a["nums"]]
        if rng.random() < 0.4:
            d = [float(x) / 4 for x in rng.integers(4, 100, len(pts))]
            if rng.random() < 0.08:
                d = d + [3.0]
            a["diam"] = [int(round(x * 1000)) for x in d]
            kw["antenna_diameters"] = d if rng.random() < 0.5 else np.array(d)
        if rng.random() < 0.5:
            a["xo"] = str(rng.choice(["east", "north"]))
            kw["x_orientation"] = str(rng.choice({"east": ["east", "e", "ew", "EAST"], "north": ["north", "n", "ns", "N"]}[a["xo"]]))
            if rng.random() < 0.04:
                a["xobad"], kw["x_orientation"] = True, "up"
        if rng.random() < 0.4:
            a["inst"] = kw["instrument"] = str(rng.choice(["corr", "x"]))
        if rng.random() < 0.03:
            a["locbad"], loc = True, tuple(float(x) for x in (1, 2, 3))
        before = repr((kw, posv))
        out, res = call(Telescope.new, a["name"], loc, posv, **kw)
        rec.ev("NewTelescope", args=a, out=out, res=ptel(res) if out == "ok" else {}, keep=repr((kw, posv)) == before, **({"err": res} if out == "error" else {}))
        if out != "ok":
            continue
        t = res
        if rng.random() < 0.6:
            pre = ptel(t)
            o2, r2 = call(t.get_enu_antpos)
            rec.ev("AntsEnu", pre=pre, args={"lat": list(la), "lon": list(lo), "pts": pts}, out=o2, res=[ints(v, 1000) for v in r2] if o2 == "ok" else [],
                   keep=ptel(t) == pre, **({"err": r2} if o2 == "error" else {}))
        if rng.random() < 0.6:
            header(rng, rec, t)


def header(rng, rec, t):
    path = os.path.join(rec.scratch, f"t{len(rec.events)}.h5")
    pre = ptel(t)
    keys = ["telescope_name", "antenna_names", "antenna_numbers", "antenna_positions", "Nants_telescope", "instrument", "x_orientation", "antenna_diameters"]
    req = []
    kw = {}
    if rng.random() < 0.3:
        req = [str(x) for x in rng.choice(keys, int(rng.integers(0, 4)), replace=False)]
        kw["required_keys"] = list(req)
    else:
        req = ["telescope_name", "latitude", "longitude", "altitude"]
    chk = bool(rng.random() < 0.6)
    if not chk:
        kw["run_check"] = False

    def go():
        with h5py.File(path, "w") as f:
            t.write_hdf5_header(f.create_group("Header"))
            f.create_group("Data")
    o, r = call(go)
    if o != "ok":
        rec.ev("Header", pre=pre, args={"dropped": [], "required": req, "check": chk}, out=o, err=r, res={}, equal=False)
        return
    dropped = []
    if rng.random() < 0.4:
        with h5py.File(path, "a") as f:
            dropped = [str(x) for x in rng.choice(keys, int(rng.integers(1, 4)), replace=False)]
            for k in dropped:
                if k in f["Header"]:
                    del f["Header"][k]
    # what was never there is missing as much
    absent = [k for k, v in (("instrument", t.instrument), ("x_orientation", t.x_orientation), ("antenna_diameters", t.antenna_diameters)) if v is None and k not in dropped]
    how = int(rng.integers(0, 3))
    if how == 0:
        out, res = call(Telescope.from_hdf5, path, **kw)
    elif how == 1:
        with h5py.File(path, "r") as f:
            out, res = call(Telescope.from_hdf5, f, **kw)
    else:
        out, res = call(Telescope.from_hdf5, utils.io.hdf5.HDF5Meta(path), **kw)
    rec.ev("Header", pre=pre, args={"dropped": dropped + [k for k in absent if k in req], "required": req, "check": chk, "how": how}, out=out,
           res=ptel(res) if out == "ok" else {}, equal=bool(out == "ok" and not dropped and res == t and t == res), **({"err": res} if out == "error" else {}))


def read_csv(path):
    with open(path) as f:
        rows = list(csv.reader(f))[1:]
    return [{"num": int(r[1]), "name": r[0].strip(), "pos": ints([float(x) for x in r[2:5]], 1000)} for r in rows if r]


def real_known(name):
    """What the package knows about a real telescope (the table of antennas read here)."""
    low = {k.lower(): v for k, v in telmod._KNOWN_TELESCOPES.items()}
    d = low.get(name.lower())
    k = {"has": d is not None, "loc": "none", "file": False, "rows": [], "diam": [], "xo": "none"}
    if d is not None:
        k["loc"] = loctok(d.get("location"))
        if "antenna_positions_file" in d:
            k["file"], k["rows"] = True, read_csv(os.path.join(DATA_PATH, d["antenna_positions_file"]))
        k["diam"] = [ints([x], 1000)[0] for x in np.atleast_1d(d.get("antenna_diameters", []))]
        k["xo"] = d.get("x_orientation", "none")
    return k


def sc_known(rng, rec):
    sites = {s: EarthLocation.of_site(s) for s in EarthLocation.get_site_names() if s}
    for _ in range(int(rng.integers(2, 5))):
        real = rng.random() < 0.12
        if real:
            name = str(rng.choice(["HERA", "hera", "PAPER", "SMA", "MWA", "nowhere"]))
            known, kw, rows = real_known(name), {}, None
            rows = known["rows"]
        else:
            name = str(rng.choice(["Arr", "arr", "ARR", "greenwich", "other"]))
            d, known = {}, {"has": name != "other", "loc": "none", "file": False, "rows": [], "diam": [], "xo": "none"}
            n = int(rng.integers(1, 8))
            nums, names = some_ants(rng, n)
            rows = [{"num": nums[k], "name": names[k], "pos": [int(250 * x) for x in rng.integers(-4000, 4000, 3)]} for k in range(n)]
            d["citation"] = "here"
            if rng.random() < 0.92:
                loc = anyloc(rng)[4]
                d["location"] = loc
            if rng.random() < 0.85:
                path = os.path.join(rec.scratch, f"ants{len(rec.events)}.csv")
                with open(path, "w") as f:
                    f.write("name,number,x,y,z\n")
                    for r in rows:
                        f.write(f"{r['name']},{r['num']},{r['pos'][0] / 1e3},{r['pos'][1] / 1e3},{r['pos'][2] / 1e3}\n")
                d["antenna_positions_file"] = path
            if rng.random() < 0.5:
                k = int(rng.integers(0, 3))
                dv = [float(x) / 4 for x in rng.integers(4, 80, n if k else 1)]
                d["antenna_diameters"] = dv[0] if len(dv) == 1 and rng.random() < 0.5 else dv if rng.random() < 0.5 else np.array(dv)
            if rng.random() < 0.4:
                d["x_orientation"] = str(rng.choice(["east", "north"]))
            if known["has"]:
                known.update(loc=loctok(d.get("location")), file="antenna_positions_file" in d, diam=[ints([x], 1000)[0] for x in np.atleast_1d(d.get("antenna_diameters", []))],
                             xo=d.get("x_orientation", "none"))
                if known["file"]:
                    known["rows"] = rows
            kw = {"known_telescope_dict": {("greenwich" if name == "greenwich" else "aRr"): d}}
        site = loctok(sites[name]) if name in sites else "none"
        chk = bool(rng.random() < 0.4)
        if not chk or rng.random() < 0.3:
            kw["run_check"] = chk
        a = {"known": known, "site": site, "overwrite": False, "check": kw.get("run_check", True), "fresh": False, "name": name}
        if rng.random() < 0.25:
            a["fresh"] = True
            if known["diam"] and not known["file"]:
                continue  # diameters of how many antennas?
            pre = {"name": name, "loc": "none", "nums": [], "names": [], "pos": [], "diam": [], "xo": "none", "inst": "none", "nants": 0}
            out, res = call(Telescope.from_known_telescopes, name, **kw)
            rec.ev("Known", pre=pre, args=a, out=out, res=ptel(res) if out == "ok" else {}, **({"err": res} if out == "error" else {}))
            continue
        # a telescope some of whose antennas are (not) known by name or number
        t = Telescope()
        if rng.random() < 0.97:
            t.name = name
        m = int(rng.integers(1, 7))
        mine = [rows[int(k)] for k in rng.permutation(len(rows))[:m]] if rows else []
        nums, names, pos = [r["num"] for r in mine], [r["name"] for r in mine], [[x / 1e3 + 1 for x in r["pos"]] for r in mine]
        k = rng.random()
        for i in range(len(mine)):
            if k < 0.35 and rng.random() < 0.5:
                names[i] = f"my{i}"  # to be known by number
            elif 0.35 <= k < 0.6 and rng.random() < 0.5:
                nums[i] = 100 + i  # to be known by name
            elif 0.6 <= k < 0.68 and rng.random() < 0.4:
                nums[i], names[i] = 100 + i, f"my{i}"
        if 0.68 <= k < 0.8 and len(mine) > 1:
            nums[0], nums[1] = nums[1], nums[0]
        if mine and rng.random() < 0.85:
            t.Nants = len(mine)
            have = [bool(x) for x in rng.random(3) < 0.6]
            if have[0]:
                t.antenna_numbers = np.array(nums)
            if have[1]:
                t.antenna_names = np.array(names)
            if have[2]:
                t.antenna_positions = np.array(pos)
            if not any(have):
                t.Nants = None
        if rng.random() < 0.5:
            t.location = anyloc(rng)[4]
        if rng.random() < 0.3:
            t.x_orientation = str(rng.choice(["east", "north"]))
        if rng.random() < 0.3:
            t.instrument = "corr"
        if t.Nants is not None and rng.random() < 0.25:
            t.antenna_diameters = np.arange(t.Nants) + 2.5
        a["overwrite"] = bool(rng.random() < 0.3)
        if known["diam"] and t.Nants is None and not (known["file"] and known["has"]):
            continue
        if a["overwrite"] and t.antenna_diameters is not None and len(known["diam"]) != 1:
            t.antenna_diameters = None
        pre = ptel(t)
        if a["overwrite"] or rng.random() < 0.3:
            kw["overwrite"] = a["overwrite"]
        if rng.random() < 0.5:
            kw["warn"] = bool(rng.random() < 0.5)
        out, res = call(t.update_params_from_known_telescopes, **kw)
        rec.ev("Known", pre=pre, args=a, out=out, res=ptel(t), **({"err": res} if out == "error" else {}))


def run(chk):
    t = chk.scenarios("frames", sc_frames, chk.n(500, 8000))
    t += chk.scenarios("new", sc_new, chk.n(400, 6000))
    t += chk.scenarios("known", sc_known, chk.n(600, 10000))
    chk.validate("TraceTele", "TraceTele.cfg", t, min_ops={"ToEnu/ok": 400, "FromEnu/ok": 200, "Rotate/ok": 200, "Xyz/ok": 200, "Lla/ok": 200, "Surface/ok": 100,
                                                           "NewTelescope/ok": 500, "Header/ok": 200, "AntsEnu/ok": 200, "Known/ok": 500})
