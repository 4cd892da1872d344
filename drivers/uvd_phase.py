"""C05/C06: phasing and the phase center catalog."""
import numpy as np
from astropy import units
from astropy.coordinates import AltAz, Angle, SkyCoord
from astropy.time import Time

from vf.harness import call
from vf.num import fx, fxs
from vf.uvd import JD0, LOC, make_tel, make_uvd, proj

C = 299792458.0


def unproj_mask(u):
    return np.array([u.phase_center_catalog[int(c)]["cat_type"] == "unprojected" for c in u.phase_center_id_array])


def body(d):
    items = []
    for k in sorted(d):
        v = d[k]
        if v is None or k in ("cat_name", "info_source"):
            continue
        items.append(f"{k}={v}" if isinstance(v, str) else f"{k}=" + ",".join(f"{float(x):.9g}" for x in np.atleast_1d(v)))
    return ";".join(items)


def pproj(u):
    o = proj(u, dscale=1000.0)
    if u.data_array is None:
        o["ph"], o["fr"] = [], []
    else:
        d = np.asarray(u.data_array).astype(np.complex128)
        amp = np.abs(d).ravel()
        ph = (np.angle(d) / (2 * np.pi)).ravel()
        o["ph"] = [[fx(a, 1000.0), fx(p, 1e5)] for a, p in zip(amp, ph)]
        w = np.where(unproj_mask(u), 0.0, u.uvw_array[:, 2])
        turns = w[:, None] * u.freq_array[None, :] / C
        o["fr"] = [fx(x % 1.0, 1e5) for x in turns.ravel()]
    for e in o["cat"]:
        e["body"] = body(u.phase_center_catalog[e["id"]])
        e["rest"] = e["body"]
    bd = {e["id"]: e["body"] for e in o["cat"]}
    for b in o["axes"]["blt"]:
        b["pcr"] = bd.get(b["pcid"], "")
    o["nphase"] = int(u.Nphase)
    o["catorder"] = [int(c) for c in u.phase_center_catalog]
    return o


# ------------------------------------------------------------------ references
def hadec(altaz, lat):
    al, az = altaz.alt.rad, altaz.az.rad
    sd = np.sin(al) * np.sin(lat) + np.cos(al) * np.cos(az) * np.cos(lat)
    x = np.sin(al) * np.cos(lat) - np.cos(al) * np.cos(az) * np.sin(lat)
    y = -np.sin(az) * np.cos(al)
    return np.arctan2(y, x), np.arcsin(np.clip(sd, -1, 1))


def ref_app(times, lsts, frame, lon, lat, epoch, tel, pm=None):
    """Apparent RA/Dec and frame angle, straight from astropy's AltAz frame."""
    loc = tel.location
    kw = {}
    if frame in ("fk4", "fk5") and epoch is not None:
        kw["equinox"] = Time(epoch)
    ra, dec, pa = [], [], []
    for k, t in enumerate(times):
        tt = Time(t, format="jd", scale="utc")
        aa = AltAz(obstime=tt, location=loc)
        lo, la = np.broadcast_to(lon, len(times))[k], np.broadcast_to(lat, len(times))[k]
        if frame == "gcrs":
            c = SkyCoord(Angle(lo, "rad"), Angle(la, "rad"), frame="gcrs", obstime=tt)
        elif pm is not None:
            c = SkyCoord(Angle(lo, "rad"), Angle(la, "rad"), frame=frame, pm_ra_cosdec=pm[0] * np.cos(la) * units.mas / units.yr,
                         pm_dec=pm[1] * units.mas / units.yr, obstime=Time(2000.0, format="jyear"), distance=1 * units.Mpc)
            c = c.apply_space_motion(new_obstime=tt)
            c = SkyCoord(c.ra, c.dec, frame=frame)
        else:
            c = SkyCoord(Angle(lo, "rad"), Angle(la, "rad"), frame=frame, **kw)
        h, d = hadec(c.transform_to(aa), loc.lat.rad)
        # the angle between the apparent and the frame's north, over a one degree arc
        off = np.deg2rad(0.5)
        hh, dd = np.array([h, h]), np.array([d - off, d + off])
        if dd[1] > np.pi / 2:
            hh[1], dd[1] = hh[1] + np.pi, np.pi - dd[1]
        if dd[0] < -np.pi / 2:
            hh[0], dd[0] = hh[0] + np.pi, -np.pi - dd[0]
        sl, cl = np.sin(loc.lat.rad), np.cos(loc.lat.rad)
        alt = np.arcsin(np.sin(dd) * sl + np.cos(dd) * cl * np.cos(hh))
        az = np.arctan2(-np.cos(dd) * np.sin(hh), np.sin(dd) * cl - np.cos(dd) * sl * np.cos(hh))
        b = SkyCoord(alt=Angle(alt, "rad"), az=Angle(az, "rad"), frame=aa).transform_to(c.frame.replicate_without_data())
        r0, r1, d0, d1 = b.ra.rad[0], b.ra.rad[1], b.dec.rad[0], b.dec.rad[1]
        pa.append(-np.arctan2(np.sin(r1 - r0) * np.cos(d1), np.cos(d0) * np.sin(d1) - np.sin(d0) * np.cos(d1) * np.cos(r1 - r0)))
        ra.append((lsts[k] - h) % (2 * np.pi))
        dec.append(d)
    return np.array(ra), np.array(dec), np.array(pa)


def rotmat(ra, dec, pa, lst, lon):
    """ECEF (rotated to the meridian) -> uvw, one matrix per row."""
    H = lst - ra
    sh, ch, sd, cd = np.sin(H), np.cos(H), np.sin(dec), np.cos(dec)
    z = np.zeros_like(H)
    u = np.stack([sh, ch, z], -1)
    v = np.stack([-sd * ch, sd * sh, cd], -1)
    w = np.stack([cd * ch, -cd * sh, sd], -1)
    cp, sp = np.cos(pa)[:, None], np.sin(pa)[:, None]
    m = np.stack([cp * u - sp * v, cp * v + sp * u, w], 1)
    cl, sl = np.cos(lon), np.sin(lon)
    r = np.array([[cl, sl, 0], [-sl, cl, 0], [0, 0, 1.0]])
    return m @ r


def ref_uvw(u, antpos=None, ra=None, dec=None, pa=None):
    antpos = u.telescope.antenna_positions if antpos is None else antpos
    ix = {int(a): k for k, a in enumerate(u.telescope.antenna_numbers)}
    b = np.array([antpos[ix[int(y)]] - antpos[ix[int(x)]] for x, y in zip(u.ant_1_array, u.ant_2_array)])
    m = rotmat(u.phase_center_app_ra if ra is None else ra, u.phase_center_app_dec if dec is None else dec,
               u.phase_center_frame_pa if pa is None else pa, u.lst_array, u.telescope.location.lon.rad)
    return np.einsum("nij,nj->ni", m, b)


def mm(a):
    return [fxs(r, 1000) for r in a]


# ------------------------------------------------------------------ steps
def gen_mask(rng, u):
    if rng.random() < 0.45:
        return None, list(range(1, u.Nblts + 1)), False
    if rng.random() < 0.07:
        return np.ones(u.Nblts + 1, bool), [], True
    r = rng.random()
    if r < 0.2:
        m = u.time_array == rng.choice(u.time_array)
    elif r < 0.4:
        m = u.phase_center_id_array == rng.choice(u.phase_center_id_array)
    else:
        m = rng.random(u.Nblts) < 0.5
    m[int(rng.integers(0, u.Nblts))] = True
    return m, [int(x) + 1 for x in np.nonzero(m)[0]], False


def phase_step(rng, rec, u):
    pre = u.copy()
    mask, sel, fail = gen_mask(rng, u)
    kind = str(rng.choice(["icrs", "icrs", "fk5", "gcrs", "fk4", "galactic", "driftscan", "ephem", "pm", "totime", "same", "lookup"]))
    if kind == "galactic":
        kind = "icrs"
    name = str(rng.choice(["s1", "s2", "s3"]))
    lon = float(np.round(rng.uniform(0, 6.2), 3))
    lat = float(np.round(rng.uniform(-1.35, 1.35), 3)) if rng.random() < 0.9 else float(rng.choice([-1.57, 1.568]))
    kw = dict(cat_name=name, use_ant_pos=bool(rng.random() < 0.6), cleanup_old_sources=bool(rng.random() < 0.8))
    if mask is not None:
        kw["select_mask"] = mask
    ent = dict(cat_type="sidereal", cat_frame="icrs", cat_epoch=2000.0, cat_lon=lon, cat_lat=lat)
    pm = None
    frame, epoch = "icrs", "J2000"
    fn = u.phase
    ptol = 20
    looked = None
    if kind == "lookup":
        cands = [(i, d) for i, d in u.phase_center_catalog.items()
                 if d["cat_type"] in ("sidereal", "driftscan") and sum(x["cat_name"] == d["cat_name"] for x in u.phase_center_catalog.values()) == 1
                 and d.get("cat_pm_ra") is None]
        if not cands:
            kind = "icrs"
        else:
            looked = cands[int(rng.integers(0, len(cands)))][1]
            name = looked["cat_name"]
            kw.update(cat_name=name, lookup_name=True, lon=0.1, lat=0.1)
            ent = {k: v for k, v in looked.items() if k not in ("cat_name", "info_source") and v is not None}
            frame, lon, lat = ent["cat_frame"], ent["cat_lon"], ent["cat_lat"]
            ep = ent.get("cat_epoch")
            epoch = None if ep is None else Time(ep, format="byear" if frame == "fk4" else "jyear")
            kind = "driftscan" if ent["cat_type"] == "driftscan" else "looked"
            ent.setdefault("cat_epoch", 1950.0 if frame == "fk4" else 2000.0)
    if kind == "totime":
        t = float(rng.choice(u.time_array)) + float(rng.choice([0, 0.01, 0.1]))
        aa = SkyCoord(alt=Angle(90, "deg"), az=Angle(0, "deg"), obstime=Time(t, format="jd"), frame="altaz", location=LOC)
        c = aa.transform_to("icrs")
        lon, lat = float(c.ra.rad), float(c.dec.rad)
        ent.update(cat_lon=lon, cat_lat=lat)
        name = "zenith_at_jd%f" % t
        kw.pop("cat_name")
        kw.pop("cleanup_old_sources")
        fn = lambda **k: u.phase_to_time(Time(t, format="jd") if rng.random() < 0.5 else t, **k)
    elif kind in ("fk5", "gcrs", "fk4"):
        frame = kind
        epoch = {"fk5": "J2010", "fk4": "B1950", "gcrs": "J2000"}[kind]
        ent.update(cat_frame=kind, cat_epoch={"fk5": 2010.0, "fk4": 1950.0, "gcrs": 2000.0}[kind])
        kw.update(lon=lon, lat=lat, phase_frame=kind, epoch=epoch if rng.random() < 0.5 else Time(epoch))
    elif kind == "driftscan" and looked is None:
        lat = float(np.round(rng.uniform(0.2, 1.5), 3))
        ent = dict(cat_type="driftscan", cat_frame="altaz", cat_epoch=2000.0, cat_lon=lon, cat_lat=lat)
        kw.update(lon=lon, lat=lat, phase_frame="altaz", cat_type="driftscan", epoch="J2000")
    elif kind == "ephem":
        et = np.array([JD0 - 0.01, JD0 + 0.2])
        elon = lon + np.array([0, 0.002])
        elat = lat + np.array([0, 0.001])
        ent = dict(cat_type="ephem", cat_frame="icrs", cat_epoch=2000.0, cat_lon=elon, cat_lat=elat, cat_times=et)
        kw.update(lon=elon, lat=elat, ephem_times=et, cat_type="ephem")
        f = (u.time_array - et[0]) / (et[1] - et[0])
        lon, lat = elon[0] + f * 0.002, elat[0] + f * 0.001
        if rng.random() < 0.15:
            kw["ephem_times"] = et + 3
            fail = True
    elif kind == "pm":
        pm = [1000.0, -500.0]
        ent.update(cat_pm_ra=pm[0], cat_pm_dec=pm[1])
        kw.update(lon=lon, lat=lat, pm_ra=pm[0], pm_dec=pm[1])
    elif looked is None:
        kw.update(lon=lon, lat=lat)
        if rng.random() < 0.2:
            kw["ra"], kw["dec"] = kw.pop("lon"), kw.pop("lat")
        if rng.random() < 0.05:
            kw.pop("lat", None)
            kw.pop("dec", None)
            fail = True
    # references, independently of the code
    if kind == "driftscan":
        la = LOC.lat.rad
        class A:  # noqa
            pass
        a = A()
        a.alt, a.az = Angle(lat, "rad"), Angle(lon, "rad")
        h, d = hadec(a, la)
        ra, dec, pa = (u.lst_array - h) % (2 * np.pi), np.full(u.Nblts, d), np.zeros(u.Nblts)
    else:
        ut = {}
        ra, dec, pa = np.zeros(u.Nblts), np.zeros(u.Nblts), np.zeros(u.Nblts)
        _, idx, inv = np.unique(u.time_array, return_index=True, return_inverse=True)
        lo = np.broadcast_to(lon, u.Nblts)[idx]
        la = np.broadcast_to(lat, u.Nblts)[idx]
        r1, d1, p1 = ref_app(u.time_array[idx], u.lst_array[idx], frame, lo, la, epoch, u.telescope, pm)
        ra, dec, pa = r1[inv], d1[inv], p1[inv]
    out, res = call(fn, **kw)
    # the reference uvws use the coordinates the object now reports (checked separately)
    if out == "ok":
        if kw["use_ant_pos"]:
            ruvw = ref_uvw(u)
        else:
            lonr = u.telescope.location.lon.rad
            m0 = rotmat(pre.phase_center_app_ra, pre.phase_center_app_dec, pre.phase_center_frame_pa, pre.lst_array, lonr)
            m1 = rotmat(u.phase_center_app_ra, u.phase_center_app_dec, u.phase_center_frame_pa, u.lst_array, lonr)
            ruvw = np.einsum("nij,nkj,nk->ni", m1, m0, pre.uvw_array)
    else:
        ruvw = np.zeros((u.Nblts, 3))
    rec.ev("Phase", o="a", out=out, err=str(res) if out == "error" else "",
           args={"kind": kind, "fail": fail, "sel": sel, "name": name, "rest": body(ent), "cleanup": kw.get("cleanup_old_sources", True),
                 "app": [[fx(ra[i], 1e6), fx(dec[i], 1e6), fx(pa[i], 1e6)] for i in range(u.Nblts)],
                 "atol": 12, "ptol": ptol, "uvw": mm(ruvw), "antpos": kw["use_ant_pos"]},
           post={"a": pproj(u)})


def unproject_step(rng, rec, u):
    pre = u.copy()
    mask, sel, fail = gen_mask(rng, u)
    kw = dict(use_ant_pos=bool(rng.random() < 0.6))
    name = "unprojected"
    if mask is not None:
        kw["select_mask"] = mask
    if rng.random() < 0.3:
        name = kw["cat_name"] = "zen"
    out, res = call(u.unproject_phase, **kw)
    lat = u.telescope.location.lat.rad
    z = np.zeros(u.Nblts)
    if kw["use_ant_pos"]:
        ruvw = ref_uvw(pre, ra=pre.lst_array, dec=z + lat, pa=z)
    else:
        lonr = u.telescope.location.lon.rad
        m0 = rotmat(pre.phase_center_app_ra, pre.phase_center_app_dec, pre.phase_center_frame_pa, pre.lst_array, lonr)
        m1 = rotmat(pre.lst_array, z + lat, z, pre.lst_array, lonr)
        ruvw = np.einsum("nij,nkj,nk->ni", m1, m0, pre.uvw_array)
    rec.ev("Unproject", o="a", out=out, err=str(res) if out == "error" else "",
           args={"fail": fail, "sel": sel, "name": name, "app": [[fx(x, 1e6), fx(lat, 1e6)] for x in u.lst_array],
                 "uvw": mm(ruvw), "antpos": kw["use_ant_pos"]}, post={"a": pproj(u)})


def uvw_step(rng, rec, u):
    pre = u.copy()
    vis = bool(rng.random() < 0.8)
    op = str(rng.choice(["set", "update", "delta"]))
    tel = u.telescope
    new = tel.antenna_positions.copy()
    if op == "set":
        out, res = call(u.set_uvws_from_antenna_positions, update_vis=vis)
    else:
        d = {}
        for k, a in enumerate(tel.antenna_numbers):
            if rng.random() < 0.6:
                new[k] = new[k] + np.round(rng.uniform(-2, 2, 3), 2)
                d[int(a)] = new[k]
        if rng.random() < 0.3:
            d[4321] = np.zeros(3)
        out, res = call(u.update_antenna_positions, new_positions=d, delta_antpos=op == "delta", update_vis=vis)
    if np.array_equal(new, pre.telescope.antenna_positions) and op != "set":
        ruvw = pre.uvw_array
    elif op == "delta":
        ruvw = pre.uvw_array + ref_uvw(pre, antpos=new - pre.telescope.antenna_positions)
    else:
        ruvw = ref_uvw(pre, antpos=new)
    rec.ev("Uvws", o="a", out=out, err=str(res) if out == "error" else "",
           args={"op": op, "vis": vis, "uvw": mm(ruvw), "pos": [fxs(x, 1000) for x in new]}, post={"a": pproj(u)})


def make(rng, rec):
    tel = make_tel(rng)
    if rng.random() < 0.12:
        u = make_uvd(rng, tel=tel, meta_only=True)
    else:
        u = make_uvd(rng, tel=tel, nfreqs=int(rng.integers(1, 4)), npols=int(rng.choice([1, 2])))
    if rng.random() < 0.25:
        # recorded uvws that do not come from the antenna positions
        u.uvw_array = u.uvw_array + np.round(rng.uniform(-0.5, 0.5, u.uvw_array.shape), 2)
    rec.ev("Make", o="a", post={"a": pproj(u)})
    return u


def scenario(rng, rec):
    u = make(rng, rec)
    for _ in range(int(rng.integers(3, 7))):
        r = rng.random()
        if r < 0.6:
            phase_step(rng, rec, u)
        elif r < 0.8:
            unproject_step(rng, rec, u)
        else:
            uvw_step(rng, rec, u)


# ------------------------------------------------------------------ catalog
def ident(rng, u, allow_name=True):
    ids = [int(c) for c in u.phase_center_catalog]
    r = rng.random()
    if r < 0.06:
        return {"k": "id", "id": 77, "name": ""}, 77
    if r < 0.1 and allow_name:
        return {"k": "name", "name": "nosuch", "id": -1}, "nosuch"
    c = ids[int(rng.integers(0, len(ids)))]
    if allow_name and rng.random() < 0.5:
        n = u.phase_center_catalog[c]["cat_name"]
        return {"k": "name", "name": n, "id": -1}, n
    return {"k": "id", "id": c, "name": ""}, c


def catalog_step(rng, rec, u):
    r = rng.random()
    if r < 0.25:
        if rng.random() < 0.4:
            its = [ident(rng, u, False) for _ in range(int(rng.integers(1, 3)))]
            arg = [x for _, x in its]
        else:
            its = [ident(rng, u)]
            arg = its[0][1]
        new = str(rng.choice(["n1", "n2", "s1"]))
        out, res = call(u.rename_phase_center, arg, new)
        rec.ev("Rename", o="a", out=out, err=str(res), args={"ids": [i for i, _ in its], "new": new}, post={"a": pproj(u)})
    elif r < 0.65:
        it, arg = ident(rng, u)
        kw = {}
        a = {"ids": [it], "newid": -1, "hasname": False, "new": "", "down": bool(rng.random() < 0.7)}
        kw["downselect"] = a["down"]
        if rng.random() < 0.5:
            a["hasname"], a["new"] = True, str(rng.choice(["n1", "n2", "s1"]))
            kw["new_name"] = a["new"]
        if rng.random() < 0.4:
            a["newid"] = kw["new_id"] = int(rng.choice([0, 3, 4, 8, 12]))
        k = rng.random()
        if k < 0.1:
            sel = np.arange(u.Nblts)
        elif k < 0.5:
            m = rng.random(u.Nblts) < 0.5
            kw["select_mask"] = m
            sel = np.nonzero(m)[0]
        elif k < 0.8:
            sel = np.nonzero(u.phase_center_id_array == rng.choice(u.phase_center_id_array))[0]
            sel = sel[: max(1, int(rng.integers(0, len(sel) + 1)))]
            kw["select_mask"] = sel
        else:
            sel = rng.choice(u.Nblts, int(rng.integers(1, u.Nblts + 1)), replace=False)
            kw["select_mask"] = sel
        a["sel"] = [int(x) + 1 for x in sel]
        out, res = call(u.split_phase_center, arg, **kw)
        rec.ev("Split", o="a", out=out, err=str(res), args=a, post={"a": pproj(u)})
    else:
        n = int(rng.integers(1, 4))
        its = [ident(rng, u) for _ in range(n)]
        a = {"ids": [i for i, _ in its], "force": bool(rng.random() < 0.35), "ign": bool(rng.random() < 0.5)}
        arg = [x for _, x in its]
        if n == 1 and rng.random() < 0.7:
            arg = arg[0]
        out, res = call(u.merge_phase_centers, arg, force_merge=a["force"], ignore_name=a["ign"])
        rec.ev("Merge", o="a", out=out, err=str(res), args=a, post={"a": pproj(u)})


def cat_scenario(rng, rec):
    u = make(rng, rec)
    for _ in range(int(rng.integers(4, 10))):
        r = rng.random()
        if r < 0.82:
            catalog_step(rng, rec, u)
        elif r < 0.93:
            unproject_step(rng, rec, u)
        else:
            phase_step(rng, rec, u)


def run_C05(chk):
    tr = chk.scenarios("phase", scenario, chk.n(320, 3000))
    chk.validate("TracePhase", "TracePhase.cfg", tr, min_ops={"Phase/ok": 400, "Phase/error": 10, "Unproject/ok": 100, "Uvws/ok": 100})


def run_C06(chk):
    tr = chk.scenarios("catalog", cat_scenario, chk.n(400, 4000))
    chk.validate("TracePhase", "TracePhase.cfg", tr, min_ops={
        "Split/ok": 200, "Split/error": 50, "Merge/ok": 100, "Merge/error": 50, "Rename/ok": 100})
