"""C15 (select, combine), C16 (conversions, interpolation), C17 (beamfits files) of beam objects."""
import os

import numpy as np

from pyuvdata import UVBeam
from pyuvdata import utils as uvutils
from vf.beam import make_beam, projb
from vf.harness import call
from vf.num import fx


def pick(rng, arr, lo=1):
    n = len(arr)
    return [arr[i] for i in rng.choice(n, int(rng.integers(lo, n + 1)), replace=False)]


def as_form(rng, v):
    r = rng.random()
    return list(v) if r < 0.5 else (np.array(v) if r < 0.85 else tuple(v))


def gen_select(rng, u):
    a, kw = {"x": 0}, {}
    hp = u.pixel_coordinate_system == "healpix"
    opts = ["ax1", "ax2", "pix", "freqs", "chans", "feeds", "pols"]
    for o in rng.choice(opts, int(rng.choice([1, 2, 3])), replace=False):
        bad = rng.random() < 0.06
        if o in ("ax1", "ax2"):
            if hp and rng.random() > 0.06:
                continue
            n = (u.Naxes1 if o == "ax1" else u.Naxes2) or 3
            v = [int(x) for x in pick(rng, np.arange(n))] + ([int(rng.choice([n, -1]))] if bad else [])
            if rng.random() < 0.2:
                v = v + v[:1]
            a[o] = v
            kw["axis1_inds" if o == "ax1" else "axis2_inds"] = as_form(rng, v)
        elif o == "pix":
            if not hp and rng.random() > 0.06:
                continue
            v = [int(x) for x in pick(rng, u.pixel_array if hp else np.arange(3))] + ([999] if bad else [])
            a[o] = v
            kw["pixels"] = as_form(rng, v)
        elif o == "freqs":
            v = pick(rng, u.freq_array) + ([1.23e8] if bad else [])
            a[o] = [fx(x) for x in v]
            kw["frequencies"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "chans":
            v = [int(x) for x in pick(rng, np.arange(u.Nfreqs))] + ([u.Nfreqs + 1] if bad else [])
            a[o] = v
            kw["freq_chans"] = v[0] if len(v) == 1 and rng.random() < 0.5 else as_form(rng, v)
        elif o == "feeds":
            if u.beam_type == "power" and rng.random() > 0.06:
                continue
            v = [str(x) for x in pick(rng, u.feed_array if u.beam_type == "efield" else np.array(["x"]))] + (["q"] if bad else [])
            if u.x_orientation is not None and rng.random() < 0.3:
                m = {"x": "e", "y": "n"} if u.x_orientation == "east" else {"x": "n", "y": "e"}
                v = [m.get(x, x) for x in v]
            a[o] = v
            v = [x.upper() if rng.random() < 0.2 else x for x in v]
            kw["feeds"] = v[0] if len(v) == 1 and rng.random() < 0.5 else v
        else:
            if u.beam_type == "efield" and rng.random() > 0.06:
                continue
            src = u.polarization_array if u.beam_type == "power" else np.array([-5])
            v = [int(x) for x in pick(rng, src)] + ([[-1, -5][int(src[0] > -5)]] if bad and int(src[0]) < 0 else [])
            a[o] = [str(x) for x in v]
            if rng.random() < 0.4:
                v = [str(uvutils.polnum2str(x, x_orientation=u.x_orientation if rng.random() < 0.5 else None)) for x in v]
            kw["polarizations"] = v[0] if len(v) == 1 and not isinstance(v[0], str) and rng.random() < 0.5 else v
    return a, kw


def ev(rec, op, out, val, **k):
    if out == "error":
        k["err"] = val
    return rec.ev(op, out=out, **k)


def do_select(rng, rec, u, o, r):
    a, kw = gen_select(rng, u)
    if o == r:
        out, res = call(u.select, **kw)
        n = u
    else:
        out, res = call(u.select, inplace=False, **kw)
        n = res if out == "ok" else u
    post = {r: projb(n)} if o == r else {o: projb(u), r: projb(n) if out == "ok" else projb(u)}
    ev(rec, "Select", out, res, o=o, r=r, args=a, post=post)
    return n if out == "ok" else None


def bad(rng, rec, u):
    hp = u.pixel_coordinate_system == "healpix"
    s = [{"frequencies": [1.0]}, {"frequencies": [u.freq_array[0], 1.0]}, {"freq_chans": [u.Nfreqs]}]
    s += [{"axis1_inds": [0]}, {"axis2_inds": [0]}, {"pixels": [int(max(u.pixel_array)) + 1]}] if hp else [{"pixels": [0]}, {"axis1_inds": [u.Naxes1]}, {"axis2_inds": [u.Naxes2]}, {"axis1_inds": [-1]}][:3]
    s += [{"feeds": ["x"]}, {"polarizations": [17]}, {"polarizations": ["nosuch"]}] if u.beam_type == "power" else [{"polarizations": [-5]}, {"feeds": ["q"]}]
    kw = dict(s[int(rng.integers(0, len(s)))], inplace=bool(rng.random() < 0.6))
    out, res = call(u.select, **kw)
    ev(rec, "Refused", out, res, o="a", args={"kw": str(kw)}, post={"a": projb(u)})


def sel_scenario(rng, rec):
    u = make_beam(rng)
    rec.ev("Make", o="a", post={"a": projb(u)})
    for k in range(3):
        if rng.random() < 0.15:
            bad(rng, rec, u)
        r = do_select(rng, rec, u, "a", "b")
        if r is not None and rng.random() < 0.5:
            rr = do_select(rng, rec, r, "b", "b")
            if rr is None:
                return


def parts_of(rng, u):
    """Split a beam into disjoint parts that may leave holes."""
    hp = u.pixel_coordinate_system == "healpix"
    opts = ["freq", "pol"] + (["pix"] if hp else ["ax1", "ax2"])
    kws = [{}, {}]
    ax = list(rng.choice(opts, int(rng.choice([1, 1, 2, 3])), replace=False))
    split = False
    for o in ax:
        arr = {"freq": u.freq_array, "pol": u.polarization_array if u.beam_type == "power" else u.feed_array,
               "pix": u.pixel_array, "ax1": np.arange(u.Naxes1 or 0), "ax2": np.arange(u.Naxes2 or 0)}[o]
        if len(arr) < 2:
            continue
        m = rng.random(len(arr)) < 0.5
        m[int(rng.integers(len(arr)))] ^= (m.all() or not m.any())
        key = {"freq": "frequencies", "pol": "polarizations" if u.beam_type == "power" else "feeds", "pix": "pixels", "ax1": "axis1_inds", "ax2": "axis2_inds"}[o]
        lo, hi = list(arr[m]), list(arr[~m])
        if rng.random() < 0.2 and split:
            lo = list(arr)
        kws[0][key], kws[1][key] = lo, hi
        split = True
    return kws if split else None


def add_scenario(rng, rec):
    u = make_beam(rng)
    kws = parts_of(rng, u)
    if kws is None:
        kws = [{}, {}]
    a, b = (u.select(inplace=False, **k) for k in kws)
    if rng.random() < 0.5:
        permute(rng, b)
    if rng.random() < 0.3:
        permute(rng, a)
    if rng.random() < 0.25:
        for k in ("receiver_temperature_array", "loss_array", "mismatch_array", "s_parameters"):
            if rng.random() < 0.5:
                setattr(b if rng.random() < 0.5 else a, k, None)
    if rng.random() < 0.1:
        b.feed_name = "other"
    if rng.random() < 0.05:
        b.data_normalization = "solid_angle"
    rec.ev("Make", o="a", post={"a": projb(a)})
    rec.ev("Make", o="b", post={"b": projb(b)})
    if rng.random() < 0.6:
        out, res = call(a.__add__, b)
        n = res if out == "ok" else a
        ev(rec, "Add", out, res, o="a", o2="b", r="c", args={"x": 0}, post={"a": projb(a), "b": projb(b), "c": projb(n)})
    else:
        out, res = call(a.__iadd__, b)
        ev(rec, "Add", out, res, o="a", o2="b", r="a", args={"x": 0}, post={"a": projb(a), "b": projb(b)})
    if out == "ok" and rng.random() < 0.3:
        m = res if out == "ok" and res is not None else a
        # adding a part again overlaps
        out, res = call(m.__add__, b)
        r = "c" if m is not a else "a"
        ev(rec, "Add", out, res, o=r, o2="b", r="d", args={"x": 0}, post={r: projb(m), "b": projb(b), "d": projb(res if out == "ok" else m)})


def permute(rng, u):
    """The same beam with one axis in another order."""
    power = u.beam_type == "power"
    n = u.Npols if power else u.Nfeeds
    r = rng.random()
    if r < 0.4:
        p = rng.permutation(n)
        if power:
            u.polarization_array = u.polarization_array[p]
        else:
            u.feed_array = u.feed_array[p]
        u.data_array = u.data_array[:, p]
        if u.coupling_matrix is not None:
            u.coupling_matrix = u.coupling_matrix[:, :, p][:, :, :, p]
    elif r < 0.7:
        p = rng.permutation(u.Nfreqs)
        u.freq_array, u.bandpass_array = u.freq_array[p], u.bandpass_array[p]
        u.data_array = u.data_array[:, :, p]
        for k in ("receiver_temperature_array", "loss_array", "mismatch_array"):
            if getattr(u, k) is not None:
                setattr(u, k, getattr(u, k)[p])
        if u.s_parameters is not None:
            u.s_parameters = u.s_parameters[:, p]
        if u.coupling_matrix is not None:
            u.coupling_matrix = u.coupling_matrix[..., p]
    elif u.pixel_coordinate_system == "healpix":
        p = rng.permutation(u.Npixels)
        u.pixel_array = u.pixel_array[p]
        u.data_array = u.data_array[..., p]
        if u.basis_vector_array is not None:
            u.basis_vector_array = u.basis_vector_array[..., p]
    else:
        p = rng.permutation(u.Naxes1)
        u.axis1_array = u.axis1_array[p]
        u.data_array = u.data_array[..., p]
        if u.basis_vector_array is not None:
            u.basis_vector_array = u.basis_vector_array[..., p]


def conv_scenario(rng, rec):
    r = rng.random()
    if r < 0.5:
        u = make_beam(rng, kind="efield" if rng.random() < 0.9 else "power", small=True, phased=bool(rng.random() < 0.08))
        rec.ev("Make", o="a", post={"a": projb(u)})
        inpl = bool(rng.random() < 0.5)
        if rng.random() < 0.7:
            a = {"cross": bool(rng.random() < 0.6), "keep": bool(rng.random() < 0.25)}
            out, res = call(u.efield_to_power, calc_cross_pols=a["cross"], keep_basis_vector=a["keep"], inplace=inpl)
            op = "ToPower"
        else:
            a = {"x": 0}
            out, res = call(u.efield_to_pstokes, inplace=inpl)
            op = "ToStokes"
        n = (u if inpl else res) if out == "ok" else u
        sc = 100.0 if out == "ok" else 1.0
        if inpl:
            if not (out == "error" and op == "ToStokes"):
                ev(rec, op, out, res, o="a", r="a", args=a, post={"a": projb(n, sc=sc)})
        else:
            ev(rec, op, out, res, o="a", r="b", args=a, post={"a": projb(u), "b": projb(n, sc=sc)})
    elif r < 0.7:
        u = make_beam(rng, small=True, norm=str(rng.choice(["physical", "physical", "peak", "solid_angle"])))
        rec.ev("Make", o="a", post={"a": projb(u)})
        out, res = call(u.peak_normalize)
        ev(rec, "Peak", out, res, o="a", r="a", args={"x": 0}, post={"a": projb(u, sc=10000.0, bs=400.0) if out == "ok" else projb(u)})
    elif r < 0.85:
        ns = int(rng.choice([2, 4]))
        u = make_beam(rng, cs="az_za", const=True, wrap=True, n1=int(rng.choice([6, 8])), n2=int(rng.choice([5, 8])), bvs=False, shuffle=False)
        u.axis2_array = (np.pi / 2 / (u.Naxes2 - 1)) * np.arange(u.Naxes2)
        rec.ev("Make", o="a", post={"a": projb(u)})
        from astropy_healpix import HEALPix
        hp = HEALPix(nside=ns)
        lon, lat = hp.healpix_to_lonlat(np.arange(hp.npix))
        za = np.pi / 2 - lat.radian
        res_ = hp.pixel_resolution.to_value("rad")
        dph = np.abs(lon.radian[:, None] - u.axis1_array[None])
        dph = np.minimum(dph, 2 * np.pi - dph).min(axis=1)
        dist = np.hypot(np.abs(za[:, None] - u.axis2_array[None]).min(axis=1), dph) / res_
        al = [{"x": int(k), "in": bool(dist[k] < 1.9), "out": bool(dist[k] > 2.1)} for k in range(hp.npix)]
        inpl = bool(rng.random() < 0.5)
        out, res = call(u.to_healpix, nside=ns, inplace=inpl)
        n = (u if inpl else res) if out == "ok" else u
        if inpl:
            ev(rec, "ToHealpix", out, res, o="a", r="a", args={"nside": ns, "all": al}, post={"a": projb(n)})
        else:
            ev(rec, "ToHealpix", out, res, o="a", r="b", args={"nside": ns, "all": al}, post={"a": projb(u), "b": projb(n)})
    else:
        u = make_beam(rng, kind="power" if rng.random() < 0.9 else "efield", cs="healpix" if rng.random() < 0.9 else "az_za", norm=str(rng.choice(["peak", "peak", "physical"])), small=True)
        rec.ev("Make", o="a", post={"a": projb(u)})
        for sq in (False, True):
            p = str(int(rng.choice(u.polarization_array)) if u.beam_type == "power" else -5)
            if rng.random() < 0.1:
                p = "-2" if p != "-2" else "-5"
            arg = int(p) if rng.random() < 0.5 else str(uvutils.polnum2str(int(p)))
            out, res = call(u.get_beam_sq_area if sq else u.get_beam_area, pol=arg)
            k = 3.0 * (u.nside or 1) ** 2 / np.pi
            rs = {"vals": [[fx(np.real(x), k), fx(np.imag(x), k)] for x in np.atleast_1d(res)]} if out == "ok" else {"x": 0}
            ev(rec, "Area", out, res, o="a", args={"pol": p, "sq": sq}, res=rs, post={"a": projb(u)})


def coord(rng, order, n, frac, wrap=False):
    """<<lower, upper, quarter>> between neighbouring nodes; order = positions of the nodes by value."""
    k = int(rng.integers(0, n))
    q = int(rng.integers(0, 4)) if frac else 0
    if q and k == n - 1 and not wrap:
        k, q = (n - 2, q) if n > 1 else (k, 0)
    nxt = (k + 1) % n
    return [int(order[k]), int(order[nxt]) if q else int(order[k]), q]


def interp_scenario(rng, rec):
    cs = str(rng.choice(["az_za", "az_za", "healpix"]))
    wrap = bool(rng.random() < 0.5)
    kw = dict(cs=cs, bvs=False, wrap=wrap, shuffle=False, even=True)
    if cs == "healpix":
        ns = int(rng.choice([1, 2]))
        kw.update(nside=ns, pix=np.arange(12 * ns * ns))
    else:
        kw.update(n1=int(rng.integers(5, 7)), n2=int(rng.integers(4, 6)))
    u = make_beam(rng, **kw)
    if rng.random() < 0.5 and u.Nfreqs > 1:
        p = rng.permutation(u.Nfreqs)
        u = u.copy()
        u.freq_array, u.bandpass_array, u.data_array = u.freq_array[p], u.bandpass_array[p], u.data_array[:, :, p]
        if u.coupling_matrix is not None:
            u.coupling_matrix = u.coupling_matrix[..., p]
        for k in ("receiver_temperature_array", "loss_array", "mismatch_array"):
            if getattr(u, k) is not None:
                setattr(u, k, getattr(u, k)[p])
        if u.s_parameters is not None:
            u.s_parameters = u.s_parameters[:, p]
    if cs == "healpix" and rng.random() < 0.25:
        p = rng.permutation(u.Npixels) if rng.random() < 0.5 else np.arange(u.Npixels)[::-1]
        u.pixel_array, u.data_array = u.pixel_array[p].copy(), u.data_array[..., p].copy()
    rec.ev("Make", o="a", post={"a": projb(u)})
    for _ in range(3):
        if not one_interp(rng, rec, u, cs, wrap):
            return
        if rng.random() < 0.3:
            # change the object in place and interpolate again
            if rng.random() < 0.5 and (u.Npols or u.Nfeeds) > 1:
                if u.beam_type == "power":
                    v = [int(x) for x in pick(rng, u.polarization_array)]
                    a, k = {"pols": [str(x) for x in v]}, {"polarizations": v}
                else:
                    v = [str(x) for x in pick(rng, u.feed_array)]
                    a, k = {"feeds": v}, {"feeds": v}
            else:
                v = [int(x) for x in pick(rng, np.arange(u.Nfreqs))]
                a, k = {"chans": v}, {"freq_chans": v}
            out, res = call(u.select, **k)
            ev(rec, "Select", out, res, o="a", r="a", args=a, post={"a": projb(u)})
            if out != "ok":
                return


def one_interp(rng, rec, u, cs, wrap):
    fo = np.argsort(u.freq_array)
    a = {"bad": False}
    kw = {}
    ffrac = bool(rng.random() < 0.5) and u.Nfreqs > 1
    if rng.random() < 0.6:
        fcs = [coord(rng, fo, u.Nfreqs, ffrac) for _ in range(int(rng.integers(1, 4)))]
        f = np.array([u.freq_array[c[0]] * (4 - c[2]) / 4 + u.freq_array[c[1]] * c[2] / 4 for c in fcs])
        kw["freq_array"] = f
        if any(c[2] for c in fcs):
            if rng.random() < 0.7:
                kw["freq_interp_kind"] = "linear"
            else:
                kw["freq_interp_kind"] = "nearest"
                fcs = [c if c[2] != 2 else [c[0], c[0], 0] for c in fcs]
                f = np.array([u.freq_array[c[0]] * (4 - c[2]) / 4 + u.freq_array[c[1]] * c[2] / 4 for c in fcs])
                kw["freq_array"] = f
                fcs = [[c[0], c[0], 0] if c[2] < 2 else [c[1], c[1], 0] for c in fcs]
        elif rng.random() < 0.3:
            kw["freq_interp_kind"] = str(rng.choice(["linear", "nearest"]))
        if rng.random() < 0.05 and kw.get("freq_interp_kind") != "nearest":
            kw["freq_array"] = np.append(f, 3e8)
            fcs = fcs + [[0, 0, 0]]
            a["bad"] = True
    else:
        fcs = [[j, j, 0] for j in range(u.Nfreqs)]
    a["fcs"] = fcs
    a["newf"] = [fx(x) for x in kw.get("freq_array", u.freq_array)]
    if u.beam_type == "power" and rng.random() < 0.4:
        v = [int(x) for x in pick(rng, u.polarization_array)]
        if rng.random() < 0.05:
            v.append(-9 if False else (-5 if v[0] > -5 else -1))
        a["pols"] = [str(x) for x in v]
        kw["polarizations"] = [str(uvutils.polnum2str(x)) for x in v]
    new = bool(rng.random() < 0.4)
    if cs == "healpix":
        from astropy_healpix import HEALPix
        hp = HEALPix(nside=u.nside, order=u.ordering)
        if not np.array_equal(u.pixel_array, np.arange(u.Npixels)):
            a["bad"] = True
        if new:
            if rng.random() < 0.5 and u.ordering == "ring":
                idx = [int(x) for x in pick(rng, np.arange(u.Npixels))]
                kw.update(healpix_nside=u.nside, healpix_inds=np.array(idx))
            else:
                idx = list(range(u.Npixels))
            a["newcs"], a["newax"] = "healpix", {"pix": [{"x": int(u.pixel_array[k])} for k in idx]}
        else:
            idx = [int(x) for x in pick(rng, np.arange(u.Npixels))]
            lon, lat = hp.healpix_to_lonlat(np.array(idx))
            kw.update(az_array=lon.radian, za_array=np.pi / 2 - lat.radian)
        a["pts"] = [[k] for k in idx]
    else:
        frac = bool(rng.random() < 0.6)
        if frac:
            kw["spline_opts"] = {"kx": 1, "ky": 1}
        if new and rng.random() < 0.4:
            az, za = np.arange(u.Naxes1), np.arange(u.Naxes2)
            ac, zc = [[int(k), int(k), 0] for k in az], [[int(k), int(k), 0] for k in za]
            a["newax"] = {"ax1": [{"x": fx(x, 1e6)} for x in u.axis1_array], "ax2": [{"x": fx(x, 1e6)} for x in u.axis2_array]}
            kw.pop("spline_opts", None)
            a["pts"] = [[z, x] for z in zc for x in ac]
            if "pols" in a:
                kw.pop("polarizations")
                a.pop("pols")
        else:
            o1, o2 = np.arange(u.Naxes1), np.arange(u.Naxes2)
            st = u.axis1_array[1] - u.axis1_array[0]

            def val(c, arr):
                return arr[c[0]] + c[2] / 4 * (arr[1] - arr[0])
            if new or rng.random() < 0.3:
                ac = [coord(rng, o1, u.Naxes1, frac, wrap) for _ in range(int(rng.integers(2, 4)))]
                zc = [coord(rng, o2, u.Naxes2, frac) for _ in range(int(rng.integers(2, 4)))]
                kw.update(az_za_grid=True, az_array=np.array([val(c, u.axis1_array) for c in ac]), za_array=np.array([val(c, u.axis2_array) for c in zc]))
                a["pts"] = [[z, x] for z in zc for x in ac]
                a["newax"] = {"ax1": [{"x": fx(x, 1e6)} for x in kw["az_array"]], "ax2": [{"x": fx(x, 1e6)} for x in kw["za_array"]]}
            else:
                n = int(rng.integers(1, 5)) if rng.random() < 0.7 else 40
                pts = [[coord(rng, o2, u.Naxes2, frac), coord(rng, o1, u.Naxes1, frac, wrap)] for _ in range(n)]
                kw.update(az_array=np.array([val(p[1], u.axis1_array) for p in pts]), za_array=np.array([val(p[0], u.axis2_array) for p in pts]))
                a["pts"] = pts
                if rng.random() < 0.05:
                    kw["za_array"][0] = 9.0
                    a["bad"] = True
            del st
        a["newcs"] = "az_za"
        if rng.random() < 0.5 and not kw.get("spline_opts"):
            kw["reuse_spline"] = True
    before = projb(u)
    if new:
        out, res = call(u.interp, new_object=True, **kw)
        ev(rec, "InterpObj", out, res, o="a", r="n", args=a, post={"a": projb(u), "n": projb(res, sc=64.0, bs=16.0, cs=4.0) if out == "ok" else before})
    else:
        kw["return_bandpass"] = rb = bool(rng.random() < 0.4)
        rc = False
        if u.antenna_type == "phased_array" and rng.random() < 0.5:
            kw["return_coupling"] = rc = True
        out, res = call(u.interp, **kw)
        rs = {"x": 0}
        if out == "ok":
            d, b = res[0], res[1]
            rs = {"shape": list(d.shape), "vals": [[fx(x, 64), fx(y, 64)] for x, y in zip(np.real(d).ravel(), np.imag(d).ravel())]}
            if b is not None:
                ok = b.shape == (2, 2, d.shape[-1]) and np.allclose(b[0, 0], 1) and np.allclose(b[1, 1], 1) and np.allclose(b[0, 1], 0) and np.allclose(b[1, 0], 0)
                rs["bv"] = "unit" if ok else "other"
            else:
                rs["bv"] = "none"
            if rb:
                rs["bp"] = [fx(x, 16) for x in np.atleast_1d(res[2])]
            if rc:
                rs["cpl"] = [[fx(x.real, 4), fx(x.imag, 4)] for x in res[-1].ravel()]
        ev(rec, "Interp", out, res, o="a", args=a, res=rs, post={"a": projb(u)})
    return True


def io_scenario(rng, rec):
    path = os.path.join(rec.scratch, "b.fits")
    for nm in ("a", "v"):
        if nm == "v" and rng.random() < 0.6:
            break
        u = make_beam(rng, phased=bool(rng.random() < 0.05), tok0=1 if nm == "a" else 400, shuffle=bool(rng.random() < 0.2), even=bool(rng.random() < 0.7))
        if rng.random() < 0.2 and u.beam_type == "efield" and u.antenna_type == "simple":
            u.efield_to_power(keep_basis_vector=True)
            u.data_array = np.round(u.data_array).astype(u.data_array.dtype)
        if rng.random() < 0.3:
            u.extra_keywords.update({"VFSTR": "text", "VFFLT": 1.25, "VFBOOL": True})
        if rng.random() < 0.05:
            u.extra_keywords["VFLIST"] = [1, 2]
        rec.ev("Make", o=nm, post={nm: projb(u)})
        a = {"clobber": bool(rng.random() < 0.6)}
        out, res = call(u.write_beamfits, path, clobber=a["clobber"])
        ev(rec, "Write", out, res, o=nm, path="b", args=a, post={nm: projb(u)})
        if out == "ok" or nm == "a":
            w = u
    for k in range(3):
        a, kw = {"x": 0}, {}
        if k:
            if rng.random() < 0.6:
                lo, hi = np.sort(rng.choice(w.freq_array, 2))
                lo, hi = lo - rng.choice([0, 1e5]), hi + rng.choice([0, 1e5])
                a["fr"], kw["freq_range"] = [fx(lo), fx(hi)], (float(lo), float(hi))
            hp = w.pixel_coordinate_system == "healpix"
            for nm, key, arr in (("azr", "az_range", w.axis1_array), ("zar", "za_range", w.axis2_array)):
                if (hp and rng.random() > 0.05) or rng.random() < 0.4:
                    continue
                if hp:
                    a[nm], kw[key] = [0, 1000000], (0, 57)
                    continue
                lo, hi = np.sort(rng.choice(arr, 2))
                lo, hi = lo - 0.02, hi + 0.02
                a[nm], kw[key] = [fx(lo, 1e6), fx(hi, 1e6)], (float(np.rad2deg(lo)), float(np.rad2deg(hi)))
        n = UVBeam()
        f = n.read_beamfits if rng.random() < 0.5 else n.read
        out, res = call(f, path, **kw)
        ev(rec, "Read", out, res, path="b", r="r", args=a, post={"r": projb(n) if out == "ok" else rec.events[0]["post"]["a"]})


def many_scenario(rng, rec):
    """Reading several files is the combination of the files."""
    u = make_beam(rng, phased=False, shuffle=False, even=True, kind=str(rng.choice(["efield", "power"])))
    kws = parts_of(rng, u)
    if kws is None:
        return
    objs, paths = [], []
    for nm, k in zip("ab", kws):
        o = u.select(inplace=False, **k)
        rec.ev("Make", o=nm, post={nm: projb(o)})
        paths.append(os.path.join(rec.scratch, nm + ".fits"))
        out, res = call(o.write_beamfits, paths[-1])
        ev(rec, "Write", out, res, o=nm, path=nm, args={"clobber": False}, post={nm: projb(o)})
        if out != "ok":
            return
        objs.append(o)
    n = UVBeam()
    kw = {} if rng.random() < 0.5 else {"run_check": bool(rng.random() < 0.5), "check_extra": True}
    out, res = call(n.read_beamfits if rng.random() < 0.5 else n.read, paths, **kw)
    ev(rec, "Add", out, res, o="a", o2="b", r="c", args={"x": 0}, post={"a": projb(objs[0]), "b": projb(objs[1]), "c": projb(n if out == "ok" else objs[0])})


def run_C15(chk):
    tr = chk.scenarios("bsel", sel_scenario, chk.n(700, 5000)) + chk.scenarios("badd", add_scenario, chk.n(900, 6000))
    chk.validate("TraceBeam", "TraceBeam.cfg", tr, min_ops={"Select/ok": 300, "Select/error": 30, "Add/ok": 150, "Add/error": 30})


def run_C16(chk):
    tr = chk.scenarios("bconv", conv_scenario, chk.n(600, 4000)) + chk.scenarios("binterp", interp_scenario, chk.n(600, 4000))
    chk.validate("TraceBeam", "TraceBeam.cfg", tr, min_ops={"ToPower/ok": 50, "ToStokes/ok": 15, "Peak/ok": 20, "Interp/ok": 150, "InterpObj/ok": 80, "ToHealpix/ok": 20, "Area/ok": 20})


def run_C17(chk):
    tr = chk.scenarios("bio", io_scenario, chk.n(500, 4000)) + chk.scenarios("bmany", many_scenario, chk.n(200, 2000))
    chk.validate("TraceBeam", "TraceBeam.cfg", tr, min_ops={"Write/ok": 100, "Read/ok": 200, "Write/error": 20, "Add/ok": 40})
