"""Making UVBeam objects and projecting them to the state of spec/BEAM.tla."""
import numpy as np

from pyuvdata import UVBeam

from .num import fx, fxs
from .uvd import pv

LIN, CIRC = [-5, -6, -7, -8], [-1, -2, -3, -4]


def make_beam(rng, kind=None, cs=None, nf=None, n1=None, n2=None, labels=None, nside=None, pix=None, phased=None, tok0=1,
              small=False, const=False, wrap=False, shuffle=None, opts=None, bvs=None, norm=None, nvec=None, even=False, keepbv=False, xo="any"):
    kind = kind or str(rng.choice(["efield", "power"]))
    cs = cs or str(rng.choice(["az_za", "az_za", "healpix", "orthoslant_zenith"]))
    shuffle = bool(rng.random() < 0.4) if shuffle is None else shuffle
    nf = nf or int(rng.integers(1, 4))
    f = 1e8 + 1e6 * np.arange(nf)
    if not even and nf > 2 and rng.random() < 0.3:
        f[-1] += 5e5
    if shuffle:
        f = rng.permutation(f)
    xo = (rng.choice(["east", "north", None]) if xo == "any" else xo)
    if labels is None:
        if kind == "efield":
            base = ["x", "y"] if rng.random() < 0.6 else (["r", "l"] if rng.random() < 0.6 or xo is None else ["e", "n"])
            labels = base[: int(rng.choice([1, 2, 2]))]
        else:
            r = rng.random()
            base = LIN if r < 0.5 else (CIRC if r < 0.8 else [1, 2, 3, 4])
            labels = base[: int(rng.choice([1, 2, 3, 4]))]
        if shuffle:
            labels = list(rng.permutation(labels))
    kw = {}
    if cs == "healpix":
        nside = nside or int(rng.choice([1, 2]))
        if pix is None:
            pix = np.sort(rng.choice(12 * nside**2, int(rng.integers(2, 7)), replace=False))
            if shuffle:
                pix = rng.permutation(pix)
        kw.update(nside=nside, healpix_pixel_array=np.asarray(pix), ordering=str(rng.choice(["ring", "nested"])))
        shp = (len(pix),)
    else:
        n1 = n1 or int(rng.integers(2, 5))
        n2 = n2 or int(rng.integers(2, 4))
        st = 2 * np.pi / n1 if wrap else 0.125
        a1, a2 = st * np.arange(n1), 0.0625 * np.arange(n2)
        if not even and not wrap and n1 > 2 and rng.random() < 0.2:
            a1[-1] += 0.0625
        if shuffle and rng.random() < 0.5:
            a1, a2 = a1[::-1].copy(), rng.permutation(a2)
        kw.update(axis1_array=a1, axis2_array=a2)
        shp = (n2, n1)
    vec = (nvec or 2) if kind == "efield" else 1
    shape = (vec, len(labels), nf) + shp
    n = int(np.prod(shape))
    if const:
        t = np.broadcast_to(np.arange(tok0, tok0 + vec * len(labels) * nf).reshape(shape[:3] + (1,) * len(shp)), shape).copy()
        d = t + 1j * (t + 3)
    elif small:
        d = rng.integers(-6, 7, shape) + 1j * rng.integers(-6, 7, shape)
        d.reshape(-1)[0] = 7
        d = np.where(np.abs(d).max(axis=tuple(i for i in range(d.ndim) if i != 2), keepdims=True) == 0, 1, d)
    else:
        t = np.arange(tok0, tok0 + n).reshape(shape)
        d = t + 1j * (2 * t + 1)
    cplx = kind == "efield" or bool(set(labels) & {-3, -4, -7, -8})
    if kind == "power":
        for k, p in enumerate(labels):
            if p not in (-3, -4, -7, -8):
                d[:, k] = np.abs(d[:, k].real)
    if not cplx:
        d = d.real
        d = d.astype(np.float32) if rng.random() < 0.3 else d.astype(float)
    else:
        d = d.astype(np.complex64) if rng.random() < 0.3 else d.astype(complex)
    if kind == "efield":
        b = np.zeros((vec, 2) + shp)
        b[0, 0] = 1
        b[1, 1] = 1
        if bvs if bvs is not None else rng.random() < 0.5:
            # rotated basis vectors at some of the pixels
            r = rng.integers(0, 4, shp)
            for q, (c, s) in enumerate([(1, 0), (0.6, 0.8), (0.8, -0.6), (0, 1)]):
                m = r == q
                b[0, 0][m], b[0, 1][m], b[1, 0][m], b[1, 1][m] = c, s, -s, c
        kw["basis_vector_array"] = b
    phased = bool(kind == "efield" and rng.random() < 0.2) if phased is None else phased
    if phased and kind == "efield":
        ne = 2
        kw.update(element_location_array=np.arange(2.0 * ne).reshape(2, ne), delay_array=np.arange(ne) * 1e-9, gain_array=np.ones(ne) * 2)
        m = np.arange(1, 1 + ne * ne * len(labels) ** 2 * nf).reshape((ne, ne, len(labels), len(labels), nf))
        kw["coupling_matrix"] = m + 1j * (m + 5)
    u = UVBeam.new(telescope_name="vf", data_normalization=norm or str(rng.choice(["physical", "peak"])), freq_array=f,
                   bandpass_array=(np.arange(nf) + 2.0), x_orientation=xo,
                   history="made by vf", **({"feed_array": np.array(labels)} if kind == "efield" else {"polarization_array": np.array(labels)}), **kw)
    u.data_array = d
    u.pixel_coordinate_system = cs
    u.extra_keywords = {"VFKEY": int(rng.integers(0, 99))}
    if opts is None:
        opts = set(rng.choice(["rx", "loss", "mm", "s", "imp"], int(rng.choice([0, 0, 2, 5])), replace=False))
    g = rng.permutation(nf) + 1.0
    if "rx" in opts:
        u.receiver_temperature_array = 100 * g
    if "loss" in opts:
        u.loss_array = 10 * g
    if "mm" in opts:
        u.mismatch_array = -g
    if "s" in opts:
        u.s_parameters = np.arange(4.0 * nf).reshape(4, nf)
    if "imp" in opts:
        u.reference_impedance = 50.0
    u.check()
    return u


def projb(u, sc=1.0, bs=4.0, cs=1.0, bpfield=None):
    f = []
    for j in range(len(u.freq_array)):
        def g(a, s):
            return fx(a[j], s) if a is not None and j < len(a) else -1
        f.append({"f": fx(u.freq_array[j]), "bp": g(u.bandpass_array, bs), "rx": g(u.receiver_temperature_array, 10), "loss": g(u.loss_array, 10),
                  "mm": g(u.mismatch_array, 10), "s": fxs(u.s_parameters[:, j], 10) if u.s_parameters is not None else []})
    d = u.data_array
    re, im = np.asarray(d.real).ravel(), np.asarray(d.imag).ravel()
    power = u.beam_type == "power"
    lab = u.polarization_array if power else u.feed_array
    hp = u.pixel_coordinate_system == "healpix"
    axes = {"vec": [{"v": i} for i in range(d.shape[0])], "freq": f,
            "pol": [{"p": str(x), "n": int(x)} if power else {"p": str(x)} for x in lab]}
    if hp:
        axes["pix"] = [{"x": int(x)} for x in u.pixel_array]
    else:
        axes["ax2"] = [{"x": fx(x, 1e6)} for x in u.axis2_array]
        axes["ax1"] = [{"x": fx(x, 1e6)} for x in u.axis1_array]
    c = u.coupling_matrix
    b = u.basis_vector_array
    arrs = [a for a in (u.bandpass_array, u.receiver_temperature_array, u.loss_array, u.mismatch_array) if a is not None]
    badkw = any(isinstance(v, (list, dict, np.ndarray)) for v in u.extra_keywords.values())
    return {
        "order": ["vec", "pol", "freq"] + (["pix"] if hp else ["ax2", "ax1"]), "axes": axes,
        "cells": [[fx(x, sc), fx(y, sc)] for x, y in zip(re, im)], "shape": list(d.shape),
        "bv": fxs(b, 10) if b is not None else [], "bvshape": list(b.shape) if b is not None else [],
        "cpl": [[fx(x.real, cs), fx(x.imag, cs)] for x in c.ravel()] if c is not None else [],
        "cplshape": list(c.shape) if c is not None else [],
        "flens": [len(a) for a in arrs] + ([u.s_parameters.shape[1]] if u.s_parameters is not None else []),
        "opt": {"rx": u.receiver_temperature_array is not None, "loss": u.loss_array is not None,
                "mm": u.mismatch_array is not None, "s": u.s_parameters is not None}, "badkw": badkw,
        "meta": {"type": str(u.beam_type), "ant": str(u.antenna_type), "norm": str(u.data_normalization), "cs": str(u.pixel_coordinate_system),
                 "Nvec": int(u.Naxes_vec), "Nfreqs": int(u.Nfreqs), "Npol": int((u.Npols if power else u.Nfeeds) or 0),
                 "Npix": int(u.Npixels or 0), "N1": int(u.Naxes1 or 0), "N2": int(u.Naxes2 or 0),
                 "Ncomp": int(u.Ncomponents_vec) if b is not None and u.Ncomponents_vec is not None else 0, "Nel": int(u.Nelements or 0),
                 "nside": int(u.nside or 0), "ordering": str(u.ordering), "xo": str(u.x_orientation), "cplx": bool(np.iscomplexobj(d)),
                 "imp": fx(u.reference_impedance or 0),
                 "names": [str(getattr(u, k)) for k in ("telescope_name", "feed_name", "feed_version", "model_name", "model_version")],
                 "array": [pv(getattr(u, k)) for k in ("element_coordinate_system", "element_location_array", "delay_array")],
                 "gain": pv(u.gain_array), "xkw": sorted(f"{k}={pv(v)}" for k, v in u.extra_keywords.items())},
    }
