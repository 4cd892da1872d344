"""C24: sums, equalization, normalization, flexible polarization."""
import numpy as np

from vf.harness import call
from vf.num import fx
from vf.uvd import make_tel, make_uvd, proj

SC = 4096


def pr(u):
    return proj(u, dscale=float(SC))


def one(u):
    return proj(u)


def ev(rec, op_, out_, res_, **kw):
    rec.ev(op_, out=out_, err=str(res_) if out_ == "error" else "", **kw)


def xk(u):
    return {str(k): str(v) for k, v in u.extra_keywords.items()}


# ------------------------------------------------------------------ sum
def alter(rng, b):
    """Change one thing."""
    k = str(rng.choice(["none", "none", "none", "flag", "ns", "time", "pol", "freq", "it", "units", "name", "blt", "conj", "cat", "eq", "width"]))
    if k == "flag":
        b.flag_array[int(rng.integers(0, b.Nblts)), 0, 0] ^= True
    elif k == "ns":
        b.nsample_array[int(rng.integers(0, b.Nblts)), 0, 0] += 1
    elif k == "time":
        b.time_array = b.time_array + 7.0 / 86400
        b.set_lsts_from_time_array()
    elif k == "pol":
        b.polarization_array = b.polarization_array[::-1] if b.Npols > 1 else np.array([-6 if b.polarization_array[0] != -6 else -5])
    elif k == "freq":
        b.freq_array = b.freq_array + 3e5
    elif k == "it":
        b.integration_time = b.integration_time * 2
    elif k == "units":
        b.vis_units = "Jy" if b.vis_units == "uncalib" else "uncalib"
    elif k == "name":
        b.telescope.name = "other"
    elif k == "blt":
        b.reorder_blts(order=np.arange(b.Nblts)[::-1])
    elif k == "conj":
        call(b.conjugate_bls, [0])
    elif k == "cat":
        d = b.phase_center_catalog[int(b.phase_center_id_array[0])]
        d["cat_name"] = d["cat_name"] + "x"
    elif k == "eq":
        b.eq_coeffs = np.full((b.telescope.Nants, b.Nfreqs), 3.0)
        b.eq_coeffs_convention = "divide"
    elif k == "width":
        b.channel_width = b.channel_width * 2


def sum_scenario(rng, rec):
    u = make_uvd(rng, flexpol=bool(rng.random() < 0.1))
    v = u.copy()
    v.data_array = (v.data_array * 3 + 1 - 2j).astype(v.data_array.dtype)
    alter(rng, v)
    for o, w in ((u, 1), (v, 2)):
        o.extra_keywords["own%d" % w] = w
        if rng.random() < 0.5:
            o.extra_keywords["both"] = w * 10
    if rng.random() < 0.5:
        v.history += " more words"
    rec.ev("Make", o="a", post={"a": one(u)})
    rec.ev("Make", o="b", post={"b": one(v)})
    for _ in range(int(rng.integers(1, 3))):
        ov = [str(x) for x in rng.choice(["flag_array", "nsample_array", "integration_time", "vis_units"], int(rng.integers(0, 3)), replace=False)]
        bad = bool(rng.random() < 0.04)
        a = {"diff": bool(rng.random() < 0.5), "override": ov, "badname": bad}
        inp = bool(rng.random() < 0.5)
        kw = {"inplace": inp}
        if ov or bad:
            kw["override_params"] = [("_" if rng.random() < 0.3 else "") + x for x in ov] + (["nonsense"] if bad else [])
        xa, xb = xk(u), xk(v)
        if a["diff"] and rng.random() < 0.5:
            out, res = call(u.diff_vis, v, **kw)
        else:
            out, res = call(u.sum_vis, v, difference=a["diff"], verbose_history=bool(rng.random() < 0.3), **kw)
        n = u if inp or out == "error" else res
        r = "a" if inp else "r"
        post = {"a": one(u), "b": one(v)}
        if r == "r":
            post["r"] = one(n)
        ev(rec, "Sum", out, res, o="a", b="b", r=r, w=[r], args=a, post=post, xk={"a": xa, "b": xb, "p": xk(n)})


# ------------------------------------------------------------------ equalization, normalization
def eq_scenario(rng, rec):
    u = make_uvd(rng, eq=bool(rng.random() < 0.85), flexpol=bool(rng.random() < 0.1), dtype=np.complex128)
    if rng.random() < 0.08:
        u.eq_coeffs_convention = None
    rec.ev("Make", o="a", post={"a": pr(u)})
    out, res = call(u.remove_eq_coeffs)
    ev(rec, "Eq", out, res, o="a", w=["a"], post={"a": pr(u)})


def norm_scenario(rng, rec):
    pols = [None, None, [-5, -6, -7, -8], [-5, -6], [-7, -8, -5, -6], [-5, -7], [-6], [1, 2, 3, 4], [-1, -2, -3, -4], [-2, -4, -1, -3]][int(rng.integers(0, 10))]
    tel = make_tel(rng, nants=int(rng.integers(2, 5)))
    u = make_uvd(rng, tel=tel, pols=pols, allbls=bool(rng.random() < 0.7), ragged=bool(rng.random() < 0.4), nfreqs=int(rng.integers(1, 4)),
                 ntimes=int(rng.integers(1, 4)), dtype=np.complex128, autos=None if rng.random() < 0.93 else False)
    m = u.ant_1_array == u.ant_2_array
    par = ~np.isin(u.polarization_array, [-3, -4, -7, -8])
    k = 4.0 ** rng.integers(0, 4, u.data_array.shape)
    k[rng.random(k.shape) < 0.06] = 0.0
    k[rng.random(k.shape) < 0.04] *= -1
    u.data_array[np.ix_(m, np.arange(u.Nfreqs), par)] = k[np.ix_(m, np.arange(u.Nfreqs), par)]
    u.flag_array = rng.random(k.shape) < 0.15
    rec.ev("Make", o="a", post={"a": pr(u)})
    skip, inv = bool(rng.random() < 0.7), bool(rng.random() < 0.3)
    for _ in range(2):
        out, res = call(u.normalize_by_autos, skip_autos=skip, invert=inv)
        ev(rec, "Norm", out, res, o="a", w=["a"], args={"skip": skip, "inv": inv, "sc": SC}, post={"a": pr(u)})
        if not skip or rng.random() < 0.4:
            break
        inv = not inv


# ------------------------------------------------------------------ flexible polarization
def flex_scenario(rng, rec):
    if rng.random() < 0.6:
        u = make_uvd(rng, meta_only=bool(rng.random() < 0.1), nfreqs=int(rng.integers(1, 5)))
        rec.ev("Make", o="a", post={"a": one(u)})
        out, res = call(u.convert_to_flex_pol)
        ev(rec, "ToFlex", out, res, o="a", w=["a"], post={"a": one(u)})
        if out == "error":
            return
        if rng.random() < 0.1:
            out, res = call(u.convert_to_flex_pol)
            ev(rec, "ToFlex", out, res, o="a", w=["a"], post={"a": one(u)})
    else:
        u = make_uvd(rng, flexpol=True, nspws=int(rng.integers(1, 5)), nfreqs=int(rng.integers(4, 9)), eq=False, meta_only=bool(rng.random() < 0.1))
        if rng.random() < 0.5 and u.Nspws > 1:
            # other layouts: two bands, repeated polarizations
            k = u.Nspws // 2
            for s in u.spw_array[:k]:
                u.freq_array[u.flex_spw_id_array == s] += 2e7
            p = rng.permutation([-5, -6, -7, -8])[:max(1, u.Nspws - k)]
            u.flex_spw_polarization_array = np.concatenate([p[:k], p])[: u.Nspws] if rng.random() < 0.8 else rng.choice(p, u.Nspws)
    # shuffle or thin the channels
    r = rng.random()
    if r < 0.3:
        u.reorder_freqs(spw_order=rng.permutation(u.Nspws))
    elif r < 0.45:
        u.reorder_freqs(channel_order="-freq")
    elif r < 0.6:
        call(u.reorder_freqs, channel_order=rng.permutation(u.Nfreqs), run_check=False)
    elif r < 0.75 and u.Nfreqs > 1:
        call(u.select, freq_chans=np.sort(rng.choice(u.Nfreqs, int(rng.integers(1, u.Nfreqs)), replace=False)))
    elif r < 0.85 and u.Nspws > 1:
        s = u.spw_array[int(rng.integers(0, u.Nspws))]
        u.reorder_freqs(select_spw=int(s), channel_order="-freq")
    rec.ev("Make", o="a", post={"a": one(u)})
    comb = bool(rng.random() < 0.7)
    out, res = call(u.remove_flex_pol, combine_spws=comb)
    ev(rec, "Unflex", out, res, o="a", w=["a"], args={"combine": comb}, post={"a": one(u)})
    if rng.random() < 0.3 and out == "ok":
        out, res = call(u.remove_flex_pol, combine_spws=comb)
        ev(rec, "Unflex", out, res, o="a", w=["a"], args={"combine": comb}, post={"a": one(u)})
        out, res = call(u.convert_to_flex_pol)
        ev(rec, "ToFlex", out, res, o="a", w=["a"], post={"a": one(u)})


def run(chk):
    tr = chk.scenarios("sum", sum_scenario, chk.n(200, 2000))
    tr += chk.scenarios("eq", eq_scenario, chk.n(80, 800))
    tr += chk.scenarios("norm", norm_scenario, chk.n(200, 2000))
    tr += chk.scenarios("flex", flex_scenario, chk.n(250, 2500))
    chk.validate("TraceMath", "TraceMath.cfg", tr, min_ops={"Sum/ok": 60, "Sum/error": 40, "Eq/ok": 40, "Norm/ok": 100, "ToFlex/ok": 80, "Unflex/ok": 100})
