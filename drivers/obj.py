"""C25: equality, independence of copies, and validity checking of all the data objects."""
import copy
import hashlib
import pickle

import numpy as np
from astropy.coordinates import EarthLocation
from astropy import units

from pyuvdata import Telescope, UVBeam, UVCal, UVData, UVFlag
from vf.beam import make_beam
from vf.cal import make_cal
from vf.flag import make_flag
from vf.harness import call
from vf.uvd import make_tel, make_uvd

RAD = 1e-3 * np.pi / 3600 / 180  # a milliarcsecond
# documented absolute tolerances (relative tolerance 0); everything else: 1e-5 relative, 1e-8 absolute
ATOL = {
    "UVData": {"freq_array": 1e-3, "channel_width": 1e-3, "integration_time": 1e-3, "lst_array": RAD, "phase_center_app_ra": RAD,
               "phase_center_app_dec": RAD, "phase_center_frame_pa": 2e-8, "time_array": 1e-3 / 86400, "uvw_array": 1e-3},
    "UVCal": {"freq_array": 1e-3, "channel_width": 1e-3, "freq_range": 1e-3, "integration_time": 1e-3, "lst_array": RAD,
              "lst_range": RAD, "time_array": 1e-3 / 86400, "time_range": 1e-3 / 86400},
    "UVBeam": {"bandpass_array": 1e-3, "basis_vector_array": 1e-3, "data_array": 1e-3, "freq_array": 1e-3, "loss_array": 1e-3,
               "mismatch_array": 1e-3, "receiver_temperature_array": 1e-3, "reference_impedance": 1e-3, "s_parameters": 1e-3},
    "UVFlag": {"freq_array": 1e-3, "channel_width": 1e-3, "lst_array": RAD, "time_array": 1e-3 / 86400},
    "Telescope": {"antenna_diameters": 1e-3, "antenna_positions": 1e-3, "location": 1e-3},
}
RTOL0 = {"delay_array": (1e-5, 1e-15)}
# values for optional parameters that are not set
UNSET = {
    "UVData": {"dut1": 0.25, "earth_omega": 360.5, "gst0": 1.5, "rdate": "2020-01-01", "timesys": "UTC", "pol_convention": "avg",
               "filename": ["a.uvh5"], "blt_order": ("time", "baseline"), "blts_are_rectangular": True, "time_axis_faster_than_bls": False,
               "tel.x_orientation": "east"},
    "UVCal": {"observer": "me", "git_hash_cal": "abc", "gain_scale": "Jy", "pol_convention": "avg", "filename": ["x.calfits"]},
    "UVBeam": {"x_orientation": "east", "reference_impedance": 75.0, "filename": ["x.beamfits"]},
    "UVFlag": {"tel.instrument": "other", "tel.x_orientation": "east"},
    "Telescope": {"instrument": "other", "x_orientation": "east"},
}


def params(o):
    """name -> (owner, attribute)"""
    out = {}
    for p in o:
        if p == "_telescope":
            for q in o.telescope:
                out["tel." + q[1:]] = (o.telescope, q[1:])
        else:
            out[p[1:]] = (o, p[1:])
    return out


def canon(v):
    if v is None:
        return "None"
    if isinstance(v, np.ndarray) and not isinstance(v, EarthLocation):
        return f"{v.dtype}{v.shape}" + (repr(v.tolist()) if v.dtype.kind in "OUS" else hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, EarthLocation):
        return "loc" + repr([float(x.to_value("m")) for x in v.geocentric])
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canon(x)}" for k, x in sorted(v.items(), key=lambda z: str(z[0]))) + "}"
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, (np.generic,)):
        v = v.item()
    return repr(v)


# the parameters which say what kind of object this is
KINDS = {"mode", "type", "cal_type", "cal_style", "wide_band", "beam_type", "antenna_type", "pixel_coordinate_system"}


def swappable(rng, v, rt, at):
    """Two indices of v whose values are clearly different (None: there are none)."""
    if v.size < 2:
        return None
    i = np.unravel_index(int(rng.integers(0, v.size)), v.shape)
    if v.dtype.kind in "fc":
        far = np.abs(v - v[i]) > 30 * (at + rt * np.abs(v).max())
    else:
        far = v != v[i]
        if v.dtype.kind in "iu":
            far &= np.abs(v.astype(float) - float(v[i])) > 1e-4 * np.abs(v).max()
    js = np.argwhere(far)
    return None if len(js) == 0 else (i, tuple(js[int(rng.integers(0, len(js)))]))


class World:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.objs, self.ids, self.toks, self.kinds = {}, {}, {}, {}
        self.ntok, self.cls = {}, {}

    def fp1(self, o):
        return {k: self.ids.setdefault(canon(getattr(ow, at)), len(self.ids)) for k, (ow, at) in params(o).items()}

    def fps(self):
        return {n: self.fp1(o) for n, o in self.objs.items()}

    def variant(self, o):
        c = type(o).__name__
        if c == "UVCal":
            return {"delay": o.cal_type == "delay", "wide": bool(o.wide_band), "sky": o.cal_style == "sky"}
        if c == "UVBeam":
            return {"healpix": o.pixel_coordinate_system == "healpix", "efield": o.beam_type == "efield", "phased": o.antenna_type == "phased_array"}
        if c == "UVFlag":
            return {"flag": o.mode == "flag", "type": o.type}
        return {"x": 0}

    def base_tok(self, n):
        o = self.objs[n]
        # exact content decides the first token: two objects start with the same token only for identical values
        t = {k: (0 if getattr(ow, at) is None else self.ids[canon(getattr(ow, at))] + 1) for k, (ow, at) in params(o).items()}
        self.toks[n] = t
        return t

    def add(self, op, n, ob, **kw):
        self.objs[n] = o = ob
        f = self.fps()
        self.cls[n] = type(o).__name__
        self.rec.ev(op, cls=type(o).__name__, v=self.variant(o), tok=dict(self.base_tok(n)), fps=f, **kw)

    def clone(self, n, r):
        o = self.objs[n]
        how = str(self.rng.choice(["copy", "copy", "deepcopy", "pickle", "meta", "copy.copy"]))
        meta = how == "meta" and self.cls[n] == "UVData"
        if how == "copy" or (how == "meta" and not meta) or how == "copy.copy":
            c = o.copy()
        elif how == "deepcopy":
            c = copy.deepcopy(o)
        elif how == "pickle":
            c = pickle.loads(pickle.dumps(o))
        else:
            c = o.copy(metadata_only=True)
        self.objs[r] = c
        self.cls[r] = self.cls[n]
        self.toks[r] = dict(self.toks[n])
        if meta:
            for p in ("data_array", "flag_array", "nsample_array"):
                self.toks[r][p] = 0
        self.rec.ev("Clone", o=n, r=r, args={"meta": meta, "how": how}, fps=self.fps())

    def fresh(self):
        self.ntok["n"] = self.ntok.get("n", 1000000) + 1
        return self.ntok["n"]

    def assign(self, n, p=None, tiny=None, unset=True):
        """Change one parameter of one object; returns its name (None: nothing to change)."""
        rng, o = self.rng, self.objs[n]
        ps = params(o)
        p = p or str(rng.choice(sorted(ps)))
        ow, at = ps[p]
        v = getattr(ow, at)
        cname = "Telescope" if p.startswith("tel.") else self.cls[n]
        base = p[4:] if p.startswith("tel.") else p
        rt, a_t = (0.0, ATOL[cname][base]) if base in ATOL[cname] else RTOL0.get(base, (1e-5, 1e-8))
        tiny = bool(rng.random() < 0.3) if tiny is None else tiny
        tk = self.fresh()
        k = tk - 1000000
        if base in ("data_array", "flag_array", "nsample_array") and v is None or base in KINDS:
            return None
        if v is None:
            val = UNSET[self.cls[n]].get(p)
            if val is None or not unset:
                return None
            new, exact = copy.deepcopy(val), True
        elif isinstance(v, EarthLocation):
            d = (0.02 if tiny else 30.0 * k) * a_t
            xyz = [x.to_value("m") for x in v.geocentric]
            xyz[int(rng.integers(0, 3))] += d
            new, exact = EarthLocation.from_geocentric(*(np.array(xyz) * units.m)), False
        elif isinstance(v, np.ndarray) and v.ndim and not tiny and rng.random() < 0.25 and swappable(rng, v, rt, a_t) is not None:
            # the same values in another order
            new = v if rng.random() < 0.6 else v.copy()
            ix, jx = swappable(rng, v, rt, a_t)
            new[ix], new[jx] = copy.copy(v[jx]), copy.copy(v[ix])
            exact = v.dtype.kind not in "fc"
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fc" and not tiny and rng.random() < 0.15 and np.abs(v).max() > 100 * (a_t + rt):
            new, exact = -v, False
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fc":
            new = v if rng.random() < 0.6 else v.copy()
            ix = np.unravel_index(int(rng.integers(0, v.size)), v.shape)
            d = (0.02 if tiny else 30.0 * k) * (a_t + rt * abs(v[ix]))
            if v.dtype.kind == "c" and rng.random() < 0.5:
                d = 1j * d
            new[ix] = v[ix] + d
            exact = False
        elif isinstance(v, np.ndarray) and v.dtype.kind == "b":
            new = v if rng.random() < 0.6 else v.copy()
            ix = np.unravel_index(int(rng.integers(0, v.size)), v.shape)
            new[ix] = ~new[ix]
            exact = True
        elif isinstance(v, np.ndarray) and v.dtype.kind in "iu":
            new = v if rng.random() < 0.6 else v.copy()
            ix = np.unravel_index(int(rng.integers(0, v.size)), v.shape)
            new[ix] = new[ix] + v.dtype.type(1 + (abs(int(v[ix])) // 50000))
            exact = True
        elif isinstance(v, np.ndarray) or (isinstance(v, list) and v and isinstance(v[0], str)):
            new = [str(x) for x in v]
            i = int(rng.integers(0, len(new)))
            w = rng.random()
            if w < 0.3 and len(set(new)) > 1:
                new = new[1:] + new[:1] if rng.random() < 0.5 or len(set(new[1:])) < 2 else new[:1] + new[1:][::-1]
                if new == [str(x) for x in v]:
                    new[i] = f"Q{k}"
            elif w < 0.4 and new[i].swapcase() != new[i]:
                new[i] = new[i].swapcase()
            elif w < 0.5:
                new[i] = new[i][:1] + " " + new[i][1:] + "x"
            else:
                new[i] = f"Q{k}"
            new = np.array(new) if isinstance(v, np.ndarray) else new
            exact = True
        elif isinstance(v, bool):
            new, exact = not v, True
        elif isinstance(v, (int, np.integer)):
            new, exact = int(v) + k, True
        elif isinstance(v, float):
            new, exact = v + (0.02 if tiny else 30.0 * k) * (a_t + rt * abs(v)), False
        elif isinstance(v, str):
            if tiny:
                new, exact = v + (" " if rng.random() < 0.5 or base != "history" else "\n"), False
            else:
                new, exact = v + f"z{k}", True
        elif isinstance(v, tuple):
            new, exact = ("baseline", "time") if v[0] != "baseline" else ("time", "baseline"), True
        elif isinstance(v, dict):
            new = v if rng.random() < 0.6 else copy.deepcopy(v)
            if base == "extra_keywords":
                if tiny and new:
                    key = sorted(new)[0]
                    val = new.pop(key)
                    new[key.swapcase()] = val
                else:
                    tiny = False
                    w = str(rng.choice(["add", "change", "drop"]))
                    if w == "add" or not new:
                        new[f"K{k}"] = k
                    elif w == "drop":
                        new.pop(sorted(new)[0])
                    else:
                        new[sorted(new)[0]] = f"v{k}" if rng.random() < 0.5 else 10 * k + 7
            else:
                tiny = False
                d = new[sorted(new)[int(rng.integers(0, len(new)))]]
                w = str(rng.choice(["lon", "name", "add", "key", "drop"]))
                if w == "lon" and isinstance(d.get("cat_lon"), float):
                    d["cat_lon"] = d["cat_lon"] + 0.01 * k
                elif w == "key":
                    d["info_source"] = f"src{k}"
                elif w == "add":
                    new[max(new) + k] = copy.deepcopy(d)
                elif w == "drop" and len(new) > 1:
                    new.pop(sorted(new)[0])
                else:
                    d["cat_name"] = d["cat_name"] + f"n{k}"
            exact = not tiny
        else:
            return None
        setattr(ow, at, new)
        f = self.fps()
        if exact:
            tk = self.ids[canon(new)] + 1
        elif tiny:
            tk = self.toks[n][p]
        self.toks[n][p] = tk
        self.rec.ev("Assign", o=n, args={"p": p, "tok": tk, "tiny": bool(tiny)}, fps=f)
        return p

    def equal(self, a, b):
        rng = self.rng
        x, y = self.objs[a], self.objs[b]
        extra = bool(rng.random() < 0.75)
        allowed = ["filename"]
        kw = {} if extra else {"check_extra": False}
        uf = self.cls[a] == "UVFlag"
        if uf:
            if rng.random() < 0.25:
                kw["check_history"] = False
                allowed = ["filename", "history"]
        elif rng.random() < 0.25:
            diff = [p for p in self.toks[a] if self.toks[b].get(p) != self.toks[a][p] and not p.startswith("tel.")]
            pool = (diff or ["history"]) if rng.random() < 0.7 else ["history", "spw_array"]
            allowed = [str(p) for p in pool[:2]]
            form = int(rng.integers(0, 4))
            arg = [allowed, tuple(allowed), ["_" + p for p in allowed], allowed[0]][form]
            if form == 3:
                allowed = allowed[:1]
            kw["allowed_failures"] = list(arg) if isinstance(arg, list) else arg
        elif rng.random() < 0.1:
            allowed, kw["allowed_failures"] = [], None
        ne = bool(rng.random() < 0.3)
        if not kw:
            out, res = call(lambda: (x != y) if ne else (x == y))
        else:
            out, res = call(x.__ne__ if ne else x.__eq__, y, **kw)
        r = bool(res) ^ ne if out == "ok" else False
        self.rec.ev("Equal", o=a, b=b, args={"extra": extra, "allowed": allowed, "ne": ne}, out=out, res=r,
                    err=str(res) if out == "error" else "", fps=self.fps())

    def check(self, n):
        rng = self.rng
        o = {"extra": bool(rng.random() < 0.7), "accept": bool(rng.random() < 0.7), "strict": False, "autos": False, "spacing": False}
        kw = {}
        if not o["extra"]:
            kw["check_extra"] = False
        if not o["accept"]:
            kw["run_check_acceptability"] = False
        if self.cls[n] == "UVData":
            for k, a in (("strict", "strict_uvw_antpos_check"), ("autos", "check_autos")):
                o[k] = bool(rng.random() < 0.5)
                kw[a] = o[k]
        if getattr(self, "even", False):
            o["spacing"] = kw["check_freq_spacing"] = bool(rng.random() < 0.6)
        out, res = call(self.objs[n].check, **kw)
        if out == "ok" and res is not True:
            out = "error"
        self.rec.ev("Check", o=n, args=o, out=out, err=str(res) if out == "error" else "", fps=self.fps())

    def brk(self, n, rule):
        self.rec.ev("Break", o=n, args={"rule": rule}, fps=self.fps())


MK = {"UVData": lambda rng: make_uvd(rng, flexpol=bool(rng.random() < 0.15)), "UVCal": make_cal, "UVBeam": make_beam,
      "UVFlag": lambda rng: make_flag(rng), "Telescope": make_tel}


def eq_scenario(rng, rec):
    w = World(rng, rec)
    c = str(rng.choice(["UVData", "UVData", "UVCal", "UVCal", "UVBeam", "UVFlag", "UVFlag", "Telescope"]))
    w.add("Make", "a", MK[c](rng), o="a")
    w.clone("a", "b")
    w.equal("a", "b")
    w.equal("b", "a")
    names = ["a", "b"]
    for i in range(int(rng.integers(3, 7))):
        x = float(rng.random())
        n = str(rng.choice(names))
        if x < 0.62:
            p = w.assign(n)
            if p is None:
                continue
            m = str(rng.choice([q for q in names if q != n]))
            w.equal(n, m)
            w.equal(m, n)
            half = p in ("data_array", "flag_array", "nsample_array") and w.toks[m].get(p) == 0
            if rng.random() < 0.35 and w.toks[m].get(p) != w.toks[n].get(p) and not half:
                # give both the same value again
                owx, at = params(w.objs[m])[p]
                owy, _ = params(w.objs[n])[p]
                setattr(owx, at, copy.deepcopy(getattr(owy, at)))
                w.toks[m][p] = w.toks[n][p]
                rec.ev("Assign", o=m, args={"p": p, "tok": w.toks[n][p], "tiny": False}, fps=w.fps())
                w.equal(m, n)
        elif x < 0.75 and len(names) < 4:
            r = "cdef"[len(names) - 2]
            w.clone(n, r)
            names.append(r)
            w.equal(n, r)
        else:
            w.equal(*[str(z) for z in rng.choice(names, 2, replace=False)])


def alias_scenario(rng, rec):
    """Objects derived from another one share nothing with it."""
    w = World(rng, rec)
    u = make_uvd(rng, ntimes=2)
    w.add("Make", "a", u, o="a")
    k = str(rng.choice(["flag", "flagwf", "cal", "select", "selectf", "pow", "calflag", "tobl", "sum", "phase"]))
    if k == "flag":
        out, r = call(UVFlag, u, mode=str(rng.choice(["flag", "metric"])), copy_flags=bool(rng.random() < 0.5) or False)
        if out == "error":
            out, r = call(UVFlag, u)
    elif k == "flagwf":
        out, r = call(UVFlag, u, waterfall=True)
    elif k == "cal":
        out, r = "error", None
        if u.telescope.x_orientation is None:
            return
        out, r = call(UVCal.initialize_from_uvdata, u, gain_convention="multiply", cal_style="redundant", wide_band=False)
    elif k == "select":
        out, r = call(u.select, inplace=False)
    elif k == "selectf":
        out, r = call(u.select, freq_chans=np.arange(u.Nfreqs), inplace=False)
    elif k == "pow":
        b = make_beam(rng, kind="efield")
        w.add("Make", "b", b, o="b")
        out, r = call(b.efield_to_power, calc_cross_pols=False, inplace=False)
    elif k == "calflag":
        c = make_cal(rng, kind="gain")
        w.add("Make", "b", c, o="b")
        out, r = call(UVFlag, c)
    elif k == "tobl":
        out, r = call(UVFlag, u, waterfall=True)
        if out == "ok":
            f = r
            w.add("Spawn", "f", f, o="a", r="f")
            r = f.copy()
            out, x = call(r.to_baseline, u, force_pol=True)
    elif k == "sum":
        out, r = call(u.sum_vis, u, inplace=False)
    elif k == "phase":
        r = u.copy()
        out, x = call(r.phase, lon=1.0, lat=-0.5, epoch="J2000", cat_name="new", phase_frame="icrs")
    if out == "error":
        return
    w.add("Spawn", "c", r, o="a", r="c")
    names = list(w.objs)
    for _ in range(6):
        w.assign(str(rng.choice(names)), tiny=False)


# ----------------------------------------------------------------- faults
def first_auto(u):
    z = np.nonzero(u.ant_1_array == u.ant_2_array)[0]
    return None if z.size == 0 else int(z[0])


def resize(v, rng):
    ax = int(rng.integers(0, v.ndim))
    if v.shape[ax] > 1 and rng.random() < 0.5:
        return np.delete(v, -1, axis=ax)
    return np.concatenate([v, np.take(v, [0], axis=ax)], axis=ax)


ARR = {
    "UVData": ["ant_1_array", "ant_2_array", "baseline_array", "channel_width", "data_array", "flag_array", "nsample_array",
               "flex_spw_id_array", "freq_array", "integration_time", "lst_array", "phase_center_app_dec", "phase_center_app_ra",
               "phase_center_frame_pa", "phase_center_id_array", "polarization_array", "spw_array", "time_array", "uvw_array"],
    "UVCal": ["ant_array", "flag_array", "integration_time", "jones_array", "spw_array", "gain_array", "delay_array", "freq_range",
              "freq_array", "channel_width", "flex_spw_id_array"],
    "UVBeam": ["bandpass_array", "data_array", "freq_array", "pixel_array", "axis1_array", "axis2_array", "feed_array",
               "basis_vector_array", "polarization_array", "coupling_matrix", "delay_array", "element_location_array", "gain_array"],
    "UVFlag": ["channel_width", "flex_spw_id_array", "freq_array", "lst_array", "polarization_array", "spw_array", "time_array",
               "flag_array", "metric_array", "weights_array", "ant_1_array", "ant_2_array", "baseline_array", "ant_array"],
    "Telescope": ["antenna_names", "antenna_numbers", "antenna_positions"],
}
OTHER = {
    "UVData": ["history", "vis_units", "phase_center_catalog", "Nfreqs", "Nblts", "Ntimes", "Nspws"],
    "UVCal": ["history", "cal_style", "gain_convention", "Ntimes", "Njones", "wide_band"],
    "UVBeam": ["history", "feed_name", "feed_version", "model_name", "model_version", "telescope_name", "data_normalization", "Nfreqs"],
    "UVFlag": ["history", "label", "Nfreqs", "Ntimes"],
    "Telescope": ["name", "location", "Nants"],
}
OPT = {
    "UVData": ["eq_coeffs", "scan_number_array", "flex_spw_polarization_array"],
    "UVCal": ["quality_array", "total_quality_array", "scan_number_array", "ref_antenna_array", "phase_center_id_array"],
    "UVBeam": ["loss_array", "mismatch_array", "receiver_temperature_array", "s_parameters"],
    "UVFlag": ["weights_square_array"],
    "Telescope": ["antenna_diameters"],
}


def inject(rng, o):
    """Make the object wrong in one way; returns the rule broken (None: does not apply)."""
    c = type(o).__name__
    rules = ["missing", "missing", "shape", "shape", "type", "type", "xshape", "xtype", "value", "xvalue", "count", "ant", "spwid"]
    rules += {"UVData": ["pcid", "polzero", "polconv", "rect", "telmissing", "telshape", "autouvw", "zerouvw", "uvw", "autos"],
              "UVCal": ["telmissing", "telshape", "bothtimes", "notimes", "nolst", "overlap", "notwide", "wide"],
              "UVBeam": ["basis", "range"], "UVFlag": ["telmissing"], "Telescope": []}[c]
    r = str(rng.choice(rules))
    arrs = [p for p in ARR[c] if getattr(o, p) is not None]
    if r == "missing":
        p = str(rng.choice(arrs + OTHER[c]))
        if getattr(o, p) is None or (p == "data_array" and c == "UVData"):
            return None
        if c == "UVCal" and p in ("gain_array", "delay_array", "wide_band"):
            return None
        setattr(o, p, None)
    elif r == "shape":
        p = str(rng.choice(arrs))
        setattr(o, p, resize(getattr(o, p), rng))
    elif r == "type":
        p = str(rng.choice(arrs))
        v = getattr(o, p)
        k = v.dtype.kind
        if k == "U":
            new = np.arange(v.size).reshape(v.shape)
        elif k in "iu":
            new = v.astype(float)
        elif k == "f":
            new = v.astype(int) if rng.random() < 0.5 else v.astype(complex)
        elif k == "c":
            new = v.real.copy()
        else:
            new = v.astype(float)
        if k == "f" and new.dtype.kind == "c" and c == "UVBeam" and p == "data_array":
            return None
        if c == "UVBeam" and p == "data_array" and o.beam_type == "power" and k == "c":
            return None
        setattr(o, p, new)
    elif r in ("xshape", "xtype"):
        ps = [p for p in OPT[c] if isinstance(getattr(o, p), np.ndarray)]
        if not ps:
            return None
        p = str(rng.choice(ps))
        v = getattr(o, p)
        if p == "flex_spw_polarization_array":
            return None
        setattr(o, p, resize(v, rng) if r == "xshape" else (v.astype(float) if v.dtype.kind in "iu" else v.astype(str)))
    elif r == "value":
        p, v = {"UVData": ("vis_units", "furlong"), "UVCal": ("gain_convention", "add"), "UVBeam": ("data_normalization", "none"),
                "UVFlag": ("polarization_array", None), "Telescope": ("", None)}[c]
        if not p:
            return None
        if p == "polarization_array":
            v = o.polarization_array.copy()
            v[0] = 11
        elif rng.random() < 0.5 and c == "UVData" and o.flex_spw_polarization_array is None:
            p, v = "polarization_array", o.polarization_array.copy()
            v[-1] = -11
        elif rng.random() < 0.5 and c == "UVCal" and o.flex_jones_array is None:
            p, v = "jones_array", o.jones_array.copy()
            v[-1] = -11
        setattr(o, p, v)
    elif r == "xvalue":
        if c == "UVData":
            if o.vis_units == "uncalib":
                return None
            o.pol_convention = "median"
        elif c == "UVCal":
            o.pol_convention = "median"
        elif c == "UVBeam":
            o.x_orientation = "up"
        elif c == "Telescope":
            o.x_orientation = "up"
        else:
            return None
    elif r == "range":
        if o.axis1_array is None:
            return None
        o.axis1_array = o.axis1_array + 20.0
        if o.pixel_coordinate_system != "az_za":
            return None
    elif r == "count":
        p = {"UVData": ["Nants_data", "Nbls", "Ntimes", "Nphase"], "UVCal": ["Nants_data"], "UVBeam": ["Nfreqs"], "UVFlag": ["Nbls", "Nants_data", "Ntimes"],
             "Telescope": ["Nants"]}[c]
        p = str(rng.choice(p))
        if c == "UVFlag" and o.type != "baseline":
            return None
        if p == "Nphase":
            return None
        setattr(o, p, int(getattr(o, p)) + int(rng.choice([1, 2]) if rng.random() < 0.5 or getattr(o, p) < 2 else -1))
    elif r == "ant":
        if c in ("UVBeam", "Telescope"):
            return None
        if c == "UVFlag" and o.type == "waterfall":
            return None
        used = o.ant_array if c == "UVCal" or (c == "UVFlag" and o.type == "antenna") else np.concatenate([o.ant_1_array, o.ant_2_array])
        a = int(rng.choice(used))
        i = int(np.nonzero(o.telescope.antenna_numbers == a)[0][0])
        nn = o.telescope.antenna_numbers.copy()
        nn[i] = 1777
        o.telescope.antenna_numbers = nn
    elif r == "spwid":
        if c in ("UVBeam", "Telescope") or o.flex_spw_id_array is None:
            return None
        v = o.flex_spw_id_array.copy()
        v[int(rng.integers(0, v.size))] = 77
        o.flex_spw_id_array = v
    elif r == "pcid":
        v = o.phase_center_id_array.copy()
        v[int(rng.integers(0, v.size))] = 7777
        o.phase_center_id_array = v
    elif r == "polzero":
        if o.flex_spw_polarization_array is None:
            v = o.polarization_array.copy()
            v[int(rng.integers(0, v.size))] = 0
            o.polarization_array = v
        else:
            o.polarization_array = np.array([-5])
    elif r == "polconv":
        if o.vis_units != "uncalib":
            return None
        o.pol_convention = "avg"
    elif r == "rect":
        o.time_axis_faster_than_bls = True
        o.blts_are_rectangular = False
    elif r == "telmissing":
        setattr(o.telescope, str(rng.choice(["name", "location", "antenna_names", "antenna_numbers", "antenna_positions"]
                                            + (["instrument"] if c == "UVData" else []) + (["x_orientation"] if c == "UVCal" else []))), None)
    elif r == "telshape":
        p = str(rng.choice(["antenna_names", "antenna_positions"]))
        setattr(o.telescope, p, getattr(o.telescope, p)[:-1])
    elif r == "autouvw":
        i = first_auto(o)
        if i is None:
            return None
        o.uvw_array[i, int(rng.integers(0, 3))] = 0.5
    elif r == "zerouvw":
        z = np.nonzero(o.ant_1_array != o.ant_2_array)[0]
        if z.size == 0:
            return None
        o.uvw_array[int(rng.choice(z))] = 0.0
    elif r == "uvw":
        z = np.nonzero(o.ant_1_array != o.ant_2_array)[0]
        if z.size == 0:
            return None
        o.uvw_array[int(rng.choice(z)), int(rng.integers(0, 3))] += 400.0
    elif r == "autos":
        i = first_auto(o)
        if i is None or o.flex_spw_polarization_array is not None:
            return None
        ok = [j for j, p in enumerate(o.polarization_array) if p in (-5, -6, -1, -2, 1, 2, 3, 4)]
        if not ok:
            return None
        o.data_array[i, int(rng.integers(0, o.Nfreqs)), int(rng.choice(ok))] = 3 + 2j
    elif r == "bothtimes":
        if o.time_array is None:
            o.time_array = o.time_range[:, 0]
        else:
            o.time_range = np.stack([o.time_array, o.time_array + 1e-6], 1)
    elif r == "notimes":
        o.time_array = o.time_range = None
    elif r == "nolst":
        o.lst_array = o.lst_range = None
    elif r == "overlap":
        if o.time_range is None or o.Ntimes < 2:
            return None
        o.time_range[1, 0] = o.time_range[0, 0] + (o.time_range[0, 1] - o.time_range[0, 0]) / 2
        o.time_range[1, 1] = max(o.time_range[1, 1], o.time_range[1, 0] + 1e-6)
        rec = 1
    elif r == "notwide":
        if o.wide_band:
            return None
        o.freq_range = np.tile([1e8, 2e8], (o.Nspws, 1))
    elif r == "wide":
        if not o.wide_band:
            return None
        w = str(rng.choice(["freq_array", "channel_width", "flex_spw_id_array", "Nfreqs"]))
        if w == "Nfreqs":
            o.Nfreqs = 2
        else:
            setattr(o, w, {"freq_array": np.array([1e8]), "channel_width": np.array([1e5]), "flex_spw_id_array": o.spw_array[:1].copy()}[w])
    elif r == "basis":
        if o.basis_vector_array is None:
            return None
        ix = [int(rng.integers(0, s)) for s in o.basis_vector_array.shape]
        o.basis_vector_array[tuple(ix)] = 1.4
    return r


def real_autos(u):
    z = u.ant_1_array == u.ant_2_array
    for j, p in enumerate(u.polarization_array):
        u.data_array[z, :, j] = u.data_array[z, :, j].real
    return u


def uneven(rng, o):
    k = int(rng.integers(0, o.Nfreqs))
    if rng.random() < 0.5:
        o.freq_array[k] += 1000.0
    elif rng.random() < 0.5:
        o.channel_width[k] += 1000.0
    else:
        o.channel_width = o.channel_width * 0.75
    return "spacing"


def check_scenario(rng, rec):
    w = World(rng, rec)
    c = str(rng.choice(["UVData", "UVData", "UVData", "UVCal", "UVCal", "UVBeam", "UVFlag", "Telescope"]))
    o = MK[c](rng)
    if c == "UVData":
        real_autos(o)
        call(o.set_uvws_from_antenna_positions)
        if rng.random() < 0.3:
            o.vis_units = "Jy"
    if c in ("UVData", "UVCal") and o.freq_array is not None and o.Nspws == 1 and o.Nfreqs > 2:
        o.freq_array = 1e8 + 2e5 * np.arange(o.Nfreqs) * (1 if rng.random() < 0.7 else -1)
        o.channel_width = np.full(o.Nfreqs, 2e5)
        w.even = True
    w.add("Make", "a", o, o="a")
    w.check("a")
    w.clone("a", "b")
    if w.objs["b"].__class__ is UVData and w.objs["b"].data_array is None:
        w.objs.pop("b")
        return
    for _ in range(int(rng.integers(1, 3))):
        r = inject(rng, w.objs["b"]) if not getattr(w, "even", False) or rng.random() < 0.6 else uneven(rng, w.objs["b"])
        if r is None:
            return
        w.brk("b", r)
        for _ in range(2):
            w.check("b")
        if rng.random() < 0.5:
            w.check("a")
        if r != "value":
            break


def run(ck):
    q = ck.n(1000, 10000)
    ck.validate("TraceObj", "TraceObj.cfg", ck.scenarios("eq", eq_scenario, q),
                min_ops={"Equal/ok": 400, "Assign": 200, "Clone": 100})
    ck.validate("TraceObj", "TraceObj.cfg", ck.scenarios("alias", alias_scenario, ck.n(200, 2000)), min_ops={"Spawn": 50, "Assign": 100})
    ck.validate("TraceObj", "TraceObj.cfg", ck.scenarios("valid", check_scenario, q), min_ops={"Check/ok": 200, "Check/error": 150, "Break": 100})
    ck.assumptions = ["tolerances as documented for each parameter; perturbations are either 1/50 or at least 30 of them"]
