"""C27: polarization, Jones and baseline labels; antenna strings (LABELS.tla)."""
import numpy as np
from pyuvdata import UVData, utils as uvutils
from pyuvdata.utils import bls as blutils
from pyuvdata.utils import pol as polutils
from vf.harness import call
from vf.uvd import JD0, make_tel, proj

XOS = {"east": ["east", "e", "ew", "EAST", "E"], "north": ["north", "n", "ns", "North"], "": [None, None, "west"]}
POLS = [1, 2, 3, 4, -1, -2, -3, -4, -5, -6, -7, -8]
WORDS = ["pI", "pQ", "pU", "pV", "I", "Q", "U", "V", "rr", "ll", "rl", "lr", "xx", "yy", "xy", "yx", "hh", "vv", "hv", "vh", "ee", "nn", "en", "ne"]
JWORDS = ["Jrr", "Jll", "Jrl", "Jlr", "Jxx", "Jyy", "Jxy", "Jyx", "xx", "x", "yy", "y", "xy", "yx", "rr", "r", "ll", "l", "rl", "lr",
          "Jee", "Jnn", "Jen", "Jne", "ee", "e", "nn", "n", "en", "ne"]


def case(rng, w):
    return w if rng.random() < 0.6 else w.upper() if rng.random() < 0.5 else w.lower()


def container(rng, v, nums=False):
    """v as given (a scalar if it has one entry, a list, tuple or array)."""
    if len(v) == 1 and rng.random() < 0.5:
        return (np.int64(v[0]) if nums and rng.random() < 0.5 else v[0]), True
    k = int(rng.integers(0, 3))
    return (list(v) if k == 0 else tuple(v) if k == 1 else np.array(v)), False


def listed(res, scalar, typ):
    if scalar:
        return [typ(res)]
    return [typ(x) for x in res]


def sc_names(rng, rec):
    given = []
    for _ in range(int(rng.integers(6, 14))):
        op = str(rng.choice(["Num", "Num", "Name", "Name", "Canon", "ConjNum", "ConjName", "ConjOrder", "PolOrder"]))
        if given and rng.random() < 0.3:
            op, kind, xo, xov, items = given[int(rng.integers(0, len(given)))]  # the same question again
        else:
            kind = str(rng.choice(["pol", "jones"]))
            xo = str(rng.choice(["", "east", "north"]))
            xov = XOS[xo][int(rng.integers(0, len(XOS[xo])))]
            n = int(rng.integers(1, 5))
            if op in ("Num", "Canon"):
                items = [case(rng, str(rng.choice(WORDS if kind == "pol" else JWORDS))) for _ in range(n)]
                if rng.random() < 0.9:
                    ok = set("enEN") if xo == "" else set()
                    items = [w if not (set(w) - set("jJ") <= ok and ok) else "xx" for w in items]
                if rng.random() < 0.03:
                    items[0] = "zz"
            elif op == "ConjName":
                items = [case(rng, str(rng.choice([w for w in WORDS if w[0] not in "hv"]))) for _ in range(n)]
            elif op == "ConjOrder":
                base = [[-1, -2, -3, -4], [-5, -6, -7, -8], [1, 2, 3, 4], POLS][int(rng.integers(0, 4))]
                items = [int(x) for x in rng.permutation(base)[:int(rng.integers(1, len(base) + 1))]]
                if rng.random() < 0.6:
                    items += [x for x in ({-3: -4, -4: -3, -7: -8, -8: -7}.get(y) for y in items) if x and x not in items]
            elif op == "PolOrder":
                items = [int(x) for x in rng.permutation(POLS)[:int(rng.integers(1, 13))]]
            else:
                pool = POLS if kind == "pol" or op == "ConjNum" else POLS[4:]
                items = [int(x) for x in rng.choice(pool, n)]
                if op == "Name" and rng.random() < 0.04:
                    items[0] = int(rng.choice([0, 5, -9, -5 if kind == "pol" else 1]))
            given.append((op, kind, xo, xov, list(items)))
        nums = isinstance(items[0], int)
        order = str(rng.choice(["AIPS", "CASA"]))
        arg, scalar = container(rng, items, nums)
        if op in ("ConjOrder", "PolOrder") and scalar:
            arg, scalar = list(items), False
        kw = {} if xov is None and rng.random() < 0.5 else {"x_orientation": xov}
        one = kind == "pol"
        if op == "Num":
            out, res = call(polutils.polstr2num if one else polutils.jstr2num, arg, **kw)
        elif op == "Name":
            out, res = call(polutils.polnum2str if one else polutils.jnum2str, arg, **kw)
        elif op == "Canon":
            out, res = call(polutils.parse_polstr if one else polutils.parse_jpolstr, arg, **kw)
        elif op in ("ConjNum", "ConjName"):
            out, res = call(polutils.conj_pol, arg)
        elif op == "ConjOrder":
            out, res = call(polutils.reorder_conj_pols, arg)
        else:
            out, res = call(polutils.determine_pol_order, np.array(items), order=order)
        r = listed(res, scalar, int if op in ("Num", "ConjNum", "ConjOrder", "PolOrder") else str) if out == "ok" else []
        rec.ev(op, args={"kind": kind, "xo": xo, "order": order,
                         "items": items if nums else [w.lower() for w in items]}, out=out, res=r)
        if out == "ok" and isinstance(res, list) and rng.random() < 0.5:
            res.reverse()  # the caller's own list now
            res.append(res[0])


ANTS = [0, 1, 2, 100, 254, 255, 256, 257, 1000, 2046, 2047, 2048, 2049, 5000, 70000, 2**30, 2**31 - 2]


def pair31(x):
    x = int(x)
    return [x >> 31, x & (2**31 - 1)]


def sc_bls(rng, rec):
    for _ in range(int(rng.integers(3, 7))):
        lim = int(rng.choice([255, 2047, 2**31]))
        pool = [x for x in ANTS if x <= lim] + [int(x) for x in rng.integers(0, min(lim, 10**9), 4)]
        n = int(rng.integers(1, 6))
        a1, a2 = ([int(x) for x in rng.choice(pool, n)] for _ in range(2))
        mir = bool(rng.random() < 0.15) and max(a1 + a2) < 2048
        a = {"a1": a1, "a2": a2, "nants": int(rng.choice([3, 100, 2048, 2049, 5000])), "att": bool(rng.random() < 0.4), "mir": mir, "bad": False}
        if rng.random() < 0.05:
            a["bad"] = True
        g1, g2 = list(a1), list(a2)
        if a["bad"]:
            bad = int(rng.choice([-1, -5, 2**31, 2**31 + 7]))
            (g1 if rng.random() < 0.5 else g2)[int(rng.integers(0, n))] = bad
        scalar = n == 1 and bool(rng.random() < 0.5)
        k = int(rng.integers(0, 4))
        typ = [list, tuple, lambda v: np.array(v, dtype=np.int64), lambda v: np.array(v, dtype=np.uint64 if min(v) >= 0 else np.int64)[::1]][k]
        if k == 2 and rng.random() < 0.4:
            typ = lambda v: np.repeat(np.array(v, dtype=np.int64), 2)[::2]  # noqa: E731
        kw = {"Nants_telescope": a["nants"]}
        if a["att"]:
            kw["attempt256"] = True
        if mir:
            kw["use_miriad_convention"] = True
        x1, x2 = (g1[0], g2[0]) if scalar else (typ(g1), typ(g2))
        out, res = call(blutils.antnums_to_baseline, x1, x2, **kw)
        nums = [] if out != "ok" else [pair31(res)] if scalar else [pair31(x) for x in res]
        rec.ev("Number", args=a, out=out, res=nums)
        if out != "ok" or mir:
            continue
        sub = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]] if rng.random() < 0.3 and not (a["att"] and max(a1 + a2) > 255) else list(range(n))
        vals = [int(res) if scalar else int(res[i]) for i in sub]
        if min(v >> 31 for v in vals) == 0 and len(sub) < n and max(a1 + a2) > 2047:
            sub, vals = list(range(n)), [int(x) for x in np.atleast_1d(res)]
        sc2 = len(vals) == 1 and bool(rng.random() < 0.5)
        bad = bool(rng.random() < 0.04)
        out2, r2 = call(blutils.baseline_to_antnums, (-3 if bad else vals[0]) if sc2 else [-3 if bad else vals[0], *vals[1:]] if rng.random() < 0.5
                        else np.array([-3 if bad else vals[0], *vals[1:]]), Nants_telescope=a["nants"])
        rr = [] if out2 != "ok" else [[int(r2[0]), int(r2[1])]] if sc2 else [[int(x), int(y)] for x, y in zip(*r2)]
        rec.ev("Antennas", args={"nums": [pair31(v) for v in vals], "nants": a["nants"], "bad": bad}, out=out2, res=rr)
        if not bad:
            out3, r3 = call(blutils.baseline_index_flip, vals[0] if sc2 else np.array(vals), Nants_telescope=a["nants"])
            rec.ev("Flip", args={"nums": [pair31(v) for v in vals], "nants": a["nants"]}, out=out3,
                   res=[] if out3 != "ok" else [pair31(r3)] if sc2 else [pair31(x) for x in r3])


def astr_term(rng, ants, feeds):
    """(abstract term, its text)"""
    k = float(rng.random())
    if k < 0.06:
        w = str(rng.choice(["auto", "cross"]))
        return {"kind": w, "i": [], "j": [], "one": True, "num": 0, "paren": False}, case(rng, w)
    if k < 0.12:
        w = int(rng.integers(1, 5))
        return {"kind": "stokes", "i": [], "j": [], "one": True, "num": w, "paren": False}, case(rng, "pI pQ pU pV".split()[w - 1])

    def ant(neg):
        d = {"neg": bool(rng.random() < neg), "num": int(rng.choice(ants)) if rng.random() < 0.93 else 97,
             "f": str(rng.choice(feeds)) if rng.random() < 0.3 else ""}
        return d, ("-" if d["neg"] else "") + str(d["num"]) + d["f"]

    def side():
        if rng.random() < 0.7:
            d, s = ant(0.12)
            return [d], s, False
        v = [ant(0.1) for _ in range(int(rng.integers(1, 4)))]
        return [x for x, _ in v], "(" + ",".join(s for _, s in v) + ")", True

    if rng.random() < 0.4:
        d, s = ant(0.3)
        return {"kind": "ants", "i": [d], "j": [], "one": True, "num": 0, "paren": False}, s
    i, si, pi = side()
    j, sj, _ = side()
    return {"kind": "ants", "i": i, "j": j, "one": False, "num": 0, "paren": pi}, si + "_" + sj


def sc_astr(rng, rec):
    tel = make_tel(rng, nants=int(rng.integers(3, 6)), x_orient=[None, "east", "north"][int(rng.integers(0, 3))])
    nums = [int(x) for x in tel.antenna_numbers]
    both = [(x, y) for i, x in enumerate(nums) for y in nums[i:]]
    prs = [both[i] if rng.random() < 0.6 else both[i][::-1] for i in rng.permutation(len(both))[:int(rng.integers(2, len(both) + 1))]]
    base = [[-1, -2, -3, -4], [-5, -6, -7, -8], [1, 2, 3, 4]][int(rng.choice(3, p=[0.3, 0.55, 0.15]))]
    pols = [int(x) for x in rng.permutation(base)[:int(rng.choice([1, 1, 2, 3, 4]))]]
    u = UVData.new(freq_array=np.array([1e8]), channel_width=1e5, polarization_array=pols, times=JD0 + np.arange(int(rng.integers(1, 3))) * 1e-3,
                   antpairs=prs, telescope=tel, integration_time=8.0, do_blt_outer=True)
    # how the pairs and polarizations are asked for
    data = {"pairs": [[int(x), int(y)] for x, y in sorted(set(zip(u.ant_1_array.tolist(), u.ant_2_array.tolist())))], "pols": pols}
    feeds = ["r", "l"] if base[0] == -1 else ["x", "y"]
    for _ in range(int(rng.integers(3, 7))):
        terms = [astr_term(rng, nums, feeds) for _ in range(int(rng.choice([1, 1, 2, 2, 3, 4])))]
        if rng.random() < 0.1:
            every = ({"kind": "all", "i": [], "j": [], "one": True, "num": 0, "paren": False}, case(rng, "all"))
            where = int(rng.integers(0, len(terms) + 1)) if rng.random() < 0.5 else 0
            terms = terms[:where] + [every] + terms[where:] if where or rng.random() < 0.6 else [every]
        text = ",".join(s for _, s in terms)
        bad = bool(rng.random() < 0.03)
        if bad:
            text += ",west"
        a = {"terms": [t for t, _ in terms], "bad": bad, "text": text}
        if rng.random() < 0.6:
            out, res = call(u.parse_ants if rng.random() < 0.6 else lambda s: blutils.parse_ants(u, s), text)
            r = {"nopairs": True, "pairs": [], "nopols": True, "pols": []}
            if out == "ok":
                p, q = res
                r = {"nopairs": p is None, "pairs": [[int(x), int(y)] for x, y in p or []], "nopols": q is None, "pols": [int(x) for x in q or []]}
            rec.ev("AntStr", args=a, data=data, out=out, res=r, **({"err": res} if out == "error" else {}))
        else:
            v, before = u.copy(), proj(u)
            inplace = bool(rng.random() < 0.5)
            out, res = call(v.select, ant_str=text, inplace=inplace)
            w = v if inplace else res
            r = {"pairs": [], "pols": []}
            if out == "ok":
                r = {"pairs": [[int(x), int(y)] for x, y in sorted(set(zip(w.ant_1_array.tolist(), w.ant_2_array.tolist())))],
                     "pols": [int(p) for p in w.polarization_array]}
            rec.ev("AntStrSelect", args=a, data=data, out=out, res=r, same=proj(v) == before, **({"err": res} if out == "error" else {}))


def run(chk):
    assert uvutils.polstr2num is not None
    t = chk.scenarios("names", sc_names, chk.n(500, 8000))
    t += chk.scenarios("bls", sc_bls, chk.n(500, 8000))
    t += chk.scenarios("astr", sc_astr, chk.n(700, 12000))
    chk.validate("TraceLabels", "TraceLabels.cfg", t, min_ops={"Num/ok": 300, "Name/ok": 300, "Number/ok": 800, "Antennas/ok": 700,
                                                               "AntStr/ok": 800, "AntStrSelect/ok": 300})
