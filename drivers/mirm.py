"""C31: the tables of metadata of SMA data sets (MIRM.tla)."""
import os

import numpy as np
from pyuvdata.uvdata import mir_meta_data as mm
from vf.harness import call

CLS = {
    "In": (mm.MirInData, ("inhid",), {"a": "isource", "b": "az", "c": "ints"}),
    "Bl": (mm.MirBlData, ("blhid",), {"a": "iant1", "b": "u", "c": "isb"}),
    "Sp": (mm.MirSpData, ("sphid",), {"a": "iband", "b": "fsky", "c": "nch"}),
    "Eng": (mm.MirEngData, ("antenna", "inhid"), {"a": "padNumber", "b": "tsys", "c": "trackStatus"}),
    # (x, y, z) of one array
    "Ant": (mm.MirAntposData, ("antenna",), {"a": 0, "b": 1, "c": 2}),
}
COMPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


class World:
    def __init__(self, rng, rec, name=None):
        self.rng, self.rec = rng, rec
        self.name = name or str(rng.choice(["In", "Bl", "Sp", "Eng", "Eng"]))
        self.cls, self.key, self.fl = CLS[self.name]
        self.tabs, self.files = {}, {}
        self.rests = list(self.cls().dtype.names)
        self.rests = [x for x in self.rests if x not in self.key and x not in self.fl.values()]
        self.ant = self.name == "Ant"

    def k(self, v):
        return "/".join(str(int(x)) for x in (v if isinstance(v, tuple) else (v,)))

    def proj(self, t):
        rows = []
        for i in range(t._data.size):
            r = t._data[i]
            if self.ant:
                rows.append({"k": str(int(r["antenna"])), "f": {n: int(round(r["xyz_pos"][c])) for n, c in self.fl.items()},
                             "rest": ",".join(float(x).hex() for x in r["xyz_pos"])})
                continue
            rows.append({"k": "/".join(str(int(r[x])) for x in self.key), "f": {n: int(r[c]) for n, c in self.fl.items()},
                         "rest": ",".join(str(r[x]) for x in self.rests if r[x])})
        return {"rows": rows, "mask": [bool(x) for x in t._mask]}

    def ev(self, op, **kw):
        self.rec.ev(op, post={o: self.proj(t) for o, t in self.tabs.items()}, **kw)

    def make(self, o, like=None):
        rng = self.rng
        n = int(rng.integers(1, 8))
        if len(self.key) == 1:
            ks = [(int(x),) for x in rng.permutation(12)[:n] + int(rng.choice([0, 1, 5]))]
        else:
            ks = [(int(x) // 4 + 1, int(x) % 4 + 1) for x in rng.permutation(16)[:n]]
        if rng.random() < 0.4:
            ks = sorted(ks)
        d = np.zeros(n, dtype=self.cls().dtype)
        for i, kk in enumerate(ks):
            for c, v in zip(self.key, kk):
                d[c][i] = v
            for c in self.fl.values():
                if self.ant:
                    d["xyz_pos"][i][c] = rng.integers(0, 4) + rng.random() / 3
                else:
                    d[c][i] = int(rng.integers(0, 4))
            if not self.ant:
                d[self.rests[-1]][i] = int(rng.integers(1, 1000))
            if like is not None:
                p = [j for j in range(like._data.size) if all(like._data[c][j] == v for c, v in zip(self.key, kk))]
                if p and rng.random() < 0.85:
                    d[i] = like._data[p[0]]
        if like is not None and rng.random() < 0.35:
            d = like._data[rng.permutation(like._data.size)].copy() if rng.random() < 0.5 else like._data.copy()
        t = self.cls(d)
        if rng.random() < 0.5:
            m = rng.random(t._data.size) < 0.6
            t.set_mask(mask=m)
        self.tabs[o] = t
        self.ev("Make", o=o)

    # ----------------------------------------------------------------- queries
    def cond(self):
        rng = self.rng
        fld = str(rng.choice(["a", "b", "c"])) if rng.random() < 0.95 else "zz"
        cmp_ = str(rng.choice(["eq", "eq", "ne", "lt", "le", "gt", "ge", "between", "outside"]))
        many = cmp_ in ("eq", "ne") and rng.random() < 0.4
        if cmp_ in ("between", "outside"):
            v = sorted(int(x) for x in rng.integers(0, 4, 2))
        else:
            v = [int(x) for x in rng.integers(0, 4, int(rng.integers(1, 4)) if many else 1)]
        val = v if cmp_ in ("between", "outside") or many else v[0]
        if many:
            val = [list, tuple, set, np.array][int(rng.integers(0, 4))](v)
        py = (self.fl.get(fld, "nofield"), COMPS[cmp_] if cmp_ in COMPS and rng.random() < 0.5 else cmp_, val)
        return {"fld": fld, "cmp": cmp_, "v": v}, py

    def query(self, t, um=True, kinds=("all", "where", "where", "key", "index")):
        rng = self.rng
        if self.ant:
            kinds = [k for k in kinds if k != "where"]
        q = {"kind": str(rng.choice(kinds)), "um": "", "where": [], "conj": True, "keys": [], "index": [], "twice": False}
        kw = {}
        if um and rng.random() < 0.5:
            q["um"] = str(rng.choice(["yes", "no", "no"]))
            if q["kind"] in ("key", "index") and rng.random() < 0.8:
                q["um"] = "no"
            kw["use_mask"] = q["um"] == "yes"
        n = t._data.size
        if q["kind"] == "where":
            cs = [self.cond() for _ in range(int(rng.choice([1, 1, 2, 3])))]
            q["where"] = [c for c, _ in cs]
            kw["where"] = cs[0][1] if len(cs) == 1 and rng.random() < 0.6 else [p for _, p in cs]
            if rng.random() < 0.5:
                q["conj"] = kw["and_where_args"] = bool(rng.random() < 0.4)
        elif q["kind"] == "key":
            ks = [tuple(int(t._data[c][i]) for c in self.key) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]] if n else []
            if rng.random() < 0.05 or not ks:
                ks.append((99,) * len(self.key))
            q["keys"] = [self.k(x) for x in ks]
            v = [x[0] for x in ks] if len(self.key) == 1 else ks
            kw["header_key"] = np.array(v) if len(self.key) == 1 and rng.random() < 0.5 else v
        elif q["kind"] == "index":
            ix = [int(x) for x in rng.permutation(n)[:int(rng.integers(0, n + 1))]]
            q["index"] = ix
            kw["index"] = np.array(ix, dtype=int) if rng.random() < 0.5 or not ix else ix
        if q["kind"] in ("where", "key") and rng.random() < 0.02:
            q["twice"], kw["index"] = True, [0]
        return q, kw

    def pick(self):
        return str(self.rng.choice(list(self.tabs)))

    def op(self, ops=None):
        rng = self.rng
        o = self.pick()
        t = self.tabs[o]
        op = str(rng.choice(ops or ["Get", "Get", "Keys", "GetMask", "Where", "Iter", "Group", "Group", "SetMask", "SetMask", "SetValue", "SetValue",
                             "ResetValues", "Reset", "Copy", "Add", "Add", "Add", "Equal", "Equal", "Write", "Write", "Read", "Make"]))
        getattr(self, "do_" + op)(o, t)

    def done(self, op, out, res, conv, **kw):
        r = []
        if out == "ok":
            r = conv(res)
        else:
            kw["err"] = res
        self.ev(op, out=out, res=r, **kw)

    def do_Get(self, o, t):
        rng = self.rng
        q, kw = self.query(t)
        fl = [str(x) for x in rng.permutation(["a", "b", "c"])[:int(rng.integers(1, 4))]]
        one = len(fl) == 1 and rng.random() < 0.7
        if one and rng.random() < 0.2 and q["kind"] == "all" and q["um"] == "":
            out, res = call(t.__getitem__, self.fl[fl[0]])
            conv = lambda r: [[int(x)] for x in r]  # noqa: E731
        else:
            rt = [None, True, False][int(rng.integers(0, 3))]
            out, res = call(t.get_value, self.fl[fl[0]] if one else [self.fl[f] for f in fl], return_tuples=rt, **kw)
            if rt or (rt is None and not one):
                conv = lambda r: [[int(x) for x in v] for v in r]  # noqa: E731
            elif one:
                conv = lambda r: [[int(x)] for x in r]  # noqa: E731
            else:
                conv = lambda r: [[int(x) for x in v] for v in zip(*r, strict=True)]  # noqa: E731
        self.done("Get", out, res, conv, o=o, args={"q": q, "flds": fl})

    def do_Keys(self, o, t):
        q, kw = self.query(t, kinds=("all", "where", "where", "index"))
        fl = bool(self.rng.random() < 0.3)
        out, res = call(t.get_header_keys, force_list=fl, **kw)
        conv = lambda r: [self.k(x) for x in (zip(*r, strict=True) if fl else r)]  # noqa: E731
        self.done("Keys", out, res, conv, o=o, args={"q": q})

    def do_GetMask(self, o, t):
        q, kw = self.query(t, um=False)
        out, res = call(t.get_mask, **kw)
        self.done("GetMask", out, res, lambda r: [bool(x) for x in r], o=o, args={"q": q})

    def do_Where(self, o, t):
        w, py = self.cond()
        m = [bool(x) for x in self.rng.random(t._data.size) < 0.6] if self.rng.random() < 0.4 else []
        keys = bool(self.rng.random() < 0.5)
        out, res = call(t.where, *py, mask=np.array(m) if m else None, return_header_keys=keys)
        self.done("Where", out, res, lambda r: [self.k(x) for x in r] if keys else ["T" if x else "F" for x in r], o=o,
                  args={"w": w, "mask": m, "keys": keys})

    def do_Iter(self, o, t):
        out, res = call(lambda: [self.k(tuple(int(r[c]) for c in self.key)) for r in t])
        self.done("Iter", out, res, list, o=o, args={"x": 0}, n=int(len(t)))

    def do_Group(self, o, t):
        rng = self.rng
        q, kw = self.query(t, um=False, kinds=("all", "where", "key"))
        kw.pop("and_where_args", None)
        q["conj"] = True
        index = bool(rng.random() < 0.5) and q["kind"] != "key"
        if q["twice"]:
            q["twice"] = False
            kw.pop("index")
        if q["kind"] == "key":
            q["um"], kw["use_mask"] = "no", False
        elif rng.random() < 0.4:
            q["um"], kw["use_mask"] = "no", False
        fl = [str(x) for x in rng.permutation(["a", "b", "c"])[:int(rng.integers(1, 4))]]
        one = len(fl) == 1
        out, res = call(t.group_by, self.fl[fl[0]] if one and rng.random() < 0.6 else [self.fl[f] for f in fl], return_index=index, **kw)

        def conv(r):
            return [{"name": [int(g)] if one else [int(x) for x in g], "members": [str(int(x)) if index else self.k(x) for x in v]} for g, v in r.items()]
        self.done("Group", out, res, conv, o=o, args={"q": q, "flds": fl, "index": index})

    def do_SetMask(self, o, t):
        rng = self.rng
        reset = bool(rng.random() < 0.25)
        conj = True if reset or t._mask.all() else bool(rng.random() < 0.6)
        a = {"kind": "query", "own": False, "mask": [], "q": {}, "reset": reset, "conj": conj}
        kw = {"reset": reset, "and_mask": conj}
        if rng.random() < 0.3:
            a["kind"] = "mask"
            a["own"] = bool(rng.random() < 0.5) and not reset
            a["mask"] = [bool(x) for x in rng.random(int(t._mask.sum()) if a["own"] else t._data.size) < 0.6]
            kw["mask"], kw["use_mask"] = np.array(a["mask"], dtype=bool), a["own"]
            a["q"] = {"kind": "all", "um": "no", "where": [], "conj": True, "keys": [], "index": [], "twice": False}
        else:
            a["q"], k2 = self.query(t, um=False)
            kw.update(k2)
        out, res = call(t.set_mask, **kw)
        self.done("SetMask", out, res, bool, o=o, args=a)

    def do_SetValue(self, o, t):
        rng = self.rng
        fld = str(rng.choice(["a", "b", "c"]))
        q, kw = self.query(t)
        # as many values as the real query finds rows, or one for all
        out, rows = call(t.get_value, self.fl[fld], **kw)
        if out == "ok" and q["kind"] == "where":
            rows = [0] * self.nrows(t, q)
        n = len(rows) if out == "ok" else 1
        v = [int(x) for x in rng.integers(0, 6, n)]
        if rng.random() < 0.5 or n == 0:
            v = [int(rng.integers(0, 6))] * n
            val = v[0] if v else 3
        else:
            val = np.array(v) if rng.random() < 0.5 else v
        if q["kind"] == "all" and q["um"] == "" and rng.random() < 0.3:
            out, res = call(t.__setitem__, self.fl[fld], val)
        else:
            out, res = call(t.set_value, self.fl[fld], val, **kw)
        self.done("SetValue", out, res, lambda r: [], o=o, args={"fld": fld, "q": q, "vals": v})

    def nrows(self, t, q):
        """How many rows meet the conditions."""
        import operator as op_
        n = 0
        for i in range(t._data.size):
            r = [] if q["um"] == "no" else [bool(t._mask[i])]
            for w in q["where"]:
                if w["fld"] not in self.fl:
                    continue
                x, v = int(t._data[self.fl[w["fld"]]][i]), w["v"]
                r.append({"eq": x in v, "ne": x not in v, "between": v[0] <= x <= v[-1], "outside": x < v[0] or x > v[-1]}[w["cmp"]]
                         if w["cmp"] in ("eq", "ne", "between", "outside") else getattr(op_, w["cmp"])(x, v[0]))
            n += bool(r) and (all(r) if q["conj"] else any(r))
        return n

    def do_ResetValues(self, o, t):
        rng = self.rng
        every = bool(rng.random() < 0.5)
        fl = [] if every else [str(x) for x in rng.permutation(["a", "b", "c"])[:int(rng.integers(1, 3))]]
        out, res = call(t.reset_values, *([] if every else [self.fl[fl[0]] if len(fl) == 1 and rng.random() < 0.5 else [self.fl[f] for f in fl]]))
        self.done("ResetValues", out, res, lambda r: [], o=o, args={"every": every, "flds": fl})

    def do_Reset(self, o, t):
        out, res = call(t.reset)
        self.done("Reset", out, res, lambda r: [], o=o, args={"x": 0})

    def new(self):
        return str(self.rng.choice(["p", "q", "r"]))

    def do_Copy(self, o, t):
        r = self.new()
        if r == o:
            return
        out, res = call(t.copy)
        if out == "ok":
            self.tabs[r] = res
        self.done("Copy", out, res, lambda x: [], o=o, r=r, args={"x": 0})

    def do_Make(self, o, t):
        self.make(self.new(), like=t if self.rng.random() < 0.7 else None)

    def do_Add(self, o, t):
        rng = self.rng
        b = self.pick()
        a = {"merge": str(rng.choice(["", "", "yes", "no"])), "ow": str(rng.choice(["", "", "yes", "no"])), "discard": bool(rng.random() < 0.3)}
        ip = bool(rng.random() < 0.4)
        kw = {"merge": {"": None, "yes": True, "no": False}[a["merge"]], "overwrite": {"": None, "yes": True, "no": False}[a["ow"]],
              "discard_flagged": a["discard"]}
        if b == o:
            return
        if a == {"merge": "", "ow": "", "discard": False} and not ip and rng.random() < 0.4:
            out, res = call(lambda: t + self.tabs[b])
        elif ip and rng.random() < 0.4:
            out, res = call(t.__iadd__, self.tabs[b], **kw)
        else:
            out, res = call(t.__add__, self.tabs[b], inplace=ip, **kw)
        r = o if ip else self.new()
        if out == "ok":
            self.tabs[r] = res
        self.done("Add", out, res, lambda x: [], o=o, b=b, r=r, args=a)

    def do_Equal(self, o, t):
        rng = self.rng
        b = self.pick()
        a = {"um": bool(rng.random() < 0.3), "cm": bool(rng.random() < 0.6), "ignore": [f for f in "abc" if rng.random() < 0.15 and not self.ant]}
        k = dict(use_mask=a["um"], comp_mask=a["cm"], ignore_params=[self.fl[f] for f in a["ignore"]] or None, verbose=bool(rng.random() < 0.2))
        if rng.random() < 0.5:
            out, res = call(t.__eq__, self.tabs[b], **k)
        else:
            out, res = call(lambda: not t.__ne__(self.tabs[b], **k))
        self.done("Equal", out, res, bool, o=o, b=b, args=a)

    def do_Write(self, o, t):
        rng = self.rng
        path = str(rng.choice(["d1", "d2"]))
        a = {"ow": bool(rng.random() < 0.4), "app": bool(rng.random() < 0.5), "chk": bool(rng.random() < 0.8)}
        act = {self.k(tuple(int(r[c]) for c in self.key)) for r in t}
        if a["app"] and not a["chk"] and act & self.files.get(path, set()):
            a["chk"] = True
        out, res = call(t.write, os.path.join(self.rec.scratch, path), overwrite=a["ow"], append_data=a["app"], check_index=a["chk"])
        if out == "ok":
            self.files[path] = act | (self.files.get(path, set()) if a["app"] else set())
        self.done("Write", out, res, lambda x: [], o=o, path=path, args=a)

    def do_Read(self, o, t):
        rng = self.rng
        if not self.files:
            return
        path = str(rng.choice(list(self.files)))
        r = self.new()
        p = os.path.join(self.rec.scratch, path)
        k = rng.random()
        if k < 0.4 and r in self.tabs:
            n = self.tabs[r]
            out, res = call(n.read, p)
        elif k < 0.7:
            n = self.cls()
            out, res = call(n.read, p)
        else:
            out, res = call(self.cls, p)
            n = res
        if out == "ok":
            self.tabs[r] = n
        self.done("Read", out, res, lambda x: [], r=r, path=path, args={"x": 0})


def sc(rng, rec):
    w = World(rng, rec)
    w.make("p")
    w.make("q", like=w.tabs["p"])
    for _ in range(int(rng.integers(8, 22))):
        w.op()


def sc_text(rng, rec):
    """Antenna positions are a text file; three positions per antenna, which come back exactly."""
    w = World(rng, rec, "Ant")
    w.make("p")
    w.make("q", like=w.tabs["p"])
    ops = ["Keys", "GetMask", "Iter", "SetMask", "Copy", "Add", "Add", "Equal", "Write", "Write", "Write", "Read", "Read", "Make"]
    for _ in range(int(rng.integers(6, 16))):
        w.op(ops)


def run(chk):
    t = chk.scenarios("mirm", sc, chk.n(900, 12000))
    t += chk.scenarios("mirtext", sc_text, chk.n(200, 3000))
    chk.validate("TraceMirm", "TraceMirm.cfg", t, min_ops={"Get/ok": 500, "SetMask/ok": 500, "SetValue/ok": 500, "Group/ok": 500, "Add/ok": 400,
                                                          "Equal/ok": 400, "Read/ok": 150, "Write/ok": 300})
