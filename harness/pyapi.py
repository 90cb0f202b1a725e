"""Recorder for the Python interface: histories of arrays, calls and files.
Run by the system's Python with the freshly built _richdem on its path."""
import warnings; warnings.filterwarnings("ignore")
import argparse, io, json, math, os, random, re, shutil, signal, sys, traceback
import numpy as np

ap = argparse.ArgumentParser()
for a, t, d in (("seed", int, 1), ("n", int, 10), ("tier", str, "quick"), ("out", str, ""), ("dir", str, "."), ("only", int, -1)):
    ap.add_argument("--" + a, type=t, default=d)
OPT = ap.parse_args()
import richdem as rd
from richdem import cli, depression_hierarchy as dh
from osgeo import gdal, osr
gdal.UseExceptions(); gdal.PushErrorHandler("CPLQuietErrorHandler")

BIG = 2000000001
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]
FLTS = ["float32", "float64"]
KEEP = {"uint8", "int16", "int32", "uint16", "uint32", "float32"}


def rnd(v):
    v = float(v)
    return int(math.floor(v + .5)) if math.isfinite(v) and abs(v) < 2e9 else BIG


def geostr(g):
    return "none" if g is None else ",".join(f"{float(x):.10g}" for x in g)


class H:
    """one history"""
    def __init__(self, rng, d):
        self.r, self.d, self.ids, self.vars, self.ops, self.files = rng, d, {}, [], [], []
        # elevations: small integers, or integer numbers of representable steps over a base
        self.between = False
        self.steps = rng.random() < .25
        if self.steps:
            self.dt = rng.choice(FLTS)
            self.base, self.ulp = (1024.0, 2.0 ** -13) if self.dt == "float32" else (2.0 ** 43, 2.0 ** -9)
            self.gap = rng.choice([1, 64, 64, 256])
        else:
            self.dt = rng.choice(INTS + FLTS * 4)
            self.base, self.ulp, self.gap = 0, 1, 1
        self.nd = self.pick_nd()

    def pick_nd(self):
        r = self.r
        if self.dt.startswith("u"):
            return r.choice([0, 0.0])
        if self.dt == "int8":
            return r.choice([-1, -99, -128, 0])
        if self.dt.startswith("int"):
            return r.choice([-9999, -9999.0, -1, 0])
        c = [-9999, -9999.0, -9999.9, -3.4028234663852886e38, np.float32(-9999.9), -1]
        if self.dt == "float64":
            c += [-1.7976931348623157e308, -0.1 - 2 ** 20]
        return r.choice(c + ([0] if not self.steps else []))

    # -- observation
    def key(self, v):
        v = v.item() if hasattr(v, "item") else v
        if isinstance(v, float) and math.isnan(v):
            v = "nan"
        return self.ids.setdefault(v, len(self.ids) + 1)

    def cells(self, a):
        return [self.key(x) for x in np.asarray(a).ravel()]

    def ndkey(self, a):
        if a.no_data is None:
            return 0
        return self.key(np.array(a.no_data).astype(a.dtype)[()])

    def hist(self, md):
        out = []
        for l in (md or {}).get("PROCESSING_HISTORY", "").split("\n"):
            if l.strip():
                out.append(re.split(r"[( ]", l.split(" | ", 2)[2])[0] if l.count(" | ") >= 2 else "?")
        return out

    def keys(self, md):
        return sorted(f"{k}={v}" for k, v in (md or {}).items() if k not in ("PROCESSING_HISTORY", "AREA_OR_POINT"))

    def meta(self, a):
        if type(a) is np.ndarray:
            return {"nd": 0, "geo": "np", "proj": "np", "hist": [], "keys": [], "ty": str(a.dtype)}
        return {"nd": self.ndkey(a), "geo": geostr(a.geotransform), "proj": a.projection or "", "hist": self.hist(a.metadata),
                "keys": self.keys(a.metadata), "ty": str(a.dtype)}

    def see(self):
        S = [{"v": self.cells(v["a"]), "w": v["a"].shape[1], "h": v["a"].shape[0], "m": self.meta(v["a"])} for v in self.vars]
        F = []
        for f in self.files:
            ds = gdal.Open(f); b = ds.GetRasterBand(1); a = b.ReadAsArray(); md = ds.GetMetadata(); nd = b.GetNoDataValue()
            F.append({"v": self.cells(a), "w": a.shape[1], "h": a.shape[0],
                      "m": {"nd": 0 if nd is None else self.key(np.array(nd).astype(a.dtype)[()]), "geo": geostr(ds.GetGeoTransform()), "proj": ds.GetProjectionRef(),
                            "hist": self.hist(md), "keys": self.keys(md), "ty": str(a.dtype)}})
            ds = None
        return S, F

    def push(self, o, fn="", err=False, bad=False, k=None, **kw):
        S, F = self.see()
        if self.between:   # heights between the representable ones: nothing said about the result
            k = None
        self.between = False
        self.ops.append({"o": o, "fn": fn, "err": err, "bad": bad, "k": k or {"rel": "none"}, "S": S, "F": F, **kw})

    # -- elevations as numbers
    def enc(self, a, ndid=None):
        first = ndid is None
        ndid = self.ndkey(a) if first else ndid
        out, nd = [], []
        for x in np.asarray(a).ravel():
            isnd = self.key(x) == ndid
            nd.append(int(isnd))
            q = 0 if isnd else (x.item() - self.base) / self.ulp
            self.between |= first and q != rnd(q)
            out.append(-1 if isnd else rnd(q))
        return out, nd

    @staticmethod
    def rise(p, q):
        n = 0
        while p != q and n < 99:
            p = np.nextafter(p, q); n += 1
        return n

    def dims(self, a):
        return {"w": a.shape[1], "h": a.shape[0]}

    # -- making arrays
    def geo(self):
        r = self.r
        lx = r.choice([1, 1, 1, 2, 3]); ly = r.choice([lx, lx, 1, 2])
        g = r.choice([(0, lx, 0, 0, 0, -ly), [0.5, float(lx), 0, -7.25, 0, -float(ly)], np.array([3, lx, 0, 4, 0, -ly])])
        return (None, g)[r.random() > .1]

    def add(self, a, role, **kw):
        self.vars.append({"a": a, "role": role, **kw})
        return len(self.vars)

    def new_dem(self, dtype=None, mx=7):
        r = self.r
        w, h = r.randint(2, mx), r.randint(2, mx)
        top = r.choice([3, 9, 15, 40])
        z = [r.randint(0, top) for _ in range(w * h)]
        if r.random() < .3:
            z = [min(v, r.choice([2, 3, 5])) for v in z]
        if r.random() < .3:   # a bowl, so that something is there to fill
            for y in range(h):
                for x in range(w):
                    if x in (0, w - 1) or y in (0, h - 1):
                        z[y * w + x] = min(40, z[y * w + x] + r.randint(2, 9))
        lift = 1 if float(self.nd) == 0 and not self.steps else 0
        dt = np.dtype(dtype or self.dt)
        v = np.array([(q * self.gap + lift) * self.ulp + self.base for q in z]).astype(dt).reshape(h, w)
        if r.random() < .35:   # NoData along the edge
            for _ in range(r.randint(1, 4)):
                y, x = r.choice([(0, r.randrange(w)), (h - 1, r.randrange(w)), (r.randrange(h), 0), (r.randrange(h), w - 1)])
                v[y, x] = np.array(self.nd).astype(dt)
        v = np.array(v, order=r.choice("CCF"))
        g, pr = self.geo(), r.choice(["", "", PROJ])
        a = rd.rdarray(v, no_data=self.nd, **({"geotransform": g} if g is not None and r.random() < .5 else {}))
        a.geotransform = g; a.projection = pr
        if r.random() < .5:
            a.metadata["k" + str(r.randint(1, 3))] = "v" + str(r.randint(1, 9))
        m = {"nd": self.key(np.array(self.nd).astype(dt)[()]), "geo": geostr(g), "proj": pr, "hist": [], "keys": self.keys(a.metadata), "ty": str(dt)}
        i = self.add(a, "dem")
        self.push("new", v=self.cells(v), w=w, h=h, k3=1, m=m)
        return i

    def new_weights(self, dem, dtype="float64", shape=None):
        r = self.r
        h, w = shape or dem.shape
        v = np.array([r.choice([0, 1, 1, 2, 5, 9]) for _ in range(w * h)], dtype=dtype).reshape(h, w)
        v = np.array(v, order=r.choice("CF"))
        if r.random() < .4:
            i = self.add(v, "weights")
            self.push("new", v=self.cells(v), w=w, h=h, k3=1, m={"nd": 0, "geo": "np", "proj": "np", "hist": [], "keys": [], "ty": dtype})
        else:
            a = rd.rdarray(v, no_data=-5); g = self.geo(); a.geotransform = g
            i = self.add(a, "weights")
            self.push("new", v=self.cells(v), w=w, h=h, k3=1, m={"nd": self.key(np.array(-5.).astype(dtype)[()]), "geo": geostr(g), "proj": "", "hist": [], "keys": [], "ty": dtype})
        return i

    def of(self, *roles):
        c = [i + 1 for i, v in enumerate(self.vars) if v["role"] in roles]
        return self.r.choice(c) if c else None

    def var(self, i):
        return self.vars[i - 1]["a"]

    # -- steps
    def view(self):
        r = self.r
        i = self.of("dem", "weights", "labels", "wtd") if r.random() < .85 else r.choice([j + 1 for j, v in enumerate(self.vars) if v["a"].ndim == 2])
        a = self.var(i)

        def part(n):
            while True:
                s = r.choice([1, 1, 1, -1, 2]); x0 = r.randrange(n); k = r.randint(1, n)
                if r.random() < .5:
                    x0, k, s = 0, n, 1
                if 0 <= x0 + s * (k - 1) < n:
                    stop = x0 + s * k
                    return x0, s, k, slice(x0, None if stop < 0 else stop, s)
        y0, sy, ny, ys = part(a.shape[0]); x0, sx, nx, xs = part(a.shape[1])
        tr = r.random() < .4
        b = a[ys, xs]
        if tr:
            b = b.T
        self.add(b, self.vars[i - 1]["role"] if self.vars[i - 1]["role"] in ("dem", "weights") else "other")
        self.push("view", a=i, win={"tr": tr, "y0": y0, "sy": sy, "ny": ny, "x0": x0, "sx": sx, "nx": nx})

    def copy(self):
        i = self.r.choice([j + 1 for j, v in enumerate(self.vars) if v["a"].ndim == 2])
        self.add(self.var(i).copy(), self.vars[i - 1]["role"])
        self.push("copy", a=i)

    def write(self):
        i = self.of("dem", "weights", "weights", "accum", "attr")
        if i is None:
            return
        a, r = self.var(i), self.r
        y, x = r.randrange(a.shape[0]), r.randrange(a.shape[1])
        if self.vars[i - 1]["role"] == "dem":
            v = (r.randint(1, 20) * self.gap) * self.ulp + self.base
        else:
            v = r.randint(1, 9)
        a[y, x] = v
        self.push("set", a=i, i=y * a.shape[1] + x + 1, x=self.key(a[y, x]))

    def attrs(self):
        i = self.r.choice([j + 1 for j, v in enumerate(self.vars) if type(v["a"]) is rd.rdarray])
        a, r = self.var(i), self.r
        m = self.meta(a)
        w = r.randint(0, 2)
        if w == 0:
            g = (1, 2, 0, r.randint(1, 9), 0, -2); a.geotransform = g; m["geo"] = geostr(g)
        elif w == 1:
            a.projection = PROJ if a.projection == "" else ""; m["proj"] = a.projection
        else:
            v = r.randint(10, 99); a.metadata["n"] = str(v); m["keys"] = sorted([q for q in m["keys"] if not q.startswith("n=")] + [f"n={v}"])
        self.push("attrs", a=i, m=m)

    def attempt(self, f):
        try:
            return f(), False
        except SystemExit:
            return None, True
        except Exception as e:
            if os.environ.get("VT_TRACE"):
                traceback.print_exc(file=open("/tmp/pytrace", "a"))
            return None, True

    def change(self):
        r = self.r
        i = self.of("dem")
        a = self.var(i)
        z, nd = self.enc(a)
        isint = a.dtype.kind in "iu"
        fn = r.choice(["FillDepressions"] * 3 + ["BreachDepressions", "ResolveFlats"])
        topo, inplace = r.choice(["D8", "D4"]), r.random() < .5
        eps = fn == "FillDepressions" and (self.steps and r.random() < .5 or isint and r.random() < .2)
        kw = {"in_place": inplace}
        if fn != "ResolveFlats" and (topo == "D4" or r.random() < .5):
            kw["topology"] = topo
        if eps:
            kw["epsilon"] = True
        bad = eps and isint
        ndid = self.ndkey(a)
        was = np.array(a, copy=True).ravel()
        res, err = self.attempt(lambda: getattr(rd, fn)(a, **kw))
        k = None
        if not err and not bad:
            t = a if inplace else res
            if not inplace:
                self.add(res, "dem")
            out, _ = self.enc(t, ndid)
            c = {"w": a.shape[1], "h": a.shape[0], "topo": 8 if topo == "D8" else 4, "z": z, "nd": nd, "out": out}
            if eps:
                k = {"rel": "eps", "refused": True, "intact": True, **c}
            elif fn == "FillDepressions":
                k = {"rel": "fill", **c}
            elif fn == "BreachDepressions":
                k = {"rel": "breach", "mode": "complete", "fill": False, "eps": False, "ml": 0, "mdep": 0, **c}
            else:
                k = {"rel": "flats", **c}
                if not isint and not self.steps:   # raised by how many representable numbers
                    k["out"] = [-1 if b < 0 else b + self.rise(p, q) for b, p, q in zip(z, was, np.asarray(t).ravel())]
            if inplace and res is not None:
                err = True
        self.push("change", fn=fn, a=i, inplace=inplace, err=err, bad=bad, k=k)

    METH = [("D8", "d8", "one"), ("OCallaghanD8", "d8", "one"), ("D4", "d4", "one"), ("OCallaghanD4", "d4", "one"), ("Quinn", "holmgren", "one"),
            ("Freeman", "freeman", "x"), ("Holmgren", "holmgren", "x"), ("Tarboton", "dinf", "one"), ("Dinf", "dinf", "one"),
            ("Rho8", "rho8", "one"), ("Rho4", "rho4", "one"), ("FairfieldLeymarieD8", "rho8", "one"), ("FairfieldLeymarieD4", "rho4", "one")]

    def method(self, z):
        r = self.r
        name, metric, xp = r.choice(self.METH)
        kw = {"method": name}
        if xp == "x":
            xp, e = r.choice([("one", 1), ("two", 2.0), ("four", 4), ("half", .5), ("other", 1.1)])
            if xp == "four" and max(z) > 9:
                xp, e = "one", 1.0
            kw["exponent"] = e
        if max(z) > 45 and metric not in ("d8", "d4", "rho8", "rho4"):
            metric = "any"
        return kw, metric, xp

    @staticmethod
    def shares(p, U):
        out = []
        for c in np.asarray(p).reshape(-1, 9):
            for n, v in enumerate(c):
                v = float(v)
                if n == 0 or v in (-1.0, -2.0):
                    out.append(rnd(v))
                elif not (0 <= v <= 1.0001):
                    out.append(-777)
                else:
                    out.append(0 if v == 0 else min(U, max(1, rnd(v * U))))
        return out

    def acc16(self, a):
        return [rnd(16 * float(x)) for x in np.asarray(a).ravel()]

    def weights_for(self, shape):
        r = self.r
        c = [i + 1 for i, v in enumerate(self.vars) if v["role"] == "weights" and v["a"].shape == shape]
        if c and r.random() < .7:
            return r.choice(c)
        return 0

    def accum(self):
        r = self.r
        props = self.of("props") if r.random() < .4 else None
        if props is not None:
            p0 = self.var(props); shape = p0.shape[:2]
        else:
            i = self.of("dem"); dem = self.var(i); shape = dem.shape
        if r.random() < .5 and not self.weights_for(shape):
            self.new_weights(None, shape=shape)
        wa = self.weights_for(shape)
        wt = self.var(wa) if wa else None
        wv = [float(x) for x in np.asarray(wt).ravel()] if wa else [1.0] * (shape[0] * shape[1])
        whole = all(x == int(x) and 0 <= x <= 300 for x in wv)
        inplace = r.random() < .5
        kw = {"in_place": inplace} if inplace or r.random() < .5 else {}
        if wa:
            kw["weights"] = wt
        if props is not None:
            a, fn, metric, xp = props, "FlowAccumFromProps", "any", "one"
            p = np.array(p0)
            res, err = self.attempt(lambda: rd.FlowAccumFromProps(p0, **kw))
            z = nd = []
        else:
            a, fn = i, "FlowAccumulation"
            z, nd = self.enc(dem)
            mk, metric, xp = self.method(z)
            p = None
            if not metric.startswith("rho"):
                q, e2 = self.attempt(lambda: rd.FlowProportions(dem, **mk))
                if not e2:
                    p = np.array(q)
            res, err = self.attempt(lambda: rd.FlowAccumulation(dem, **mk, **kw))
        k = None
        if not err:
            self.add(res, "accum")
            base = {"w": shape[1], "h": shape[0], "acc": self.acc16(res), "wt": [int(x) for x in wv]}
            if whole and metric.startswith("rho"):
                k = {"rel": "rho", "topo": 4 if metric == "rho4" else 8, "z": z, "nd": nd, **base}
            elif whole and p is not None:
                k = {"rel": "accum", "metric": metric, "xp": xp, "z": z, "nd": nd, "p": self.shares(p, 4096), "p64": self.shares(p, 65536) if metric != "any" else [],
                     "accnd": rnd(res.no_data), "wh": [], "same": True, "refused": True, **base}
                k["p"] = [max(0, v) if n % 9 else v for n, v in enumerate(k["p"])]
        self.push("accum", fn=fn, a=a, wa=wa, inplace=inplace, err=err, nd=self.key(-1.0), k=k)

    def derive(self):
        r = self.r
        i = self.of("dem"); dem = self.var(i)
        z, nd = self.enc(dem)
        if r.random() < .5 and not any(v["role"] == "props" for v in self.vars):
            mk, metric, xp = self.method(z)
            res, err = self.attempt(lambda: rd.FlowProportions(dem, **mk))
            k = None
            if not err:
                self.add(res, "props")
                if metric != "any":
                    k = {"rel": "props", "metric": metric, "xp": xp, "z": z, "nd": nd, "p": self.shares(res, 65536), **self.dims(dem)}
            self.push("derive", fn="FlowProportions", a=i, err=err, nd=self.key(-2.0), k3=9, k=k)
            return
        name = r.choice(["slope_riserun", "slope_percentage", "slope_degrees", "slope_radians", "aspect", "curvature", "planform_curvature", "profile_curvature"])
        zs2 = r.choice([2, 2, 1, 4])
        kw = {"zscale": zs2 / 2} if zs2 != 2 or r.random() < .3 else {}
        res, err = self.attempt(lambda: rd.TerrainAttribute(dem, attrib=name, **kw))
        k = None
        if not err:
            self.add(res, "attr")
            k = self.attr_rel(dem.geotransform, dem.shape, z, nd, zs2, name, np.asarray(res).ravel(), res.no_data)
        self.push("derive", fn="TerrainAttribute", a=i, err=err, nd=self.key(-9999.0), k3=1, k=k)

    def attr_rel(self, geo, shape, z, nd, zs2, name, vals, ndv):
        g = geo if geo is not None else (0, 1, 0, 0, 0, -1)
        lx, ly = int(abs(g[1])), int(abs(g[5]))
        if self.steps or max(z) > 16 or (zs2 == 1 and any(q % 2 for q in z)):
            return None
        vals = [float(v) for v in vals]
        sk, ck = 8. * lx * ly * 64, lx * lx * 64 / 100
        conv = {"slope_riserun": lambda v: v * sk, "slope_percentage": lambda v: v / 100 * sk, "slope_radians": lambda v: math.tan(v) * sk,
                "slope_degrees": lambda v: math.tan(math.radians(v)) * sk, "aspect": lambda v: v if v == -1 or 0 <= v < 360 else 1999999999}.get(name, lambda v: v * ck)
        return {"rel": "attr", "attr": "slope" if name.startswith("slope") else name, "w": shape[1], "h": shape[0], "z": z, "nd": nd, "zs2": zs2, "lx": lx, "ly": ly,
                "mask": [int(v == float(ndv)) for v in vals], "out": [0 if n else rnd(conv(v)) for v, n in zip(vals, nd)],
                "east": [0 if n else rnd(math.sin(math.radians(v)) * 4096) for v, n in zip(vals, nd)],
                "north": [0 if n else rnd(math.cos(math.radians(v)) * 4096) for v, n in zip(vals, nd)]}

    def perlin(self):
        r = self.r
        size, seed = r.randint(2, 6), r.randint(0, 3)
        res, err = self.attempt(lambda: rd.generate_perlin_terrain(size, seed))
        if not err:
            self.add(res, "other")
        self.push("perlin", fn="GeneratePerlinTerrain", size=size, seed=seed, err=err,
                  m={"nd": self.key(-9999.0), "geo": "0,1,0,0,0,-1", "proj": "", "hist": ["GeneratePerlinTerrain"], "keys": [], "ty": "float64"})
        if not err and r.random() < .5:
            i = len(self.vars)
            res, err = self.attempt(lambda: rd.FlowProportions(self.var(i), method="D8"))
            if not err:
                self.add(res, "props2")
            self.push("derive", fn="FlowProportions", a=i, err=err, nd=self.key(-2.0), k3=9)

    @staticmethod
    def lb(v):
        return -1 if v == dh.NO_VALUE or v == dh.NO_PARENT else int(v) if v < 2 ** 31 else -3

    def depjson(self, D, q):
        out, exact = [], True
        for i, d in enumerate(D):
            leaf = i > 0 and d.lchild == dh.NO_VALUE
            vol = d.dep_vol * q if i else 0
            if vol != math.floor(vol):
                exact = False
            out.append({"pit": d.pit_cell + 1 if leaf else 0, "out": (-1 if d.out_cell == dh.NO_VALUE else d.out_cell + 1) if i else 0,
                        "pelev": rnd(d.pit_elev * q) if leaf else 0, "oelev": rnd(d.out_elev * q) if i else 0, "par": self.lb(d.parent), "odep": self.lb(d.odep),
                        "geo": self.lb(d.geolink), "l": self.lb(d.lchild), "r": self.lb(d.rchild), "op": bool(d.ocean_parent), "dl": int(d.dep_label),
                        "cc": int(d.cell_count), "vol": rnd(vol), "ol": [self.lb(x) for x in d.ocean_linked]})
        return out, exact

    def hier(self):
        r = self.r
        i = self.of("dem"); dem = self.var(i)
        if dem.shape[0] < 3 or dem.shape[1] < 3:
            return
        z, nd = self.enc(dem)
        z = [rnd(v) for v in np.asarray(dem).ravel()]
        ndl = r.choice([-9999, 4294967294 - 5])
        g = self.geo()
        lab, err = self.attempt(lambda: rd.get_new_depression_hierarchy_labels(dem.shape, no_data=ndl, geotransform=g))
        if r.random() < .4:   # another ocean
            for _ in range(r.randint(1, 5)):
                y, x = r.randrange(dem.shape[0]), r.randrange(dem.shape[1])
                lab[y, x] = dh.NO_DEP if r.random() < .5 else dh.OCEAN
        if r.random() < .4:
            lab = rd.rdarray(np.array(lab, order="F"), no_data=ndl, geotransform=lab.geotransform)
        li = self.add(lab, "labels")
        self.push("new", fn="get_new_depression_hierarchy_labels", v=self.cells(lab), w=lab.shape[1], h=lab.shape[0], k3=1, err=err,
                  m={"nd": self.key(np.array(ndl).astype("uint32")[()]), "geo": geostr(g if g is not None else (0, 1, 0, 0, 0, -1)), "proj": "", "hist": [], "keys": [], "ty": "uint32"})
        oc = [int(v == dh.OCEAN) for v in np.asarray(lab).ravel()]
        if all(oc) or not any(oc):
            return
        res, err = self.attempt(lambda: rd.get_depression_hierarchy(dem, lab))
        k = None
        if not err:
            D, fd = res
            self.add(fd, "flowdirs")
            L = [-2 if v == dh.NO_DEP else int(v) if v < 2 ** 31 else -3 for v in np.asarray(lab).ravel()]
            F = [int(v) for v in np.asarray(fd).ravel()]
            DJ, ex = self.depjson(D, 1)
            k = {"rel": "hier", "topo": 8, "z": z, "oc": oc, "noocean": False, "refused": False, "lab": L, "fd": F, "D": DJ, "exact": ex, **self.dims(dem)}
        self.push("hier", fn="get_depression_hierarchy", a=i, lab=li, err=err, k=k,
                  m={"nd": self.key(np.array(-9999).astype("int8")[()]), "geo": "0,1,0,0,0,-1", "proj": "", "hist": [], "keys": [], "ty": "int8"})
        if err:
            return
        fi = len(self.vars)
        span = 4 * (max(z) - min(z)) + 4
        mode = r.randint(0, 2)
        rain = [r.randint(0, 3) if mode == 0 else r.randint(0, span) if mode == 1 else r.randint(0, span * 8) if r.random() < .1 else 0 for _ in z]
        if r.random() < .3:   # looked at through a window
            D, fd, lab = D, fd.T.copy().T, lab
            fd = rd.rdarray(fd, no_data=-9999); fd.geotransform = (0, 1, 0, 0, 0, -1)
            self.add(fd, "other"); self.push("new", v=self.cells(fd), w=fd.shape[1], h=fd.shape[0], k3=1, m=self.meta(fd))
        wt = rd.rdarray(np.array([x / 4 for x in rain], order="C").reshape(dem.shape), no_data=-9999.5)
        if r.random() < .4:
            wt = rd.rdarray(np.array(wt, order="F"), no_data=-9999.5)
        wt.geotransform = (0, 1, 0, 0, 0, -1)
        wi = self.add(wt, "wtd")
        self.push("new", v=self.cells(wt), w=dem.shape[1], h=dem.shape[0], k3=1, m={"nd": self.key(-9999.5), "geo": "0,1,0,0,0,-1", "proj": "", "hist": [], "keys": [], "ty": "float64"})
        if r.random() < .3 and len(self.vars) < 9:   # a window onto the water
            self.add(wt.T, "other")
            self.push("view", a=wi, win={"tr": True, "y0": 0, "sy": 1, "ny": dem.shape[0], "x0": 0, "sx": 1, "nx": dem.shape[1]})
        DJ, ex = self.depjson(D, 4)
        _, err = self.attempt(lambda: rd.fill_spill_merge(dem, lab, fd, D, wt))
        k = None
        if not err:
            wet = [rnd(4000 * float(v)) for v in np.asarray(wt).ravel()]
            k = {"rel": "fsm", "z": [4 * v for v in z], "rain": rain, "dry": False, "lab": L, "fd": F, "D": DJ, "wet": wet, "left": rnd(4000 * float(np.asarray(wt).sum())),
                 "sea": rnd(4000 * D[0].water_vol), "total": 1000 * sum(rain), "again": True, **self.dims(dem)}
        self.push("fsm", fn="fill_spill_merge", wtd=wi, err=err, k=k)

    def refused(self):
        """calls that must be refused"""
        r = self.r
        i = self.of("dem"); dem = self.var(i)
        d = self.d
        other = np.ones((dem.shape[0] + 1, dem.shape[1]))
        w32 = np.ones(dem.shape, dtype="float32")
        def odd(dt):
            x = rd.rdarray(np.zeros(dem.shape, dtype=dt), no_data=0); x.geotransform = (0, 1, 0, 0, 0, -1); return x
        nodata = os.path.join(d, "nodata.tif")
        if not os.path.exists(nodata):
            t = gdal.GetDriverByName("GTiff").Create(nodata, 2, 2, 1, gdal.GDT_Float32); t = None
        C = [("no no_data", lambda: rd.rdarray(np.ones((2, 2)))), ("rd3array without no_data", lambda: rd.rd3array(np.ones((2, 2, 9)))),
             ("FillDepressions topology", lambda: rd.FillDepressions(dem, topology=r.choice(["D6", "d8", "", None, 8]), in_place=r.random() < .5)),
             ("BreachDepressions topology", lambda: rd.BreachDepressions(dem, topology="D16", in_place=r.random() < .5)),
             ("FillDepressions numpy", lambda: rd.FillDepressions(np.array(dem))), ("BreachDepressions numpy", lambda: rd.BreachDepressions(np.array(dem))),
             ("ResolveFlats numpy", lambda: rd.ResolveFlats(np.array(dem))), ("FlowAccumulation numpy", lambda: rd.FlowAccumulation(np.array(dem), method="D8")),
             ("FlowProportions numpy", lambda: rd.FlowProportions(np.array(dem), method="D8")), ("TerrainAttribute numpy", lambda: rd.TerrainAttribute(np.array(dem), attrib="aspect")),
             ("FlowAccumFromProps numpy", lambda: rd.FlowAccumFromProps(np.array(dem))), ("SaveGDAL numpy", lambda: rd.SaveGDAL(os.path.join(d, "x.tif"), np.array(dem))),
             ("FlowAccumulation method", lambda: rd.FlowAccumulation(dem, method=r.choice(["D6", None, "d8", ""]))),
             ("FlowProportions method", lambda: rd.FlowProportions(dem, method=r.choice(["D6", None, "d8"]))),
             ("FlowAccumulation exponent", lambda: rd.FlowAccumulation(dem, method=r.choice(["Holmgren", "Freeman"]))),
             ("FlowProportions exponent", lambda: rd.FlowProportions(dem, method=r.choice(["Holmgren", "Freeman"]))),
             ("weights float32", lambda: rd.FlowAccumulation(dem, method="D8", weights=w32, in_place=r.random() < .5)),
             ("weights shape", lambda: rd.FlowAccumulation(dem, method=r.choice(["D8", "Quinn", "Rho8", "Dinf"]), weights=other, in_place=r.random() < .5)),
             ("TerrainAttribute attrib", lambda: rd.TerrainAttribute(dem, attrib=r.choice(["slope", "spi", "", None]))),
             ("one dimension", lambda: rd.FillDepressions(dem[0])), ("float16", lambda: rd.FillDepressions(odd("float16"))), ("bool", lambda: rd.FlowAccumulation(odd("bool"), method="D8")),
             ("complex", lambda: rd.TerrainAttribute(odd("complex128"), attrib="aspect")), ("three dimensions", lambda: rd.FillDepressions(rd.rdarray(np.ones((3, 3, 3)), no_data=-1, geotransform=(0, 1, 0, 0, 0, -1)))),
             ("LoadGDAL without NoData", lambda: rd.LoadGDAL(nodata)), ("LoadGDAL missing", lambda: rd.LoadGDAL(os.path.join(d, "missing.tif"))),
             ("fill_spill_merge numpy", lambda: rd.fill_spill_merge(dem, np.array(dem), dem, [], dem)), ("get_depression_hierarchy numpy", lambda: rd.get_depression_hierarchy(np.array(dem), dem))]
        wi = self.of("weights")
        if wi and self.var(wi).shape != dem.shape:
            C.append(("weights shape", lambda: rd.FlowAccumulation(dem, method="D8", weights=self.var(wi), in_place=True)))
        name, f = r.choice(C)
        _, err = self.attempt(f)
        self.push("refused", fn=name, bad=True, err=err)

    # -- files
    def save(self, i=None, new=False):
        r = self.r
        i = i or self.of("dem", "dem", "accum", "attr", "weights")
        a = self.var(i)
        if type(a) is not rd.rdarray or a.no_data is None:
            return None
        f = r.randint(1, len(self.files) + 1) if len(self.files) < 3 and not new else r.randint(1, len(self.files)) if not new else len(self.files) + 1
        path = os.path.join(self.d, f"f{f}.tif")
        _, err = self.attempt(lambda: rd.SaveGDAL(path, a))
        if not err and f > len(self.files):
            self.files.append(path)
        self.push("save", fn="SaveGDAL", a=i, f=f, err=err)
        return None if err else f

    def load(self):
        if not self.files:
            return
        f = self.r.randint(1, len(self.files))
        ds = gdal.Open(self.files[f - 1]); nd = ds.GetRasterBand(1).GetNoDataValue(); ds = None
        res, err = self.attempt(lambda: rd.LoadGDAL(self.files[f - 1]))
        if not err:
            self.add(res, "other")
        self.push("load", fn="LoadGDAL", f=f, err=err)

    def run_cli(self, fun, argv):
        old, so = sys.argv, sys.stdout
        sys.argv, sys.stdout = argv, io.StringIO()
        try:
            _, err = self.attempt(fun)
            return sys.stdout.getvalue(), err
        finally:
            sys.argv, sys.stdout = old, so

    def commands(self):
        r = self.r
        i = self.of("dem")
        f = self.save(i, new=True)
        if f is None or len(self.files) > 4:
            return
        dem = self.var(i)
        z, nd = self.enc(dem)
        isint = dem.dtype.kind in "iu"
        g = len(self.files) + 1
        path = os.path.join(self.d, f"f{g}.tif"); src = self.files[f - 1]
        which = r.choice(["fill", "fill", "breach", "accum", "attr", "report", "report"])
        c = {"w": dem.shape[1], "h": dem.shape[0], "topo": 8, "z": z, "nd": nd}
        bad, k, nid, ty = False, None, 0, ""
        if which == "fill":
            grad = r.random() < .4 and (self.steps or isint)
            cmd, fn = "rd_depression_filling", "FillDepressions"
            bad = grad and isint and str(dem.dtype) in KEEP
            if grad and not bad and not self.steps:
                grad = False
            _, err = self.run_cli(cli.DepressionFilling, [cmd, src, path] + (["-g"] if grad else []))
            rel = "eps" if grad else "fill"
            kk = {"rel": rel, "refused": True, "intact": True, **c}
        elif which == "breach":
            cmd, fn = "rd_breach_depressions", "BreachDepressions"
            _, err = self.run_cli(cli.BreachDepressions, [cmd, src, path])
            kk = {"rel": "breach", "mode": "complete", "fill": False, "eps": False, "ml": 0, "mdep": 0, **c}
        elif which == "accum":
            cmd, fn = "rd_flow_accumulation", "FlowAccumulation"
            mk, metric, xp = self.method(z)
            args = ["-m", mk["method"]] + (["-e", str(mk["exponent"])] if "exponent" in mk else [])
            _, err = self.run_cli(cli.FlowAccumulation, [cmd, src, path] + args)
            nid, ty = self.key(-1.0), "float64"
            p = None
            if not metric.startswith("rho"):
                q, e2 = self.attempt(lambda: rd.FlowProportions(rd.LoadGDAL(src), **mk))
                p = None if e2 else np.array(q)
            kk = {**c, "wt": [1] * len(z)}
            if metric.startswith("rho"):
                kk.update(rel="rho", topo=4 if metric == "rho4" else 8)
            elif p is not None:
                kk.update(rel="accum", metric=metric, xp=xp, p64=self.shares(p, 65536) if metric != "any" else [], accnd=-1, wh=[], same=True, refused=True,
                          p=[max(0, v) if n % 9 else v for n, v in enumerate(self.shares(p, 4096))])
        elif which == "attr":
            cmd, fn = "rd_terrain_attribute", "TerrainAttribute"
            name = r.choice(["slope_riserun", "slope_percentage", "slope_degrees", "slope_radians", "aspect", "curvature", "planform_curvature", "profile_curvature"])
            zs2 = r.choice([2, 1, 4])
            _, err = self.run_cli(cli.TerrainAttribute, [cmd, src, path, "-a", name] + (["-z", str(zs2 / 2)] if zs2 != 2 else []))
            nid, ty = self.key(-9999.0), "float32"
        else:
            return self.report(f)
        if os.path.exists(path):
            self.files.append(path)
            ds = gdal.Open(path); b = ds.GetRasterBand(1); out = b.ReadAsArray(); ndv = b.GetNoDataValue(); ds = None
            if which in ("fill", "breach"):
                o = rd.rdarray(out, no_data=ndv)
                k = {**kk, "out": self.enc(o)[0]}
            elif which == "accum" and "rel" in kk:
                k = {**kk, "acc": self.acc16(out)}
            elif which == "attr":
                k = self.attr_rel(dem.geotransform if dem.geotransform is not None else (0, 1, 0, 0, 0, 1), dem.shape, z, nd, zs2, name, out.ravel(), ndv)
        self.push("cli", fn=fn, cmd=cmd, f=f, g=g, err=err, bad=bad, k=k, nd=nid, ty=ty)

    def report(self, f):
        r = self.r
        if r.random() < .3:
            s, err = self.run_cli(cli.RdInfo, ["rd_info", self.files[f - 1]])
            _, F = self.see()
            want = [("Width", F[f - 1]["w"]), ("Height", F[f - 1]["h"]), ("Data type", F[f - 1]["m"]["ty"]), ("File", self.files[f - 1])]
            ok = all(re.search(rf"^{k}\s*= {re.escape(str(v))}\s*$", s, re.M) for k, v in want) and all(h in s for h in F[f - 1]["m"]["hist"]) and all(x.replace("=", " = ", 1) in s for x in F[f - 1]["m"]["keys"])
            self.push("report", fn="rd_info", err=err, k={"rel": "info", "ok": bool(ok)})
            return
        # a variation of the same dataset to compare with
        ds = gdal.Open(self.files[f - 1]); a = ds.GetRasterBand(1).ReadAsArray(); nd = ds.GetRasterBand(1).GetNoDataValue(); geo = ds.GetGeoTransform(); pr = ds.GetProjectionRef(); ds = None
        if abs(float(nd)) > 1e6 and (a == nd).any():
            return
        b = np.array(a)
        for _ in range(r.randint(0, 4)):
            y, x = r.randrange(a.shape[0]), r.randrange(a.shape[1])
            b[y, x] = a[r.randrange(a.shape[0]), r.randrange(a.shape[1])]
        o = rd.rdarray(b, no_data=nd); o.geotransform = geo; o.projection = pr
        w = r.randint(0, 4)
        if w == 0:
            o.geotransform = tuple(geo[:3]) + (geo[3] + 1,) + tuple(geo[4:])
        if w == 1:
            o.no_data = nd - 1 if abs(nd) < 1e6 and (nd > 0 or a.dtype.kind != "u") and nd != -128 else nd + 1 if abs(nd) < 1e6 else nd
        if w == 2 and pr == "":
            o.projection = PROJ
        path = os.path.join(self.d, "cmp.tif"); rd.SaveGDAL(path, o)
        two = [self.files[f - 1], path]
        if r.random() < .5:
            two.reverse()
        s, err = self.run_cli(cli.RdCompare, ["rd_compare"] + two)
        k = None
        sc = self.ulp
        m = dict(re.findall(r"^(Absolute Max|Absolute Min|Absolute Avg|RMS) difference:\s*(\S+)", s, re.M))
        if not err and not (self.steps) and len(m) == 4:
            A, B = [rnd(x) for x in a.ravel()], [rnd(x) for x in b.ravel()]
            if float(nd) == int(float(nd)) and max(map(abs, A)) < 12000:
                dif = {"NoData": o.no_data != nd, "Geotransform": tuple(o.geotransform) != tuple(geo), "Projection": o.projection != pr}
                if max(abs(x - y) for x, y in zip(A, B)) < 100:
                    k = {"rel": "compare", "a": A, "b": B, "max": rnd(1000 * float(m["Absolute Max"])), "min": rnd(1000 * float(m["Absolute Min"])), "avg": rnd(1000 * float(m["Absolute Avg"])),
                         "rms": rnd(1000 * float(m["RMS"])), "said": [int(f"{q} differs" in s) for q in sorted(dif)], "differ": [int(dif[q]) for q in sorted(dif)]}
        self.push("report", fn="rd_compare", err=err or len(m) != 4, k=k)

    def go(self, kind):
        r = self.r
        self.new_dem("float64" if kind == "hier" else None, 6)
        if kind == "hier":
            if r.random() < .4:
                self.view()
            self.hier()
            acts = [self.view, self.change, self.accum, self.save]
            for _ in range(r.randint(0, 2)):
                r.choice(acts)()
        elif kind == "files":
            for _ in range(r.randint(1, 3)):
                r.choice([self.save, self.load, self.commands, self.commands, self.change, self.view, self.attrs])()
            self.save(); self.load(); self.commands()
        else:
            acts = [self.view] * 2 + [self.copy, self.write, self.attrs] + [self.change] * 4 + [self.accum] * 3 + [self.derive] * 2 + [self.perlin, self.refused]
            for _ in range(r.randint(3, 7)):
                r.choice(acts)()


PROJ = ""


def one(i):
    global PROJ
    s = osr.SpatialReference(); s.ImportFromEPSG(4326)
    PROJ = s.ExportToWkt()
    d = os.path.join(OPT.dir, f"pyapi_{i}_{os.getpid()}"); os.makedirs(d)
    try:
        # the projection as GeoTIFF gives it back
        t = gdal.GetDriverByName("GTiff").Create(d + "/p.tif", 1, 1, 1, gdal.GDT_Byte); t.SetProjection(PROJ); t = None
        t = gdal.Open(d + "/p.tif"); PROJ = t.GetProjectionRef(); t = None
        rng = random.Random(f"{OPT.seed}-{i}")
        for _ in range(20):
            rng.random()
        kind = ["calls", "calls", "hier", "files"][i % 4]
        h = H(rng, d)
        if kind == "hier":
            h.steps, h.dt, h.base, h.ulp, h.gap = False, "float64", 0, 1, 1
            h.nd = -9999.0
        h.go(kind)
        return {"id": i, "kind": kind, "dtype": h.dt, "steps": h.steps, "ops": h.ops}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(i):
    """one case in a process of its own"""
    rp, wp = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rp)
        rc = 1
        try:
            dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
            signal.alarm(120)
            try:
                out = one(i)
            except Exception:
                out = {"id": i, "exc": traceback.format_exc()[-1500:]}
            b = json.dumps(out, separators=(",", ":")).encode()
            with os.fdopen(wp, "wb") as f:
                f.write(b)
            rc = 0
        finally:
            os._exit(rc)
    os.close(wp)
    with os.fdopen(rp, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not b:
        return json.dumps({"id": i, "crash": "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % st}).encode()
    return b


ids = [OPT.only] if OPT.only >= 0 else range(OPT.n)
J = 1 if OPT.only >= 0 else 8
parts = []
for j in range(J):
    path = f"{OPT.out}.{j}"; parts.append(path)
    if os.fork() == 0:
        with open(path, "wb") as f:
            for i in list(ids)[j::J]:
                f.write(child(i) + b"\n")
        os._exit(0)
bad = 0
for _ in range(J):
    bad |= os.wait()[1]
with open(OPT.out, "wb") as f:
    for p in parts:
        f.write(open(p, "rb").read()); os.remove(p)
sys.exit(1 if bad else 0)
