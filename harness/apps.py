"""Recorder for the command-line programs of /repo/apps: sequences of programs
run on files, with everything that is in the files before and after."""
import argparse, json, math, os, random, re, shutil, signal, subprocess, sys, traceback
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal, osr

ap = argparse.ArgumentParser()
for a, t, d in (("seed", int, 1), ("n", int, 10), ("tier", str, "quick"), ("out", str, ""), ("dir", str, "."), ("bin", str, "."), ("only", int, -1)):
    ap.add_argument("--" + a, type=t, default=d)
OPT = ap.parse_args()
gdal.UseExceptions(); gdal.PushErrorHandler("CPLQuietErrorHandler")
BIG = 2000000001
TYPES = {"uint8": gdal.GDT_Byte, "uint16": gdal.GDT_UInt16, "int16": gdal.GDT_Int16, "uint32": gdal.GDT_UInt32, "int32": gdal.GDT_Int32, "float32": gdal.GDT_Float32, "float64": gdal.GDT_Float64}
PROJ = {}


def rnd(v):
    v = float(v)
    return int(math.floor(v + .5)) if math.isfinite(v) and abs(v) < 2e9 else BIG


def setup():
    s = osr.SpatialReference(); s.ImportFromEPSG(4326)
    u = osr.SpatialReference(); u.ImportFromEPSG(32633)
    for k, q in (("a", s), ("b", u)):
        p = os.path.join(OPT.dir, f"proj_{k}_{os.getpid()}.tif")
        t = gdal.GetDriverByName("GTiff").Create(p, 1, 1, 1, gdal.GDT_Byte); t.SetProjection(q.ExportToWkt()); t = None
        t = gdal.Open(p); PROJ[k] = t.GetProjectionRef(); t = None
        os.remove(p)


class H:
    def __init__(self, rng, d):
        self.r, self.d, self.ids, self.files, self.ops, self.geos = rng, d, {}, [], [], {}

    # -- observation
    def key(self, v):
        v = v.item() if hasattr(v, "item") else v
        if isinstance(v, float) and math.isnan(v):
            v = "nan"
        return self.ids.setdefault(v, len(self.ids) + 1)

    def read(self, i):
        ds = gdal.Open(os.path.join(self.d, self.files[i - 1])); b = ds.GetRasterBand(1)
        r = {"a": b.ReadAsArray(), "nd": b.GetNoDataValue(), "geo": ds.GetGeoTransform(can_return_null=True), "proj": ds.GetProjectionRef(), "md": ds.GetMetadata(), "ty": gdal.GetDataTypeName(b.DataType)}
        ds = None
        return r

    def hist(self, md):
        out = []
        for l in (md or {}).get("PROCESSING_HISTORY", "").split("\n"):
            if l.strip():
                t = l.split(" | ", 2)
                out.append(os.path.basename(t[2].split(" ")[0]) if len(t) == 3 and t[2].strip() else "?")
        return out

    def geo(self, g):
        return [] if g is None else [f"{float(x):.10g}" for x in g]

    def see(self):
        F = []
        for i in range(1, len(self.files) + 1):
            x = self.read(i); a = x["a"]
            F.append({"v": [self.key(q) for q in a.ravel()], "w": a.shape[1], "h": a.shape[0],
                      "m": {"nd": 0 if x["nd"] is None else self.key(np.array(x["nd"]).astype(a.dtype)[()]), "geo": self.geo(x["geo"]), "proj": x["proj"], "hist": self.hist(x["md"]),
                            "keys": sorted(f"{k}={v}" for k, v in x["md"].items() if k not in ("PROCESSING_HISTORY", "AREA_OR_POINT") and not k.startswith("TIFFTAG")), "ty": x["ty"]}})
        return F

    def push(self, o, f=0, g=0, err=False, bad=False, k=None, **kw):
        self.ops.append({"o": o, "f": f, "g": g, "err": err, "bad": bad, "k": k or {"rel": "none"}, "F": self.see(), **kw})

    def name(self):
        return f"f{len(self.files) + 1}.tif"

    def run(self, prog, *args):
        """the program's exit code was not 0, and what it printed"""
        p = subprocess.run([os.path.join(OPT.bin, prog + ".exe")] + [str(a) for a in args], cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        return p.returncode != 0, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def made(self, err, out):
        """take over the file a program wrote; returns its number"""
        path = os.path.join(self.d, out)
        if err:
            if os.path.exists(path):
                os.remove(path)
            return 0
        if not os.path.exists(path):
            return 0
        self.files.append(out)
        return len(self.files)

    # -- making files
    def some_geo(self, plain=False):
        r = self.r
        lx, ly = r.choice([(1, 1), (1, 1), (2, 2), (3, 2), (1, 2)])
        sx, sy = (1, -1) if plain or r.random() < .6 else (r.choice([1, -1]), r.choice([1, -1]))
        return None if r.random() < .1 and not plain else (r.choice([0, 0.5, -7, 500000.5, -93.0013888]), sx * lx, 0, r.choice([0, 4.25, 4497321.25]), 0, sy * ly)

    def create(self, v, w, h, ty, nd, geo, proj, md, what):
        f = self.name()
        ds = gdal.GetDriverByName("GTiff").Create(os.path.join(self.d, f), w, h, 1, TYPES[ty])
        if geo is not None:
            ds.SetGeoTransform(geo)
        if proj:
            ds.SetProjection(proj)
        b = ds.GetRasterBand(1); b.SetNoDataValue(nd); b.WriteArray(np.array(v).reshape(h, w).astype(ty))
        for k, q in md.items():
            ds.SetMetadataItem(k, q)
        ds = None
        self.files.append(f)
        self.push("new", g=len(self.files), what=what)
        return len(self.files)

    def metadata(self):
        r = self.r
        md = {}
        if r.random() < .5:
            md["k" + str(r.randint(1, 3))] = r.choice(["v1", "a=b", "some words"])
        if r.random() < .4:
            md["PROCESSING_HISTORY"] = "\n2020-01-01 00:00:00 UTC | RichDEM v2 (hash=x) | earlier in.tif out.tif "
        return md

    def new_dem(self, mx=7, ocean=False, plain=False):
        r = self.r
        w, h = r.randint(2, mx), r.randint(2, mx)
        top = r.choice([3, 9, 15])
        z = [r.randint(1, top) for _ in range(w * h)]
        if r.random() < .4:
            z = [min(v, r.choice([2, 3, 5])) for v in z]
        if r.random() < .4:
            for y in range(h):
                for x in range(w):
                    if x in (0, w - 1) or y in (0, h - 1):
                        z[y * w + x] += r.randint(2, 9)
        ty = r.choice(list(TYPES))
        nd = 0 if ty[0] == "u" else r.choice([-9999, -9999, -1, 0])
        if ocean:
            ty = r.choice(["float32", "float64", "int16"])
            nd = -9999
        if r.random() < .35 or ocean and r.random() < .3:
            for _ in range(r.randint(1, 4)):
                y, x = r.choice([(0, r.randrange(w)), (h - 1, r.randrange(w)), (r.randrange(h), 0), (r.randrange(h), w - 1)])
                z[y * w + x] = nd
        if ocean:
            for _ in range(r.randint(0, 5)):
                z[r.choice([r.randrange(w), (h - 1) * w + r.randrange(w), r.randrange(h) * w, r.randrange(h) * w + w - 1, r.randrange(w * h)])] = 0
        return self.create(z, w, h, ty, nd, self.some_geo(plain), r.choice(["", PROJ["a"], PROJ["b"]]), self.metadata(), "dem")

    def new_dirs(self):
        r = self.r
        w, h = r.randint(2, 6), r.randint(2, 6)
        ty = r.choice(["uint8", "uint8", "int16", "int32", "float32"])
        nd = 255 if ty == "uint8" else -1
        v = [nd if r.random() < .1 else r.randint(0, 8) for _ in range(w * h)]
        if r.random() < .15:
            v[r.randrange(w * h)] = 9
        return self.create(v, w, h, ty, nd, self.some_geo(), "", self.metadata(), "dirs")

    def pick(self, *what):
        c = [g for o in self.ops if o.get("what") in what for g in (o["g"], o.get("g2")) if g]
        return self.r.choice(c) if c else None

    def enc(self, x):
        """numbers, -1 where there is no data"""
        nd = [int(q == x["nd"]) for q in x["a"].ravel().tolist()]
        return [-1 if n else rnd(q) for q, n in zip(x["a"].ravel().tolist(), nd)], nd

    def base(self, f):
        x = self.read(f)
        z, nd = self.enc(x)
        return x, {"w": x["a"].shape[1], "h": x["a"].shape[0], "z": z, "nd": nd}

    def outz(self, g, nd):
        x = self.read(g)
        return [-1 if n and q == x["nd"] else rnd(q) for q, n in zip(x["a"].ravel().tolist(), nd)]

    # -- programs that edit a raster
    def expand(self):
        r = self.r
        f = self.pick("dem", "dirs"); x = self.read(f)
        h, w = x["a"].shape
        W, HH = max(1, w + r.randint(-1, 3)), max(1, h + r.choice([0, 0, 1, 2, -1]))
        out = self.name()
        err, _, _ = self.run("rd_expand_dimensions", self.files[f - 1], out, W, HH)
        bad = W < w or HH < h
        g = self.made(err, out)
        self.push("expand", f, g, err, bad, W=W, H=HH, cmd="rd_expand_dimensions.exe", what=next(o["what"] for o in self.ops if f in (o["g"], o.get("g2"))))

    def nodata(self):
        r = self.r
        f = self.pick("dem", "dirs", "other"); x = self.read(f)
        if r.random() < .4:
            err, o, e = self.run("rd_no_data", self.files[f - 1])
            m = re.findall(r"^\s*(-?[0-9.e+]+)\s*$", o + e, re.M)
            self.push("shownd", f, 0, err, said=self.key(float(m[-1])) if m else 0)
            return
        ty = str(x["a"].dtype)
        nd = r.choice([0, 7, 200] if ty == "uint8" else [0, 60000] if ty == "uint16" else [0, 4000000000] if ty == "uint32" else [-9999, -32768, 5] if ty == "int16" else [-99999, -2147483648] if ty == "int32" else [-0.5, -9999.5, -1e10, -1234567.5])
        out = self.name()
        err, _, _ = self.run("rd_no_data", self.files[f - 1], out, nd)
        self.push("setnd", f, self.made(err, out), err, nd=self.key(np.array(nd).astype(ty)[()]), cmd="rd_no_data.exe", what="other")

    def geotransform(self):
        r = self.r
        f = self.pick("dem", "dirs", "other"); x = self.read(f)
        if r.random() < .3:
            err, o, _ = self.run("rd_geotransform", self.files[f - 1])
            m = re.search(r"Geotransform:\s*((?:\S+\s+){6})Width:\s*(\d+)\s*Height:\s*(\d+)", o)
            self.push("showgeo", f, 0, err, geo=self.geo([float(q) for q in m.group(1).split()]) if m else [], wh=[int(m.group(2)), int(m.group(3))] if m else [0, 0])
            return
        args = [r.choice(["x", str(r.choice([0, 3, -2.5, 100.25, 4497321.25, -93.0013888]))]) if i in (0, 3) else r.choice(["x", str(r.choice([1, 2, -1, 0.5]))]) if i in (1, 5) else r.choice(["x", "0"]) for i in range(6)]
        if [float(a) if a != "x" else float(q) for a, q in zip(args, x["geo"] or (1000, 1, 0, 1000, 0, -1))] == [0, 1, 0, 0, 0, 1]:
            args[5] = "2"   # GDAL takes the identity for no geotransform
        out = self.name()
        err, _, _ = self.run("rd_geotransform", self.files[f - 1], out, *args)
        self.push("setgeo", f, self.made(err, out), err, args=["x" if a == "x" else f"{float(a):.10g}" for a in args], cmd="rd_geotransform.exe", what="other")

    def projection(self):
        r = self.r
        f = self.pick("dem", "dirs", "other")
        out = self.name()
        if r.random() < .5:
            t = r.randint(1, len(self.files)); arg = self.files[t - 1]; p = self.read(t)["proj"]
        else:
            p = PROJ[r.choice("ab")]; arg = ":" + p
        err, _, _ = self.run("rd_projection", self.files[f - 1], out, arg)
        self.push("setproj", f, self.made(err, out), err, proj=p, cmd="rd_projection.exe", what="other")

    def taudem(self):
        f = self.new_dirs() if self.pick("dirs") is None else self.pick("dirs")
        x, b = self.base(f)
        out = self.name()
        err, _, _ = self.run("rd_taudem_d8_to_richdem_d8", self.files[f - 1], out)
        g = self.made(err, out)
        k = {"rel": "taudem", "out": self.outz(g, b["nd"]), **b} if g else None
        self.push("derived", f, g, err, any(v > 8 for v in b["z"]), k=k, cmd="rd_taudem_d8_to_richdem_d8.exe", what="other", to={"own": True})

    def merge(self):
        r = self.r
        w, h = r.randint(1, 3), r.randint(1, 3)
        cols, rows = r.randint(1, 3), r.randint(1, 2)
        ty = r.choice(list(TYPES)); nd = 0 if ty[0] == "u" else -7
        plain = r.random() < .7
        gx, gy = (1, -1) if plain else (r.choice([1, -1]), r.choice([1, -1]))
        proj = r.choice(["", PROJ["a"]])
        T, TG = [], []
        lw, lh = (w, h) if r.random() < .85 else (r.randint(1, w), r.randint(1, h))   # tiles of other sizes are refused
        for y in range(rows):
            for x in range(cols):
                if (x or y) and r.random() < .2:
                    T.append(0); TG.append([0, 0, 0, 0])
                    continue
                tw, th = (lw if x == cols - 1 and cols > 1 else w), (lh if y == rows - 1 and rows > 1 else h)
                # columns go east and rows south, each tile may be stored the other way round
                tg = [10 + x * w if gx > 0 else 10 + x * w + tw, gx, 50 - y * h if gy < 0 else 50 - y * h - th, gy]
                TG.append(tg)
                T.append(self.create([r.randint(0, 30) for _ in range(tw * th)], tw, th, ty, nd, (tg[0], gx, 0, tg[2], 0, gy), proj, {}, "tile"))
        if not all(any(T[y * cols + x] for y in range(rows)) for x in range(cols)) or not all(any(T[y * cols:(y + 1) * cols]) for y in range(rows)):
            return
        with open(os.path.join(self.d, "t.layout"), "w") as f:
            for y in range(rows):
                f.write(",".join(self.files[t - 1] if t else "" for t in T[y * cols:(y + 1) * cols]) + "\n")
        flip = r.choice(["noflip", "noflip", "fliph", "flipv", "fliphv"])
        out = self.name()
        err, _, _ = self.run("rd_merge_rasters_by_layout", "t.layout", r.randint(1, len(T) + 2), out, flip)
        g = self.made(err, out)
        og = self.read(g)["geo"] if g else [0] * 6
        self.push("merge", 0, g, err, tiles=T, tgeo=TG, ogeo=[rnd(q) for q in og], user=flip != "noflip", cols=cols, flipH=(flip in ("fliph", "fliphv")) != (gx < 0), flipV=(flip in ("flipv", "fliphv")) != (gy > 0), what="other")

    # -- programs that report
    def misuse(self):
        """a program called with too few or too many arguments, a file that is not there, or an unknown method"""
        r = self.r
        f = r.randint(1, len(self.files)); fn = self.files[f - 1]; o = "nothing.tif"
        prog, args = r.choice([("compare", [fn, fn]), ("d8_flowdirs", [fn, "nothing"]), ("depressions_breach", [fn, o, "COMPLETE", "NOEPS", "NOFILL", 1, 1]), ("depressions_flood", [fn, o, 0]), ("depressions_has", [fn]),
                               ("depressions_mask", [fn, o]), ("depression_hierarchy", [fn, "nothing", 0]), ("expand_dimensions", [fn, o, 50, 50]), ("flood_for_flowdirs", [fn, o]), ("flow_accumulation", [fn, o, 1]),
                               ("geotransform", [fn, o] + ["x"] * 6), ("hist", [fn]), ("no_data", [fn, o, 3]), ("processing_history", [fn]), ("projection", [fn, o, fn]), ("loop_check", [fn]),
                               ("taudem_d8_to_richdem_d8", [fn, o]), ("terrain_property", [fn, o, 1, 1]), ("raster_display", [fn, 1])])
        k = r.choice(["less", "more", "absent", "value"])
        if k == "value" and prog in ("flow_accumulation", "terrain_property"):
            args[2] = r.choice([0, -1, 10, 99] + ([7, 8, 9] if prog[0] == "f" else []))
            if args[2] in (7, 8, 9) and r.random() < .7:
                args.append(1)
        elif k == "less":
            args.pop()
        elif k == "more":
            args += [1, 1]
        else:
            args[0] = "absent.tif"
        had = set(os.listdir(self.d))
        err, _, _ = self.run("rd_" + prog, *args)
        new = set(os.listdir(self.d)) - had
        for q in new:
            os.remove(os.path.join(self.d, q))
        self.push("refusal", f, 0, err, True, left=bool(new), cmd="rd_" + prog + " " + k)

    def report(self):
        r = self.r
        f = self.pick("dem", "dirs", "other"); x = self.read(f); a = x["a"]
        h, w = a.shape
        which = r.choice(["compare", "compare", "hist", "history", "inspect", "display", "has"])
        fn = self.files[f - 1]
        whole = all(float(q) == int(q) and abs(q) < 100000 for q in a.ravel().tolist())
        if which == "compare":
            t = r.randint(1, len(self.files)); y = self.read(t)
            if r.random() < .6:   # a variation of the first
                b = a.copy()
                for _ in range(r.randint(0, 4)):
                    b[r.randrange(h), r.randrange(w)] = b[r.randrange(h), r.randrange(w)]
                if r.random() < .25:
                    b = np.concatenate([b, b[-1:]], axis=0) if r.random() < .5 else b[:, :max(1, w - 1)]
                t = self.create(b, b.shape[1], b.shape[0], str(a.dtype), x["nd"], x["geo"] if r.random() < .7 else self.some_geo(), x["proj"] if r.random() < .7 else PROJ["b"], {}, "tile")
            elif a.dtype != y["a"].dtype and (a.dtype.kind == "u" or y["a"].dtype.kind == "u"):
                return
            err, o, _ = self.run("rd_compare", *([fn, self.files[t - 1]]))
            m = re.search(r"Number of values which differ = (\d+)", o)
            self.push("compare", f, 0, err, t=t, said=[int(q + " differ" in o) for q in ("Geotransforms", "NoData values", "Projections", "Widths", "Heights")], count=int(m.group(1)) if m else -1)
        elif which == "hist":
            if not whole:
                return
            err, o, _ = self.run("rd_hist", fn)
            m = re.findall(r"^\s+(\S+)\s+(\d+)\s*$", o, re.M); n = re.search(r"^Nodata: (\S+)", o, re.M)
            try:
                bars = [[self.key(float(p)), int(q)] for p, q in m]
            except ValueError:
                bars = []
            self.push("hist", f, 0, err, bars=bars, said=self.key(float(n.group(1))) if n and re.fullmatch(r"-?[0-9.e+-]+", n.group(1)) else 0)
        elif which == "history":
            err, o, _ = self.run("rd_processing_history", fn)
            L = [l for l in o.split("\n") if " | " in l]
            self.push("history", f, 0, err, hist=self.hist({"PROCESSING_HISTORY": "\n".join(L)}), none="No processing history!" in o)
        elif which in ("inspect", "display"):
            if not whole:
                return
            g = x["geo"] if x["geo"] is not None else (1000, 1, 0, 1000, 0, -1)
            fh, fv = r.random() < .3, r.random() < .3
            if which == "display":
                flip = {(0, 0): "noflip", (1, 0): "fliph", (0, 1): "flipv", (1, 1): "fliphv"}[(int(fh), int(fv))]
                err, o, _ = self.run("rd_raster_display", fn, flip)
                rows = [l for l in o.split("\n") if re.fullmatch(r"\s*(-?\d+\s*)+", l)][-h:]
                x0, x1, y0, y1, bad = 0, w - 1, 0, h - 1, False
                got = [int(q) for l in rows for q in l.split()]
            else:
                x0, y0 = r.randrange(w), r.randrange(h)
                if r.random() < .5:
                    x1, y1 = x0 + r.randint(0, 3), y0 + r.randint(0, 3)
                    args = [x0, x1, y0, y1]
                    bad = x1 >= w or y1 >= h
                else:
                    q = r.randint(0, 3); args = [x0, y0, q]
                    x0, x1, y0, y1, bad = max(0, x0 - q), min(w - 1, x0 + q), max(0, y0 - q), min(h - 1, y0 + q), False
                err, o, _ = self.run("rd_raster_inspect", *((["-H"] if fh else []) + (["--flipV"] if fv else []) + [fn] + args))
                o = re.sub(r"\x1b\[[0-9;]*m", " ", o)
                rows = [l for l in o.split("\n") if re.fullmatch(r"\s*-?\d+(\s+-?\d+(\.\d+)?)+\s*", l)]
                rows = rows[-(y1 - y0 + 1):] if not bad else []
                got = [rnd(q) for l in rows for q in l.split()[1:]]
            self.push("show", f, 0, err, bad, num=[rnd(q) for q in a.ravel().tolist()], got=got, win=[x0, x1, y0, y1], flipH=fh != (g[1] < 0), flipV=fv != (g[5] > 0))
        else:
            f = self.pick("dem")
            if f is None:
                return
            x, b = self.base(f)
            err, o, _ = self.run("rd_depressions_has", self.files[f - 1])
            self.push("has", f, 0, err, k={"rel": "has", "yes": "m Depressions found" in o, "no": "m No depressions found" in o, **b})

    # -- programs that derive a raster
    def derive(self):
        r = self.r
        which = r.choice(["flood", "flood", "breach", "mask", "d8", "forflow", "accum", "accum", "attr", "attr", "fsm", "fsm", "hier"])
        if which in ("fsm", "hier"):
            return self.fsm() if which == "fsm" else self.hier()
        f = self.pick("dem"); x, b = self.base(f); fn = self.files[f - 1]
        out = self.name(); n = b["w"] * b["h"]
        if which == "flood":
            k0 = r.choice([0, 0, 1, 2, 4, n])
            err, _, _ = self.run("rd_depressions_flood", fn, out, k0)
            g = self.made(err, out)
            self.push("derived", f, g, err, k=g and {"rel": "flood", "topo": 8, "k": k0, "out": self.outz(g, b["nd"]), **b}, cmd="rd_depressions_flood.exe", what="dem", to={"own": True})
        elif which == "breach":
            mode = r.choice(["COMPLETE", "SELECTIVE", "CONSTRAINED"]); fill = r.random() < .4
            ml, md = r.choice([0, 1, 2, 50]), r.choice([0, 1, 3, 100])
            if r.random() < .1:
                mode = "OTHER"
            err, _, _ = self.run("rd_depressions_breach", fn, out, mode, "NOEPS", "FILL" if fill else "NOFILL", ml, md)
            g = self.made(err, out)
            self.push("derived", f, g, err, mode == "OTHER", k=g and {"rel": "breach", "topo": 8, "mode": mode.lower(), "fill": fill, "eps": False, "ml": ml, "mdep": md, "out": self.outz(g, b["nd"]), **b},
                      cmd="rd_depressions_breach.exe", what="dem", to={"own": True})
        elif which == "mask":
            err, _, _ = self.run("rd_depressions_mask", fn, out)
            g = self.made(err, out)
            self.push("derived", f, g, err, k=g and {"rel": "mask", "topo": 8, "out": [rnd(q) for q in self.read(g)["a"].ravel().tolist()], **b}, cmd="rd_depressions_mask.exe", what="other",
                      to={"own": False, "nd": self.key(3), "ty": "Byte"})
        elif which in ("d8", "forflow"):
            if which == "d8":
                err, _, _ = self.run("rd_d8_flowdirs", fn, out[:-4]); out = out[:-4] + "-flowdirs.tif"; cmd = "rd_d8_flowdirs.exe"
            else:
                err, _, _ = self.run("rd_flood_for_flowdirs", fn, out); cmd = "rd_flood_for_flowdirs.exe"
            g = self.made(err, out)
            geo = x["geo"] if x["geo"] is not None else (0, 1, 0, 0, 0, -1)
            self.push("derived", f, g, err, k=g and {"rel": "flowdirs", "out": [rnd(q) for q in self.read(g)["a"].ravel().tolist()], "flipH": which == "forflow" and geo[1] < 0, "flipV": which == "forflow" and geo[5] > 0, **b},
                      cmd=cmd, what="other", to={"own": False, "nd": self.key(255), "ty": "Byte"})
        elif which == "accum":
            alg, metric = r.choice([(1, "d8"), (2, "rho8"), (3, "holmgren"), (4, "holmgren"), (5, "freeman"), (6, "dinf")])
            xp, e = r.choice([("one", 1), ("two", 2), ("half", .5), ("other", 1.1)]) if alg in (4, 5) else ("one", 1)
            err, _, _ = self.run("rd_flow_accumulation", fn, out, alg, *([e] if alg in (4, 5) else []))
            if alg in (4, 5) and r.random() < .1:   # the exponent is required
                e2, _, _ = self.run("rd_flow_accumulation", fn, "nothing.tif", alg)
                self.push("refusal", f, 0, e2, True, left=os.path.exists(os.path.join(self.d, "nothing.tif")))
            g = self.made(err, out)
            k = None
            if g:
                geo = x["geo"] if x["geo"] is not None else (0, 1, 0, 0, 0, -1)
                area = abs(geo[1] * geo[5])
                acc = [rnd(16 * q / (1 if q == -1 else area)) for q in self.read(g)["a"].ravel().tolist()]
                q = {"acc": acc, "wt": [1] * n, **b}
                if metric == "rho8":
                    k = {"rel": "rho", "topo": 8, **q}
                else:
                    pf = os.path.join(self.d, "p.txt")
                    subprocess.run([os.path.join(OPT.bin, "appprops"), os.path.join(self.d, fn), pf, str(alg), str(e)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True, timeout=100)
                    p = [float(l) for l in open(pf)]
                    os.remove(pf)
                    k = {"rel": "accum", "metric": metric, "xp": xp, "p64": self.shares(p, 65536), "accnd": -1, "wh": [], "same": True, "refused": True, **q}
                    k["p"] = [max(0, v) if i % 9 else v for i, v in enumerate(self.shares(p, 4096))]
            self.push("derived", f, g, err, k=k, cmd="rd_flow_accumulation.exe", what="other", to={"own": False, "nd": self.key(-1), "ty": "Float64"})
        else:
            i = r.randint(1, 8); zs2 = r.choice([2, 1, 3, 4, 5])
            name = ["slope", "slope_percentage", "slope_degrees", "slope_radians", "aspect", "curvature", "planform_curvature", "profile_curvature"][i - 1]
            err, _, _ = self.run("rd_terrain_property", fn, out, i, zs2 / 2)
            g = self.made(err, out)
            k = None
            if g and max(b["z"]) <= 16:
                # every attribute but aspect grows in proportion to the factor
                per, zs2 = (2 / zs2, 2) if zs2 % 2 else (1, zs2)
                y = self.read(g)
                geo = x["geo"] if x["geo"] is not None else (0, 1, 0, 0, 0, -1)
                lx, ly = int(abs(geo[1])), int(abs(geo[5]))
                vals = y["a"].ravel().tolist()
                sk, ck = 8. * lx * ly * 64, lx * lx * 64 / 100
                conv = {"slope": lambda v: v * sk, "slope_percentage": lambda v: v / 100 * sk, "slope_radians": lambda v: math.tan(v) * sk, "slope_degrees": lambda v: math.tan(math.radians(v)) * sk,
                        "aspect": lambda v: v if v == -1 or 0 <= v < 360 else 1999999999}.get(name, lambda v: v * ck)
                if name != "aspect":
                    full = conv
                    conv = lambda v: full(v) * per
                k = {"rel": "attr", "attr": "slope" if name.startswith("slope") else name, "zs2": zs2, "lx": lx, "ly": ly, "mask": [int(v == y["nd"]) for v in vals],
                     "out": [0 if m else rnd(conv(v)) for v, m in zip(vals, b["nd"])], "east": [0 if m else rnd(math.sin(math.radians(v)) * 4096) for v, m in zip(vals, b["nd"])],
                     "north": [0 if m else rnd(math.cos(math.radians(v)) * 4096) for v, m in zip(vals, b["nd"])], **b}
            self.push("derived", f, g, err, k=k, cmd="rd_terrain_property.exe", what="other", to={"own": False, "nd": self.key(-9999), "ty": "Float32"})

    @staticmethod
    def shares(p, U):
        out = []
        for i, v in enumerate(p):
            if i % 9 == 0 or v in (-1.0, -2.0):
                out.append(rnd(v))
            elif not (0 <= v <= 1.0001):
                out.append(-777)
            else:
                out.append(0 if v == 0 else min(U, max(1, rnd(v * U))))
        return out

    def fsm(self):
        r = self.r
        f = self.new_dem(7, True); x, b = self.base(f); fn = self.files[f - 1]
        n = b["w"] * b["h"]
        sea = r.choice([0, 0, 1]); sf = 0
        out = self.name()
        if r.random() < .5:
            q = r.choice([0, 1, 2, 8, 400]); rain = [q] * n; args = ["--swl", q / 4]
        else:
            rain = [r.choice([0, 0, 1, 2, 5, 40]) for _ in range(n)]
            sf = self.create([q / 4 for q in rain], b["w"], b["h"], "float64", -1, self.some_geo(), "", self.metadata(), "water")
            out = self.name(); args = ["--swf", self.files[sf - 1]]
        err, _, _ = self.run("rd_fill_spill_merge", fn, out[:-4], sea, *args)
        g = self.made(err, out[:-4] + "-wtd.tif"); g2 = self.made(err, out[:-4] + "-hydrologic-surface-height.tif")
        k = None
        if g and g2:
            k = {"rel": "fsm", "sea": sea, "rain": rain, "wet": [rnd(1000 * q) for q in self.read(g)["a"].ravel().tolist()], "top": [rnd(1000 * q) for q in self.read(g2)["a"].ravel().tolist()], **b}
        self.push("fsm", f, g, err, k=k, sea=sea, g2=g2, sf=sf, z=b["z"], nds=b["nd"], what="other")

    def hier(self):
        r = self.r
        f = self.new_dem(7, True); x, b = self.base(f); fn = self.files[f - 1]
        sea = r.choice([0, 0, 1])
        out = self.name()
        err, _, _ = self.run("rd_depression_hierarchy", fn, out[:-4], sea)
        g = self.made(err, out[:-4] + "-label.tif")
        k = None
        gp = os.path.join(self.d, out[:-4] + "-graph.csv")
        if g and os.path.exists(gp):
            L = open(gp).read().split("\n")
            E = [[int(q) if int(q) < 1000000 else 1000000 for q in l.split(",")] for l in L[1:] if l]
            k = {"rel": "hier", "head": L[0], "links": E, "sea": sea, "lab": [int(q) if q < 1000000 else 1000000 for q in self.read(g)["a"].ravel().tolist()], **b}
        if os.path.exists(gp):
            os.remove(gp)
        self.push("hier", f, g, err, k=k, sea=sea, w=b["w"], h=b["h"], z=b["z"], nds=b["nd"], what="other")

    def go(self, kind):
        r = self.r
        if kind == "edit":
            self.new_dem() if r.random() < .7 else self.new_dirs()
            acts = [self.expand, self.nodata, self.geotransform, self.projection, self.report, self.report, self.taudem, self.misuse]
            for _ in range(r.randint(2, 5)):
                r.choice(acts)()
        elif kind == "merge":
            self.new_dem(4)
            self.merge()
            self.report()
        else:
            self.new_dem()
            for _ in range(r.randint(1, 3)):
                r.choice([self.derive, self.derive, self.derive, self.report, self.geotransform, self.misuse])()


def one(i):
    d = os.path.join(OPT.dir, f"apps_{i}_{os.getpid()}"); os.makedirs(d)
    try:
        rng = random.Random(f"{OPT.seed}-{i}")
        for _ in range(20):
            rng.random()
        kind = ["derive", "edit", "derive", "merge", "derive"][i % 5]
        h = H(rng, d)
        h.go(kind)
        return {"id": i, "kind": kind, "ops": h.ops}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(i):
    rp, wp = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rp)
        rc = 1
        try:
            signal.alarm(300)
            try:
                out = one(i)
            except Exception:
                out = {"id": i, "exc": traceback.format_exc()[-1500:]}
            with os.fdopen(wp, "wb") as f:
                f.write(json.dumps(out, separators=(",", ":")).encode())
            rc = 0
        finally:
            os._exit(rc)
    os.close(wp)
    with os.fdopen(rp, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    return b if st == 0 and b else json.dumps({"id": i, "crash": f"status {st}"}).encode()


setup()
ids = [OPT.only] if OPT.only >= 0 else range(OPT.n)
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(child, ids))
with open(OPT.out, "wb") as f:
    for b in res:
        f.write(b + b"\n")
