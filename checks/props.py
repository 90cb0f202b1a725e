"""Per-property stages: which models TLC explores, which behaviours of the real
code it judges, and which corruptions it must reject."""
import vt
from vt import Model, Conf, Build, run_check

P = {}


def prop(pid, rule, stages, assumptions=(), level="model_checking"):
    P[pid] = dict(rule=rule, stages=stages, assumptions=list(assumptions), level=level)


def run(pid):
    p = P[pid]
    return run_check(pid, p["level"], p["stages"], p["rule"], p["assumptions"])


# ---- corruptions -----------------------------------------------------------
def bump(field, delta=1, where=None):
    """change one element of an integer list"""
    def f(c, rnd):
        v = c[field]
        idx = [i for i in range(len(v)) if where is None or where(c, i)]
        if not idx:
            return None
        v[rnd.choice(idx)] += delta
        return c
    return f


def bump_out(delta, interior=True):
    def f(c, rnd):
        o = rnd.choice(c["outs"])
        w, h = c["w"], c["h"]
        idx = [y * w + x for y in range(h) for x in range(w)
               if (0 < x < w - 1 and 0 < y < h - 1) == interior]
        if not idx:
            return None
        o[rnd.choice(idx)] += delta
        return c
    return f


def flip(field):
    def f(c, rnd):
        c[field] = not c[field]
        return c
    return f


def interior(c, i):
    w, h = c["w"], c["h"]
    return 0 < i % w < w - 1 and 0 < i // w < h - 1


def loop_back(c, rnd):
    """make the cell a cell flows to flow back"""
    w = c["w"]
    dx, dy = (0, -1, -1, 0, 1, 1, 1, 0, -1), (0, 0, -1, -1, -1, 0, 1, 1, 1)
    pairs = [(i, t) for i, d in enumerate(c["fd"]) if 1 <= d <= 8 and interior(c, i) and not c["nd"][i]
             for t in [i + dx[d] + w * dy[d]] if not c["nd"][t]]
    if not pairs:
        return None
    i, t = rnd.choice(pairs)
    c["fd"][t] = (c["fd"][i] + 3) % 8 + 1
    return c


def lost_angle(c, rnd):
    """a cell of a terrain that flows no more"""
    idx = [i for i, a in enumerate(c["ang"]) if a > 0 and interior(c, i)] if c["mode"] == "terrain" else []
    if not idx:
        return None
    c["ang"][rnd.choice(idx)] = 0
    return c


def has_depression(c):
    return any(o != c["z"] for o in c["outs"])


# ---- floods ----------------------------------------------------------------
FILL = Build("fill", ["fill.cpp"])

prop("C01", "a terrain on which at least one variant raised a cell", [
    Model("FillModel", "MC_FillModel_quick.cfg", 900, tiers=("quick",)),
    Model("FillModel", "MC_FillModel.cfg", 8000, tiers=("thorough",)),
    Model("PriorityFlood", "MC_PriorityFlood_quick.cfg", 5000, tiers=("quick",)),
    Model("PriorityFlood", "MC_PriorityFlood.cfg", 100000, tiers=("thorough",)),
    Model("PriorityFlood", "MC_PriorityFlood_wide.cfg", 100000, tiers=("thorough",)),
    Conf(FILL, "FillConf", "FillConf_Fill.cfg", n=4000, n_thorough=12000, args=["fill"], nontrivial=has_depression,
         canaries=[("raise", bump_out(1)), ("lower", bump_out(-1)), ("edge", bump_out(1, False))]),
])
prop("C02", "any epsilon-filled terrain", [
    Model("EpsilonFlood", "MC_EpsilonFlood_quick.cfg", 1000, tiers=("quick",)),
    Model("EpsilonFlood", "MC_EpsilonFlood.cfg", 10000, tiers=("thorough",)),
    Conf(FILL, "FillConf", "FillConf_Eps.cfg", n=3000, n_thorough=6000, args=["eps"], nontrivial=lambda c: c["z"] != c["out"],
         canaries=[("raise", bump("out", 3, lambda c, i: interior(c, i) and c["z"][i] >= 0)), ("lower", bump("out", -1, interior)),
                   ("edge", bump("out", 1, lambda c, i: not interior(c, i))), ("accepted", flip("refused"))]),
])
prop("C03", "a terrain with a depression", [
    Conf(FILL, "FillConf", "FillConf_Mask.cfg", n=4000, n_thorough=8000, args=["mask"], nontrivial=lambda c: c["has"],
         canaries=[("has", flip("has")), ("hasfilled", flip("hasfilled")), ("mask", bump("mask")), ("lim", bump("lim"))]),
])
prop("C04", "any terrain", [
    Conf(FILL, "FillConf", "FillConf_Wsd.cfg", n=3000, n_thorough=8000, args=["wsd"],
         canaries=[("lab", bump("lab1", 1)), ("alt1", bump("alt1", 1)), ("alt2", bump("alt2", 1)),
                   ("fd", loop_back)]),
])

# ---- breaching -------------------------------------------------------------
def lone_pit(c):
    """terrain of distinct heights, no NoData, one pit: its breach is known exactly"""
    z, w, h = c["zi"], c["w"], c["h"]
    if c["fill"] or 1 in c["nd"] or len(set(z)) < len(z) or c["eps"] and c["mode"] == "selective": return False
    step = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and (c["topo"] == 8 or not (a and b))]
    pits = [(x, y) for y in range(1, h - 1) for x in range(1, w - 1) if all(z[(y + b) * w + x + a] > z[y * w + x] for a, b in step)]
    if len(pits) != 1: return False
    m = min((z[(y + b) * w + x + a], (y + b) * w + x + a) for x, y in pits for a, b in step)[1]
    return c["eps"] or m < pits[0][1] * w + pits[0][0]
BREACH = Build("breach", ["breach.cpp"])
prop("C05", "a terrain that breaching changed", [
    Model("Breach", "MC_Breach_quick.cfg", 10000, tiers=("quick",)),
    Model("Breach", "MC_Breach.cfg", 100000, tiers=("thorough",)),
    Conf(BREACH, "BreachConf", n=4000, n_thorough=20000, nontrivial=lambda c: c["z"] != c["out"],
         canaries=[("raise", bump("out", 1, lambda c, i: c["mode"] == "complete" and not c["eps"])),
                   ("dig", bump("out", -1, lambda c, i: c["mode"] == "selective" and not c["eps"])),
                   ("path", bump("oi", 1, lambda c, i: lone_pit(c))), ("steps", bump("os", 1, lambda c, i: lone_pit(c) and c["oi"][i] < c["zi"][i])),
                   ("nodata", bump("out", 1, lambda c, i: c["nd"][i]))]),
])

# ---- flats -----------------------------------------------------------------
FLATS = Build("flats", ["flats.cpp"])
prop("C06", "a terrain with a flat", [
    Model("FlatsModel", "MC_FlatsModel_quick.cfg", 10000, tiers=("quick",)),
    Model("FlatsModel", "MC_FlatsModel.cfg", 10000, tiers=("thorough",)),
    Conf(FLATS, "FlatsConf", n=2500, n_thorough=8000, nontrivial=lambda c: 1 in c["flats"],
         canaries=[("flats", bump("flats")), ("mask", bump("mask", 1, lambda c, i: c["mask"][i] > 0)),
                   ("lab", bump("lab", 1)), ("eps", bump("eps")), ("mask2", bump("mask2")),
                   ("fd", bump("fd", 9, lambda c, i: c["mask"][i] > 3)), ("other", bump("fd", 1, lambda c, i: c["mask"][i] == 0)),
                   ("alt", bump("alt")), ("dinf", bump("di", 30, lambda c, i: c["di0"][i] == 0 and c["di"][i] > 0)), ("dinf0", bump("di", 30, lambda c, i: c["di0"][i] > 0))]),
])

# ---- flow metrics ----------------------------------------------------------
FLOWMET = Build("flowmet", ["flowmet.cpp"])


def shares(pred):
    """indices of proportion slots 1..8 satisfying pred(value)"""
    return lambda c, i: i % 9 != 0 and pred(c["p"][i])


def swap_shares(c, rnd):
    """hand the shares of one cell to the wrong neighbours"""
    idx = [i for i in range(len(c["nd"])) if len({v for v in c["p"][9 * i + 1:9 * i + 9] if v > 0}) > 1]
    if not idx:
        return None
    i = rnd.choice(idx)
    q = [k for k in range(9 * i + 1, 9 * i + 9) if c["p"][k] > 0]
    vals = [c["p"][k] for k in q]
    for k, v in zip(q, vals[1:] + vals[:1]):
        c["p"][k] = v
    return c


prop("C07", "a raster some cell of which passes flow on", [
    Model("FlowMetricModel", "MC_FlowMetric_quick.cfg", 90000, tiers=("quick",)),
    Model("FlowMetricModel", "MC_FlowMetric.cfg", 1000000, tiers=("thorough",)),
    Conf(FLOWMET, "FlowMetricConf", n=3500, n_thorough=12000, nontrivial=lambda c: any(v > 0 for v in c["p"]),
         canaries=[("share", bump("p", -100, shares(lambda v: v > 200))), ("flag", bump("p", -1, lambda c, i: i % 9 == 0 and c["p"][i] == 0)),
                   ("swap", swap_shares), ("nodata", bump("p", 1, lambda c, i: i % 9 == 0 and c["p"][i] == -2)),
                   ("extra", bump("p", 2, shares(lambda v: v == -1)))]),
])

# ---- flow accumulation -----------------------------------------------------
ACCUM = Build("accum", ["accum.cpp"])


def is_data(c, i):
    return c["p"][9 * i] != -2


prop("C08", "a raster some cell of which receives flow", [
    Model("FlowAccum", "MC_FlowAccum_quick.cfg", 1000, tiers=("quick",)),
    Model("FlowAccum", "MC_FlowAccum.cfg", 100000, tiers=("thorough",)),
    Conf(ACCUM, "FlowAccumConf", n=3500, n_thorough=10000, nontrivial=lambda c: c["acc"] != [16 * v for v in c["wt"]],
         canaries=[("more", bump("acc", 16, is_data)), ("less", bump("acc", -16, lambda c, i: is_data(c, i) and c["acc"][i] > 20)),
                   ("nodata", bump("acc", 16, lambda c, i: not is_data(c, i))), ("same", flip("same")), ("refused", flip("refused")), ("high", lambda c, r: bump("acch")(c, r) if c["acch"] else None)]),
])

# ---- D8 --------------------------------------------------------------------
D8 = Build("d8", ["d8.cpp"])
prop("C09", "a direction raster in which some cell has an upstream cell", [
    Model("FlowAccum", "MC_FlowAccum1_quick.cfg", 1000, tiers=("quick",)),
    Model("FlowAccum", "MC_FlowAccum1.cfg", 10000, tiers=("thorough",)),
    Conf(D8, "D8Conf", n=4000, n_thorough=10000, nontrivial=lambda c: any(v > 1 for v in c["acc"]),
         canaries=[("acc", bump("acc", 1)), ("acc-", bump("acc", -1)), ("ups", bump("ups", 2, lambda c, i: c["ups"][i] == 1)),
                   ("more", bump("ups", -254, lambda c, i: c["ups"][i] == 255)),
                   ("dir", lambda c, r: bump("fd", 1, lambda c, i: c["fd"][i] in range(1, 8) and interior(c, i))(c, r) if c["mode"] == "terrain" else None)]),
])

# ---- D-infinity ------------------------------------------------------------
DINF = Build("dinf", ["dinf.cpp"])
prop("C10", "a raster in which some cell splits its flow", [
    Model("FlowMetricModel", "MC_FlowMetric_quick.cfg", 90000, tiers=("quick",)),
    Model("FlowAccum", "MC_FlowAccum_quick.cfg", 1000, tiers=("quick",)),
    Model("FlowAccum", "MC_FlowAccum.cfg", 100000, tiers=("thorough",)),
    Conf(DINF, "DInfConf", n=4000, n_thorough=10000, nontrivial=lambda c: any(v > 0 and v % 10000 for v in c["ang"]),
         canaries=[("acc", bump("acc", 16)), ("acc-", bump("acc", -16)),
                   ("turn", bump("ang", 20, lambda c, i: c["mode"] == "terrain" and interior(c, i) and c["ang"][i] > 0)),
                   ("lost", lost_angle)]),
])

# ---- depression hierarchy, fill-spill-merge ----------------------------------
DEPHIER = Build("dephier", ["dephier.cpp"])


def dep(field, fn, where=lambda d: True):
    """change one depression's field"""
    def f(c, rnd):
        idx = [i for i in range(1, len(c["D"])) if where(c["D"][i])]
        if not idx:
            return None
        d = c["D"][rnd.choice(idx)]
        d[field] = fn(d[field])
        return c
    return f


def swap_kids_out(c, rnd):
    """one child's outlet moved elsewhere at the same elevation's cost"""
    ks = [d for d in c["D"] if d["l"] > 0]
    if not ks:
        return None
    k = c["D"][rnd.choice(ks)["l"]]
    k["oelev"] += 1
    return c


prop("C11", "a terrain with at least two depressions besides the ocean", [
    Model("DepHierModel", "MC_DepHier_tree_quick.cfg", 10000, tiers=("quick",)),
    Model("DepHierModel", "MC_DepHier_tree.cfg", 100000, tiers=("thorough",)),
    Model("DepHierModel", "MC_DepHier_tree4.cfg", 100000, tiers=("thorough",)),
    Conf(DEPHIER, "DepHierConf", "DepHierConf_Hierarchy.cfg", n=6000, n_thorough=12000, args=["hier"],
         nontrivial=lambda c: not c["refused"] and len(c["D"]) > 2,
         canaries=[("parent", dep("par", lambda v: max(0, v - 1), lambda d: d["par"] > 0)), ("outlet", dep("oelev", lambda v: v + 1)),
                   ("lower", dep("oelev", lambda v: v - 1)), ("outcell", dep("out", lambda v: v - 1 if v > 1 else v + 1)),
                   ("geo", dep("geo", lambda v: v + 1)), ("oceanlink", dep("op", lambda v: not v)), ("odep", dep("odep", lambda v: v + 1)),
                   ("pit", dep("pelev", lambda v: v + 1, lambda d: d["l"] < 0)), ("kid", swap_kids_out),
                   ("label", bump("lab", 1, lambda c, i: c["lab"][i] > 0)), ("last", bump("last", -1, lambda c, i: c["last"][i] == 1))]),
])
prop("C12", "a terrain with a depression of positive volume", [
    Model("DepHierModel", "MC_DepHier_vol_quick.cfg", 10000, tiers=("quick",)),
    Model("DepHierModel", "MC_DepHier_vol.cfg", 100000, tiers=("thorough",)),
    Conf(DEPHIER, "DepHierConf", "DepHierConf_Volumes.cfg", n=6000, n_thorough=12000, args=["hier"],
         nontrivial=lambda c: not c["refused"] and any(d["vol"] > 0 for d in c["D"]),
         canaries=[("vol", dep("vol", lambda v: v + 1)), ("cells", dep("cc", lambda v: v + 1)),
                   ("fd", bump("fd", 1, lambda c, i: 0 < c["fd"][i] < c["topo"])), ("pitflows", bump("fd", 1, lambda c, i: c["fd"][i] == 0))]),
])
prop("C13", "a run that left water standing", [
    Model("DepHierModel", "MC_DepHier_quick.cfg", 100000, tiers=("quick",)),
    Model("DepHierModel", "MC_DepHier.cfg", 100000, tiers=("thorough",)),
    Model("DepHierModel", "MC_DepHier_2d.cfg", 100000, tiers=("thorough",)),
    Conf(DEPHIER, "FsmConf", n=6000, n_thorough=10000, args=["fsm"], nontrivial=lambda c: any(v > 0 for v in c["wet"]),
         canaries=[("more", bump("wet", 50, lambda c, i: c["wet"][i] > 0)), ("less", bump("wet", -50, lambda c, i: c["wet"][i] > 60)),
                   ("ocean", bump("wet", 50, lambda c, i: c["lab"][i] == 0)),
                   ("sea", lambda c, r: c.update(sea=c["sea"] + 1000) or c), ("again", flip("again"))]),
])

# ---- containers --------------------------------------------------------------
ARRAY2D = Build("array2d", ["array2d.cpp"])


def in_step(fn, where=lambda s: True):
    """corrupt what one step of a history shows"""
    def f(c, rnd):
        ss = [s for s in c["steps"] if where(s)]
        rnd.shuffle(ss)
        for s in ss:
            if fn(s, rnd) is not None:
                return c
        return None
    return f


def bump_cell(s, rnd):
    regs = [x for x in s["S"] if x.get("z")]
    if not regs:
        return None
    z = rnd.choice(regs)["z"]
    z[rnd.randrange(len(z))] += 1
    return s


def bump_res(s, rnd):
    if not s.get("res"):
        return None
    s["res"][rnd.randrange(len(s["res"]))] += 1
    return s


def flip_own(s, rnd):
    x = rnd.choice([x for x in s["S"] if not x.get("dead")])
    x["own"] = not x["own"]
    return s


def bump_foreign(s, rnd):
    s["B"][rnd.randrange(len(s["B"]))] += 1
    return s


def flip_err(s, rnd):
    s["err"] = not s["err"]
    return s


prop("C14", "a history in which a raster held cells", [
    Model("ArrayModel", "MC_Array_quick.cfg", 10000, tiers=("quick",)),
    Model("ArrayModel", "MC_Array.cfg", 100000, tiers=("thorough",)),
    Conf(ARRAY2D, "ArrayConf", n=4000, n_thorough=12000, args=["array"],
         nontrivial=lambda c: any(x.get("z") for s in c["steps"] for x in s["S"]),
         canaries=[("cell", in_step(bump_cell)), ("answer", in_step(bump_res)), ("refusal", in_step(flip_err)),
                   ("nodata", in_step(lambda s, r: s["S"][0].update(nd=s["S"][0]["nd"] + 1) or s, lambda s: "nd" in s["S"][0]))]),
])
prop("C16", "a history with wrapped memory", [
    Model("ManagedVecModel", "MC_ManagedVec_quick.cfg", 1000, tiers=("quick",)),
    Model("ManagedVecModel", "MC_ManagedVec.cfg", 100000, tiers=("thorough",)),
    Conf(ARRAY2D, "ArrayConf", n=4000, n_thorough=15000, args=["mem"],
         nontrivial=lambda c: any(s["o"] == "wrap" for s in c["steps"]),
         canaries=[("foreign", in_step(bump_foreign)), ("own", in_step(flip_own)), ("refusal", in_step(flip_err)), ("cell", in_step(bump_cell)),
                   ("badfree", in_step(lambda s, r: s.update(bad=1) or s)), ("leak", lambda c, r: c.update(endlive=1) or c)]),
])

# ---- small data structures -----------------------------------------------------
RASTERIO = Build("rasterio", ["rasterio.cpp"])
TILES = Build("tiles", ["tiles.cpp"])
STRUCT = Build("struct", ["struct.cpp"])


def in_op(fn, where=lambda o: True):
    def f(c, rnd):
        ss = [s for s in c["ops"] if where(s)]
        return c if ss and fn(rnd.choice(ss), rnd) is not None else None
    return f


def is_op(*names):
    return lambda o: o["o"] in names


def swap_pops(c, rnd):
    """deliver two different entries of equal key the other way round"""
    if c["mode"] not in ("fifo", "lifo"):
        return None
    ps = [o for o in c["ops"] if o["o"] == "pop"]
    for a, b in zip(ps, ps[1:]):
        if a["kz"] == b["kz"] and a["id"] != b["id"]:
            a["id"], b["id"] = b["id"], a["id"]
            return c
    return None


def in_reg(fn, where=lambda r: True):
    """change what was seen of one raster after some operation"""
    def f(c, rnd):
        ss = [r for o in c["ops"] for r in o["S"] if where(r)]
        return c if ss and fn(rnd.choice(ss), rnd) is not None else None
    return f


prop("C15", "a history that read something back", [
    Model("RasterIOModel", "MC_RasterIO_quick.cfg", 1000, tiers=("quick",)),
    Model("RasterIOModel", "MC_RasterIO.cfg", 100000, tiers=("thorough",)),
    Conf(RASTERIO, "RasterIOConf", n=3000, n_thorough=12000,
         nontrivial=lambda c: any(o["o"] in ("gload", "xload", "nload", "load") and not o["err"] for o in c["ops"]),
         canaries=[("cell", in_reg(bump("z"), lambda r: r["z"])), ("width", in_reg(lambda r, x: r.update(w=r["w"] + 1) or r)),
                   ("nodata", in_reg(lambda r, x: r.update(nd=r["nd"] + 1) or r)), ("geo", in_reg(bump("geo"), lambda r: r["geo"])),
                   ("proj", in_reg(lambda r, x: r.update(proj=r["proj"] + 1) or r)), ("note", in_reg(lambda r, x: r.update(note=r["note"] + 1) or r)),
                   ("history", in_reg(lambda r, x: r["hist"].pop(0) and r, lambda r: len(r["hist"]) > 1)),
                   ("grown", in_reg(lambda r, x: r["hist"].append(77) or r)),
                   ("refused", in_op(lambda o, r: o.update(err=not o["err"]) or o)),
                   ("header", in_op(bump("ans"), lambda o: o["ans"]))]),
])
prop("C17", "a history with evictions", [
    Model("TileCacheModel", "MC_TileCache_quick.cfg", 1000, tiers=("quick",)),
    Model("TileCacheModel", "MC_TileCache.cfg", 100000, tiers=("thorough",)),
    Model("TileCacheModel", "MC_TileCacheRO.cfg", 1000, tiers=("thorough",)),
    Model("TileCacheModel", "MC_TileCache_nodump.cfg", must_fail="Kept", tiers=("thorough",)),
    Model("TileCacheModel", "MC_TileCache_nofill.cfg", must_fail="Transparent", tiers=("thorough",)),
    Model("TileCacheModel", "MC_TileCache_refill.cfg", must_fail="Kept", tiers=("thorough",)),
    Model("TileCacheModel", "MC_TileCache_filend.cfg", must_fail="Transparent", tiers=("thorough",)),
    Conf(TILES, "TileCacheConf", n=1500, n_thorough=12000, nontrivial=lambda c: any(a["ev"] > 1 for a in c["ops"][-1]["S"]),
         canaries=[("read", in_op(lambda o, r: o["res"].__setitem__(0, o["res"][0] + 20) or o, is_op("read2", "read4"))),
                   ("isnd", in_op(lambda o, r: o["res"].__setitem__(0, 1 - o["res"][0]) or o, is_op("isnd2", "isnd4"))),
                   ("evictions", in_op(lambda o, r: o["S"][o["a"] - 1].update(ev=o["S"][o["a"] - 1]["ev"] + 1) or o)),
                   ("wrote", in_op(lambda o, r: o["S"][o["a"] - 1]["wrote"].append(1 + max(o["S"][o["a"] - 1]["wrote"])) or o, lambda o: o["S"][o["a"] - 1]["wrote"])),
                   ("saved", in_op(lambda o, r: [bump("z")(t, r) for t in o["tiles"] if t["w"] > 0] or None, is_op("save", "unify"))),
                   ("where", in_op(bump("res"), is_op("where"))), ("shape", in_op(bump("res"), is_op("open", "derive")))]),
    Conf(STRUCT, "StructConf", "StructConf_Lru.cfg", n=2000, n_thorough=20000, args=["lru"], label="StructConf_Lru",
         nontrivial=lambda c: any(o["full"] for o in c["ops"]),
         canaries=[("list", in_op(lambda o, r: o["list"].reverse() or o, lambda o: len(set(o["list"])) > 1)), ("size", in_op(lambda o, r: o.update(size=o["size"] + 1) or o)),
                   ("full", in_op(lambda o, r: o.update(full=not o["full"]) or o))]),
])
prop("C20", "a file that was accepted", [
    Model("LayoutModel", "MC_Layout_quick.cfg", 1000, tiers=("quick",)),
    Model("LayoutModel", "MC_Layout.cfg", 100000, tiers=("thorough",)),
    Conf(STRUCT, "StructConf", "StructConf_Layout.cfg", n=8000, n_thorough=20000, args=["layout"], nontrivial=lambda c: not c["err"],
         canaries=[("refused", flip("err")), ("name", lambda c, r: r.choice(c["ev"])["name"].append(97) or c if c["ev"] else None),
                   ("row", lambda c, r: (lambda e: e.update(row=not e["row"]))(r.choice(c["ev"])) or c if c["ev"] else None),
                   ("wrote", lambda c, r: r.choice(c["wrote"]).append(97) or c if c["wrote"] else None),
                   ("lost", lambda c, r: c["ev"].pop() and c if c["ev"] else None)]),
])
prop("C21", "a history that removed entries", [
    Model("RadixModel", "MC_Radix_quick.cfg", 1000, tiers=("quick",)),
    Model("RadixModel", "MC_Radix.cfg", 10000, tiers=("thorough",)),
    Conf(STRUCT, "StructConf", "StructConf_Queue.cfg", n=8000, n_thorough=30000, args=["queue"],
         nontrivial=lambda c: any(o["o"] == "pop" for o in c["ops"]),
         canaries=[("key", in_op(lambda o, r: o.update(kz=o["kz"] + 1) or o, is_op("pop"))), ("entry", in_op(lambda o, r: o.update(id=o["id"] + 1) or o, is_op("pop"))),
                   ("order", swap_pops), ("all", in_op(lambda o, r: o["ids"].append(7777) or o, is_op("popall"))), ("size", in_op(lambda o, r: o.update(res=o["res"] + 1) or o)),
                   ("min", in_op(lambda o, r: o.update(kz=o["kz"] + 1) or o, is_op("min"))),
                   ("cmp", in_op(lambda o, r: o["ids"].__setitem__(r.randrange(6), 0) or o, is_op("cmp")))]),
])
prop("C22", "a history that connected elements", [
    Model("DisjointModel", "MC_Disjoint_quick.cfg", 20, tiers=("quick",)),
    Model("DisjointModel", "MC_Disjoint.cfg", 1000, tiers=("thorough",)),
    Conf(STRUCT, "StructConf", "StructConf_Sets.cfg", n=10000, n_thorough=30000, args=["djset"],
         nontrivial=lambda c: any(len(set(o["rep"])) < len(o["rep"]) for o in c["ops"]),
         canaries=[("rep", in_op(lambda o, r: bump("rep")(o, r) if o["rep"] else None)), ("same", in_op(lambda o, r: o.update(res=1 - o["res"]) or o, lambda o: o["o"] == "same" and not o["err"])),
                   ("refused", in_op(lambda o, r: o.update(err=not o["err"]) or o)),
                   ("grown", in_op(lambda o, r: o["rep"].append(len(o["rep"])) or o))]),
])

# ---- the tiled programs -----------------------------------------------------
def par(name, flag):
    return Build(name, ["tpar.cpp"], flags=[flag, f"-I{vt.REPO}", "-pthread"], pre_inc=[vt.HARN + "/fakempi"], libs=["-pthread"])


PARD8 = par("pard8", "-DPROG_D8")
PARPF = par("parpf", "-DPROG_PF")


def in_tile(f, ok=lambda t: True):
    def g(c, r):
        ts = [t for t in c["tiles"] if not t["null"] and t["ok"] and ok(t)]
        return c if ts and f(r.choice(ts), r) is not False else None
    return g


def log_cut(c, r):
    e = [k for k, x in enumerate(c["run"]["log"]) if x[0] == "r"]
    c["run"]["log"].pop(r.choice(e))
    return c


def log_swap(c, r):   # a producer starting the second round before the first answers are in
    k = [i for i, x in enumerate(c["run"]["log"]) if x[0] in "si" and x[1] == 0 and x[3] == 3][0]
    c["run"]["log"].insert(0, c["run"]["log"].pop(k))
    return c


def setk(k, v):
    def f(t, r):
        t[k] = v
    return f


def at_out(d, ok=lambda v: True):
    def f(t, r):
        i = [i for i, v in enumerate(t["out"]) if ok(v)]
        if not i:
            return False
        t["out"][r.choice(i)] += d
    return f


TILED = [("message lost", log_cut), ("too early", log_swap), ("failure", lambda c, r: c["run"].update(failure="stuck") or c),
         ("undelivered", lambda c, r: c["run"].update(undelivered=1) or c), ("status", lambda c, r: c["run"]["rcs"].__setitem__(0, 1) or c),
         ("size", in_tile(lambda t, r: t.update(ow=t["ow"] + 1))), ("missing", in_tile(lambda t, r: t.update(ok="x" == "y"))),
         ("place", in_tile(lambda t, r: t["ogt"].__setitem__(3, t["ogt"][3] + 1))), ("nodata", in_tile(lambda t, r: t.update(ond=7))),
         ("layout", lambda c, r: c["layout"][0].append("") or c)]
prop("C18", "several tiles and three ranks or more", [
    Model("TileProtocolModel", "MC_TileProtocol_quick.cfg", 400, tiers=("quick",)),
    Model("TileProtocolModel", "MC_TileProtocol_buffered_quick.cfg", 700, tiers=("quick",)),
    Model("TiledAccum", "MC_TiledAccum_small.cfg", 60000, tiers=("quick",)),
    Model("TileProtocolModel", "MC_TileProtocol.cfg", 5000, tiers=("thorough",)),
    Model("TileProtocolModel", "MC_TileProtocol_live.cfg", 5000, tiers=("thorough",)),
    Model("TileProtocolModel", "MC_TileProtocol_loose.cfg", must_fail="Intact", tiers=("thorough",)),
    Model("TileProtocolModel", "MC_TileProtocol_deaf.cfg", must_fail="NotStuck", tiers=("thorough",)),
    Model("TileProtocolModel", "MC_TileProtocol_spread.cfg", must_fail="Intact", tiers=("thorough",)),
    Model("TiledAccum", "MC_TiledAccum_quick.cfg", 60000, tiers=("thorough",)),
    Model("TiledAccum", "MC_TiledAccum.cfg", 100000, tiers=("thorough",)),
    Model("TiledAccum", "MC_TiledAccum_twice.cfg", must_fail="Right", tiers=("thorough",)),
    Model("TiledAccum", "MC_TiledAccum_diag.cfg", must_fail="Right", tiers=("thorough",)),
    Conf(PARD8, "TiledConf", "TiledConf_Accum.cfg", n=1200, n_thorough=8000, label="TiledConf_Accum",
         nontrivial=lambda c: c["n"] > 2 and sum(not t["null"] for t in c["tiles"]) > 1,
         canaries=TILED + [("more", in_tile(at_out(1, lambda v: v > 0))), ("less", in_tile(at_out(-1, lambda v: v > 1))), ("marked", in_tile(at_out(1, lambda v: v == -1)))]),
])
prop("C19", "several tiles and three ranks or more", [
    Model("TileProtocolModel", "MC_TileProtocol_quick.cfg", 400, tiers=("quick",)),
    Model("TiledFlood", "MC_TiledFlood_quick.cfg", 10000, tiers=("quick",)),
    Model("TileProtocolModel", "MC_TileProtocol_buffered.cfg", 5000, tiers=("thorough",)),
    Model("TiledFlood", "MC_TiledFlood_all.cfg", 10000, tiers=("thorough",)),
    Model("TiledFlood", "MC_TiledFlood.cfg", 10000, tiers=("thorough",)),
    Model("TiledFlood", "MC_TiledFlood_nocorner.cfg", must_fail="Right", tiers=("thorough",)),
    Model("TiledFlood", "MC_TiledFlood_coarse.cfg", must_fail="Right", tiers=("thorough",)),
    Conf(PARPF, "TiledConf", "TiledConf_Flood.cfg", n=900, n_thorough=6000, label="TiledConf_Flood",
         nontrivial=lambda c: c["n"] > 2 and sum(not t["null"] for t in c["tiles"]) > 1,
         canaries=TILED + [("more", in_tile(at_out(1))), ("less", in_tile(at_out(-1)))]),
])

# ---- region fills, perimeters, attributes -------------------------------------
ATTRS = Build("attrs", ["attrs.cpp"])


def val_at(k, d, ok=lambda c, i: True):
    """change one data cell's value of the k-th attribute"""
    def f(c, r):
        i = [i for i in range(len(c["nd"])) if not c["nd"][i] and ok(c, i)]
        if not i:
            return None
        c["vals"][k][r.choice(i)] += d
        return c
    return f


def mask_at(c, r):
    m = r.choice(c["masks"])
    i = r.randrange(len(m))
    m[i] = 1 - m[i]
    return c


def turn(c, r):   # aspect mirrored at one sloping cell
    i = [i for i in range(len(c["nd"])) if not c["nd"][i] and c["vals"][7][i] >= 0 and abs(c["east"][i]) > 300]
    if not i:
        return None
    i = r.choice(i)
    c["east"][i] = -c["east"][i]
    return c


prop("C25", "a fill that paints some cells and leaves others of its value unpainted", [
    Model("RegionFillModel", "MC_RegionFill_quick.cfg", 100000, tiers=("quick",)),
    Model("RegionFillModel", "MC_RegionFill4_quick.cfg", 100000, tiers=("quick",)),
    Model("RegionFillModel", "MC_RegionFill_live.cfg", 5000),
    Model("RegionFillModel", "MC_RegionFill_blind.cfg", must_fail="Right"),
    Model("RegionFillModel", "MC_RegionFill.cfg", 1000000, tiers=("thorough",)),
    Model("RegionFillModel", "MC_RegionFill4.cfg", 1000000, tiers=("thorough",)),
    Conf(ATTRS, "AttrConf", "AttrConf_Region.cfg", n=6000, n_thorough=40000, args=["region"], label="AttrConf_Region",
         nontrivial=lambda c: c["S"] != c["S0"] and any(k == c["v"] and s != c["s"] for k, s in zip(c["K"], c["S"])),
         canaries=[("unpainted", lambda c, r: c.update(S=c["S0"]) if c["S"] == c["S0"] else c["S"].__setitem__(*(lambda i: (i, c["S0"][i]))(r.choice([i for i in range(len(c["S"])) if c["S"][i] != c["S0"][i]]))) or c),
                   ("overpainted", bump("S", 1, lambda c, i: c["K"][i] != c["v"])), ("left", lambda c, r: None if c["edges"] else c.update(left=1) or c),
                   ("count", lambda c, r: c.update(count=c["count"] + 16) or c), ("edge", lambda c, r: c.update(len=c["len"] - 16 * c["lx"]) or c),
                   ("refused", flip("refused"))]),
])
prop("C26", "a raster with a sloping, curved cell", [
    Model("TerrainModel", "MC_Terrain_quick.cfg", 16000, tiers=("quick",)),
    Model("TerrainModel", "MC_Terrain.cfg", 600000, tiers=("thorough",)),
    Conf(ATTRS, "AttrConf", "AttrConf_Attr.cfg", n=3000, n_thorough=20000, args=["attr"], label="AttrConf_Attr",
         nontrivial=lambda c: any(v > 0 for v in c["vals"][0]) and any(c["vals"][5]),
         canaries=[("slope", val_at(0, 40)), ("percent", val_at(1, -40)), ("radians", val_at(2, 40)), ("degrees", val_at(3, 40)), ("curvature", val_at(4, 64)),
                   ("planform", val_at(5, 20)), ("profile", val_at(6, -20)), ("aspect", turn), ("flat", val_at(7, 1, lambda c, i: c["vals"][7][i] == -1)), ("NoData", mask_at),
                   ("area", lambda c, r: c.update(area=c["area"] + 8 * len(c["nd"]) + 3) or c), ("spi", bump("spi", 30000, lambda c, i: c["spi"][i] >= 0)), ("cti", bump("cti", 30000000, lambda c, i: c["cti"][i] >= 0)), ("props", flip("props"))]),
])

# ---- random numbers ------------------------------------------------------------
RAND = Build("rand", ["rand.cpp"])


def draw_at(fn, where=lambda e: True):
    def f(c, r):
        i = [e for e in c["there"] if e["o"] == "draw" and where(e)]
        if not i:
            return None
        fn(r.choice(i))
        return c
    return f


def same_probe(c, r):   # two origins drawing the same values
    p = [e for e in c["here"] + c["there"] if e["o"] == "draw" and e["what"] == "probe"]
    vs = sorted({e["v"] for e in p})
    if len(vs) < 2:
        return None
    for e in p:
        e["v"] = vs[0]
    return c


prop("C24", "a script in which a saved state is set again, or a seed is used twice", [
    Model("RandomModel", "MC_Random.cfg", 50000, tiers=("quick",)),
    Model("RandomModel", "MC_Random_deep.cfg", 200000, tiers=("thorough",)),
    Model("RandomModel", "MC_Random_product.cfg", must_fail="Different"),
    Model("RandomModel", "MC_Random_running.cfg", must_fail="Reproducible"),
    Model("RandomModel", "MC_Random_paired.cfg", must_fail="Reproducible"),
    Conf(RAND, "RandomConf", "RandomConf.cfg", n=600, n_thorough=10000,
         nontrivial=lambda c: any(e["o"] == "set" for e in c["here"]) or len({e["s"] for e in c["here"] if e["o"] == "seed"}) < sum(e["o"] == "seed" for e in c["here"]),
         canaries=[("value", draw_at(lambda e: e.update(v=e["v"] + "0"), lambda e: e["what"] == "normal 0 1")), ("probe", same_probe),
                   ("bounds", draw_at(lambda e: e.update(max=e["hi"] + 1), lambda e: e["ints"])), ("exclusive", draw_at(lambda e: e.update(max=e["max"] - 1), lambda e: e["many"])),
                   ("terrain", lambda c, r: next((e.update(v="x") or c for e in c["there"] if e["o"] == "perlin"), None)),
                   ("real", draw_at(lambda e: e.update(**{"in": False})))]),
])

# ---- threads --------------------------------------------------------------------
class FakeOmpBuild(Build):
    """The code under test runs on harness/fakeomp.cpp instead of libgomp; if it
    needs more of the OpenMP runtime than that offers, on real threads."""
    def run(self, work):
        import hashlib, os, re
        lib = os.path.join(work, "fakeomp.o")
        rc, out = vt.sh(["g++", "-std=c++17", "-O2", "-w", "-c", vt.HARN + "/fakeomp.cpp", "-o", lib])
        if rc != 0:
            raise vt.CheckError("fakeomp.cpp: " + out[-2000:])
        self.libs = [lib]
        self.flags = ["-fsanitize=thread"]
        exe = super().run(work)
        need = set()
        for s in [os.path.join(vt.HARN, x) for x in self.srcs] + [os.path.join(vt.REPO, x) for x in self.repo_srcs]:
            o = os.path.join(work, self.name + "_" + hashlib.md5(s.encode()).hexdigest()[:8] + ".o")
            need |= set(re.findall(r"\b(?:GOMP|omp)_\w+", vt.sh(["nm", "-u", o])[1]))
        have = set(re.findall(r"\b(?:GOMP|omp)_\w+", vt.sh(["nm", "--defined-only", lib])[1]))
        if need - have:
            vt.log("OpenMP calls without a stand-in, using real threads:", " ".join(sorted(need - have)))
            self.flags, self.libs = ["-DVT_REAL_OMP"], []
            exe = super().run(work)
        return exe


THREADS = FakeOmpBuild("threads", ["threads.cpp"])


def other_run(c, r):
    o = r.choice([o for o in c["ops"] if o["runs"][0]["v"]])
    r.choice(o["runs"][1:])["v"] += "0"
    return c


def other_sum(c, r):
    o = next((o for o in c["ops"] if not o["runs"][0]["v"]), None)
    if not o:
        return None
    r.choice(o["runs"][1:])["num"] += 5
    return c


prop("C23", "a raster on which two threads touch the same memory", [
    Model("ParallelModel", "MC_Parallel_count_atomic.cfg", 20000),
    Model("ParallelModel", "MC_Parallel_count_critical.cfg", 40000, tiers=("thorough",)),
    Model("ParallelModel", "MC_Parallel_collect_critical.cfg", 70000),
    Model("ParallelModel", "MC_Parallel_reduce_sorted.cfg", 50000, tiers=("thorough",)),
    Model("ParallelModel", "MC_Parallel_flag_or.cfg", 50000, tiers=("thorough",)),
    Model("ParallelModel", "MC_Parallel_stencil_apart.cfg", 50000, tiers=("thorough",)),
    Model("ParallelModel", "MC_Parallel_count_plain.cfg", must_fail="Right"),
    Model("ParallelModel", "MC_Parallel_collect_plain.cfg", must_fail="Right"),
    Model("ParallelModel", "MC_Parallel_flag_last.cfg", must_fail="Right"),
    Model("ParallelModel", "MC_Parallel_reduce_merged.cfg", must_fail="Right"),
    Model("ParallelModel", "MC_Parallel_stencil_inplace.cfg", must_fail="Right"),
    Conf(THREADS, "ThreadsConf", "ThreadsConf.cfg", n=900, n_thorough=6000,
         nontrivial=lambda c: c["real"] or c["conflicts"] > 0,
         canaries=[("result", other_run), ("sum", other_sum), ("exact", flip("exact")), ("lost", lambda c, r: None if c["real"] else c.update(lost=0) or c)]),
])

# ---- the Python interface ------------------------------------------------------
class PyBuild(Build):
    """The extension module of wrappers/pyrichdem, and a script running the
    recorder with the system's Python on it and on /repo's package."""
    def run(self, work):
        import glob, os, subprocess, sysconfig
        py = os.path.join(work, "py")
        os.makedirs(os.path.join(py, "richdem.egg-info"), exist_ok=True)
        with open(os.path.join(py, "richdem.egg-info", "PKG-INFO"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: richdem\nVersion: 0.3.5\n")
        rc, inc = vt.sh(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"])
        if rc != 0:
            raise vt.CheckError("no Python headers: " + inc)
        cxx = ["g++", "-std=c++17", "-O0", "-DNDEBUG", "-fvisibility=hidden", "-fPIC", "-w", "-DDOCTEST_CONFIG_DISABLE", '-DRICHDEM_GIT_HASH="verif"', '-DRICHDEM_COMPILE_TIME="verif"',
               "-I" + vt.REPO + "/include", "-I" + inc.strip()]
        srcs = sorted(glob.glob(vt.REPO + "/wrappers/pyrichdem/src/*.cpp")) + [vt.REPO + "/src/" + s for s in ("random.cpp", "richdem.cpp")] + sorted(glob.glob(vt.REPO + "/src/terrain_generation/*.cpp"))
        jobs = []
        for s in srcs:
            o = os.path.join(py, os.path.basename(s) + ".o")
            jobs.append((s, o, subprocess.Popen(cxx + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, o, p in jobs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise vt.CheckError(f"compiling {s} failed:\n" + out.decode("utf8", "replace")[-4000:])
        rc, out = vt.sh(["g++", "-shared", "-o", py + "/_richdem.so"] + [o for _, o, _ in jobs])
        if rc != 0:
            raise vt.CheckError("link failed:\n" + out[-4000:])
        exe = os.path.join(work, self.name)
        with open(exe, "w") as f:
            f.write(f'#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="{py}:{vt.REPO}/wrappers/pyrichdem" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
                    f'exec /usr/bin/python3 "{vt.HARN}/pyapi.py" "$@"\n')
        os.chmod(exe, 0o755)
        return exe


PYAPI = PyBuild("pyapi", [])


def py_op(fn, where):
    """damage what one step shows"""
    def f(c, r):
        i = [o for o in c["ops"] if where(o)]
        if not i:
            return None
        return None if fn(r.choice(i), r) is False else c
    return f


def py_untouched(c, r):   # the argument of a call that should leave it alone
    i = [o for o in c["ops"] if o["o"] in ("change", "accum", "derive") and not o.get("inplace") and not o["bad"]]
    if not i:
        return None
    a = r.choice(i)
    v = a["S"][a["a"] - 1]["v"]
    v[r.randrange(len(v))] += 100
    return c


def py_outnum(o, r):
    f = "acc" if "acc" in o["k"] else "out"
    v = o["k"][f]
    i = [j for j in range(len(v)) if v[j] >= 0 and not o["k"]["nd"][j]]
    if not i:
        return False
    v[r.choice(i)] += 64


def py_meta(field, val):
    def fn(o, r):
        o["S"][-1]["m"][field] = val
    return py_op(fn, lambda o: o["S"] and o["S"][-1]["m"]["geo"] != "np")


prop("C27", "a history in which arrays share memory or a file is written", [
    Model("PyHeapModel", "MC_PyHeap_quick.cfg", 50000, tiers=("quick",)),
    Model("PyHeapModel", "MC_PyHeap.cfg", 500000, tiers=("thorough",), timeout=850, heap="16g"),
    Model("PyHeapModel", "MC_PyHeap_nocopyback.cfg", must_fail="Faithful"),
    Model("PyHeapModel", "MC_PyHeap_sharedweights.cfg", must_fail="Faithful"),
    Conf(PYAPI, "PyApiConf", "PyApiConf.cfg", n=900, n_thorough=9000, heap="8g",
         nontrivial=lambda c: any(o["F"] or o["o"] == "view" for o in c["ops"]),
         canaries=[("untouched", py_untouched), ("values", py_op(lambda o, r: o["S"][-1]["v"].__setitem__(0, 9999), lambda o: o["o"] == "view")),
                   ("NoData", py_meta("nd", 9999)), ("geotransform", py_meta("geo", "9")), ("projection", py_meta("proj", "x")), ("history", py_meta("hist", ["x"])),
                   ("metadata", py_meta("keys", ["x=y"])), ("type", py_meta("ty", "int4")), ("shape", py_op(lambda o, r: o["S"][-1].update(w=o["S"][-1]["w"] + 1), lambda o: o["S"])),
                   ("filled", py_op(py_outnum, lambda o: o["k"]["rel"] in ("fill", "eps", "breach"))), ("flats", py_op(py_outnum, lambda o: o["k"]["rel"] == "flats")),
                   ("accumulation", py_op(py_outnum, lambda o: o["k"]["rel"] == "accum")), ("random accumulation", py_op(py_outnum, lambda o: o["k"]["rel"] == "rho")),
                   ("attribute", py_op(py_outnum, lambda o: o["k"]["rel"] == "attr" and o["k"]["attr"] == "slope")),
                   ("flood", py_op(lambda o, r: o["k"]["wet"].__setitem__(r.randrange(len(o["k"]["wet"])), 1 << 24), lambda o: o["k"]["rel"] == "fsm")),
                   ("hierarchy", py_op(lambda o, r: o["k"]["lab"].__setitem__(r.randrange(len(o["k"]["lab"])), 77), lambda o: o["k"]["rel"] == "hier")),
                   ("refused", py_op(lambda o, r: o.update(err=False), lambda o: o["o"] == "refused")), ("failed", py_op(lambda o, r: o.update(err=True), lambda o: not o["bad"])),
                   ("file", py_op(lambda o, r: o["F"][-1]["v"].__setitem__(0, 9999), lambda o: o["F"])), ("file NoData", py_op(lambda o, r: o["F"][-1]["m"].update(nd=9999), lambda o: o["F"])),
                   ("compare", py_op(lambda o, r: o["k"].update(rms=o["k"]["rms"] + 50), lambda o: o["k"]["rel"] == "compare"))]),
])


# ---- C28 -------------------------------------------------------------------
class AppsBuild(Build):
    """The programs of /repo/apps, a helper printing flow proportions, and a
    script running the recorder on them."""
    def run(self, work):
        import glob, os, subprocess
        d = os.path.join(work, "apps.d")
        os.makedirs(d, exist_ok=True)
        cf, lf = vt.gdal_flags()
        cxx = ["g++", "-std=c++17", "-O0", "-w", "-DNDEBUG", "-DUSEGDAL", "-fopenmp", '-DRICHDEM_GIT_HASH="verif"', '-DRICHDEM_COMPILE_TIME="verif"',
               "-I" + vt.REPO + "/include"] + cf
        main = [s for s in sorted(glob.glob(vt.REPO + "/apps/rd_*.cpp")) if os.path.basename(s) != "rd_surface_area.cpp"] + [vt.HARN + "/appprops.cpp"]
        lib = [vt.REPO + "/src/" + s for s in ("random.cpp", "richdem.cpp", "gdal.cpp")] + sorted(glob.glob(vt.REPO + "/src/terrain_generation/*.cpp"))
        todo = [(s, os.path.join(d, os.path.basename(s) + ".o")) for s in main + lib]
        running = []
        for s, o in todo + [(None, None)] * 9:
            if len(running) >= (1 if s is None else 9):
                q, p = running.pop(0)
                out, _ = p.communicate()
                if p.returncode != 0:
                    raise vt.CheckError(f"compiling {q} failed:\n" + out.decode("utf8", "replace")[-4000:])
            if s:
                running.append((s, subprocess.Popen(cxx + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, o in todo[:len(main)]:
            b = os.path.basename(s)[:-4]
            rc, out = vt.sh(["g++", "-fopenmp", "-o", os.path.join(d, b if b == "appprops" else b + ".exe"), o] + [q for _, q in todo[len(main):]] + lf)
            if rc != 0:
                raise vt.CheckError(f"linking {b} failed:\n" + out[-4000:])
        exe = os.path.join(work, self.name)
        with open(exe, "w") as f:
            f.write(f'#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1\nexec /usr/bin/python3 "{vt.HARN}/apps.py" --bin "{d}" "$@"\n')
        os.chmod(exe, 0o755)
        return exe


APPS = AppsBuild("apps", [])


def app_op(fn, where):
    return py_op(fn, lambda o: not o["err"] and where(o))


def app_file(field, val):
    return app_op(lambda o, r: o["F"][-1]["m"].update({field: val}), lambda o: o["g"])


def app_input(c, r):   # a program that changes the file it read
    i = [o for o in c["ops"] if o["f"]]
    if not i:
        return None
    o = r.choice(i)
    o["F"][o["f"] - 1]["v"][0] += 1000
    return c


def app_level(o, r):
    k = o["k"]
    i = [j for j in range(len(k["wet"])) if k["wet"][j] > 100]
    if not i:
        return False
    k["wet"][r.choice(i)] += 6
    return True


def app_lab(o, r):
    k = o["k"]
    i = [j for j in range(len(k["lab"])) if k["lab"][j]]
    if not i:
        return False
    k["lab"][r.choice(i)] += 1000
    return True


def rel(name):
    return lambda o: o["k"]["rel"] == name


def app_vals(field, delta):
    def fn(o, r):
        v = o["k"][field]
        i = [j for j in range(len(v)) if not o["k"]["nd"][j]]
        if not i:
            return False
        v[r.choice(i)] += delta
    return fn


prop("C28", "a history in which a program writes a file", [
    Model("AppModel", "MC_App_quick.cfg", 1000000, tiers=("quick",)),
    Model("AppModel", "MC_App.cfg", 3000000, tiers=("thorough",)),
    Model("AppModel", "MC_App_start.cfg", must_fail="Truthful"),
    Model("AppModel", "MC_App_asis.cfg", must_fail="Truthful"),
    Model("AppModel", "MC_App_forgets.cfg", must_fail="Traced"),
    Conf(APPS, "AppConf", "AppConf.cfg", n=1800, n_thorough=20000, heap="8g",
         nontrivial=lambda c: any(o["g"] and o["o"] != "new" for o in c["ops"]),
         canaries=[("input", app_input), ("NoData", app_file("nd", 9999)), ("geotransform", app_op(lambda o, r: o["F"][-1]["m"].update(geo=["9"] * 6), lambda o: o["g"] and o["o"] != "new" and o["o"] != "merge")),
                   ("merged geotransform", app_op(lambda o, r: o["ogeo"].__setitem__(r.choice([0, 3]), o["ogeo"][0] + 99), lambda o: o["o"] == "merge")),
                   ("projection", app_op(lambda o, r: o["F"][-1]["m"].update(proj="x"), lambda o: o["g"] and o["o"] != "new")), ("history", app_op(lambda o, r: o["F"][-1]["m"]["hist"].append("x"), lambda o: o["g"] and o["o"] != "new")),
                   ("metadata", app_op(lambda o, r: o["F"][-1]["m"].update(keys=["x=y"]), lambda o: o["g"] and o["o"] != "new")), ("type", app_op(lambda o, r: o["F"][-1]["m"].update(ty="Int5"), lambda o: o["g"] and o["o"] != "new")),
                   ("values", app_op(lambda o, r: o["F"][o["g"] - 1]["v"].__setitem__(0, 9999), lambda o: o["o"] in ("expand", "setnd", "setgeo", "setproj", "merge"))),
                   ("flood", app_op(app_vals("out", 1), rel("flood"))), ("mask", app_op(app_vals("out", 1), rel("mask"))), ("translated", app_op(app_vals("out", 1), rel("taudem"))), ("directions", app_op(app_vals("out", 9), rel("flowdirs"))),
                   ("breach", app_op(app_vals("out", -50), rel("breach"))), ("accumulation", app_op(py_outnum, rel("accum"))), ("random accumulation", app_op(app_vals("acc", -900), rel("rho"))),
                   ("slope", app_op(app_vals("out", 999), lambda o: o["k"]["rel"] == "attr" and o["k"]["attr"] == "slope")), ("has", app_op(lambda o, r: o["k"].update(yes=not o["k"]["yes"]), rel("has"))),
                   ("water", app_op(lambda o, r: o["k"]["wet"].__setitem__(r.randrange(len(o["k"]["wet"])), 1 << 24), rel("fsm"))), ("water level", app_op(app_level, rel("fsm"))), ("surface", app_op(app_vals("top", 9), rel("fsm"))),
                   ("label", app_op(app_lab, rel("hier"))), ("compare", app_op(lambda o, r: o.update(count=o["count"] + 1), lambda o: o["o"] == "compare" and o["count"] >= 0)),
                   ("difference", app_op(lambda o, r: o["said"].__setitem__(r.randrange(5), 2), lambda o: o["o"] == "compare")), ("hist", app_op(lambda o, r: o["bars"].pop(), lambda o: o["o"] == "hist" and o["bars"])),
                   ("shown history", app_op(lambda o, r: o["hist"].append("x"), lambda o: o["o"] == "history")), ("shown NoData", app_op(lambda o, r: o.update(said=999), lambda o: o["o"] == "shownd")),
                   ("shown geotransform", app_op(lambda o, r: o["wh"].reverse() or o.update(geo=["x"] * 6), lambda o: o["o"] == "showgeo")), ("shown", app_op(lambda o, r: o["got"].__setitem__(0, -777), lambda o: o["o"] == "show" and o["got"])),
                   ("not refused", py_op(lambda o, r: o.update(err=False), lambda o: o["bad"])), ("failed", py_op(lambda o, r: o.update(err=True), lambda o: not o["bad"] and o["o"] in ("derived", "expand", "setnd", "compare")))]),
])

# ---- generated terrain ------------------------------------------------------
NOISE = Build("noise", ["noise.cpp"])


def wavy(c, r):
    i = r.randrange(len(c["v"]))
    c["v"][i] += 40
    return c


prop("C29", "a raster fine enough to show the inside of lattice cells", [
    Model("NoiseModel", "MC_Noise_quick.cfg", 50000, tiers=("quick",)),
    Model("NoiseModel", "MC_Noise_deep.cfg", 500000, tiers=("thorough",)),
    Model("NoiseModel", "MC_Noise_wrong.cfg", must_fail="OneSurface"),
    Conf(NOISE, "NoiseConf", n=64, n_thorough=600, nontrivial=lambda c: c["s"] > 3,
         canaries=[("place", wavy), ("size", bump("u", 40)), ("kept", lambda c, r: c.update(kept=False) or c),
                   ("plane", lambda c, r: c.update(v=[0] * len(c["v"])) or c),
                   ("shifted", lambda c, r: c.update(v=c["v"][-1:] + c["v"][:-1]) or c)]),
])
