#!/usr/bin/env python3
"""Mutation campaign: small changes to the code under test, one at a time, in
scratch copies; which of them do the conformance stages not notice?

usage: mutate.py OUT.json WORKERS PER_FILE SEED [file-substring ...]

Not a check: used while building the checks, to find what they miss.  The
recorders run as an unprivileged user with limited memory."""
import glob, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/richdem/"
# which properties are to notice a change in which file
TARGETS = {
    I + "depressions/Barnes2014.hpp": "C01 C02 C04 C03", I + "depressions/Zhou2016.hpp": "C01", I + "depressions/Wei2018.hpp": "C01",
    I + "depressions/Lindsay2016.hpp": "C05", I + "depressions/depressions.hpp": "C01 C02 C03 C05",
    I + "depressions/depression_hierarchy.hpp": "C11 C12", I + "depressions/fill_spill_merge.hpp": "C13",
    I + "flats/Barnes2014.hpp": "C06", I + "flats/flat_resolution.hpp": "C06 C23", I + "flats/find_flats.hpp": "C06",
    I + "flats/flat_resolution_dinf.hpp": "C06 C10",
    I + "flowmet/Fairfield1991.hpp": "C07", I + "flowmet/Freeman1991.hpp": "C07", I + "flowmet/Holmgren1994.hpp": "C07",
    I + "flowmet/OCallaghan1984.hpp": "C07", I + "flowmet/Quinn1991.hpp": "C07", I + "flowmet/Seibert2007.hpp": "C07", I + "flowmet/Orlandini2003.hpp": "C07", I + "flowmet/Tarboton1997.hpp": "C07",
    I + "flowmet/d8_flowdirs.hpp": "C09 C06", I + "flowmet/dinf_flowdirs.hpp": "C10",
    I + "methods/flow_accumulation.hpp": "C08", I + "methods/flow_accumulation_generic.hpp": "C08",
    I + "methods/d8_methods.hpp": "C09", I + "methods/dinf_methods.hpp": "C10",
    I + "methods/terrain_attributes.hpp": "C26", I + "misc/misc_methods.hpp": "C25 C26",
    I + "common/Array2D.hpp": "C14 C15", I + "common/Array3D.hpp": "C14", I + "common/ManagedVector.hpp": "C16",
    I + "common/grid_cell.hpp": "C21", I + "common/radix_heap.hpp": "C21", I + "common/disjoint_dense_int_set.hpp": "C22",
    I + "common/gdal.hpp": "C15", "src/gdal.cpp": "C15", I + "tiled/A2Array2D.hpp": "C17", I + "tiled/lru.hpp": "C17", I + "common/Layoutfile.hpp": "C20",
    "src/random.cpp": "C24", I + "common/random.hpp": "C24", "src/terrain_generation/PerlinNoise.cpp": "C24", "src/terrain_generation/terrain_generation.cpp": "C24",
    "programs/parallel_d8_accum/main.cpp": "C18", "programs/parallel_d8_accum/perimeters.hpp": "C18",
    "programs/parallel_priority_flood/main.cpp": "C19", "programs/parallel_priority_flood/Barnes2014pf.hpp": "C19", "programs/parallel_priority_flood/Zhou2016pf.hpp": "C19",
    "wrappers/pyrichdem/src/pywrapper.hpp": "C27", "apps/router.hpp": "C28",
    **{f"apps/rd_{a}.cpp": "C28" for a in "compare d8_flowdirs depression_hierarchy depressions_breach depressions_flood depressions_has depressions_mask expand_dimensions fill_spill_merge flood_for_flowdirs flow_accumulation geotransform hist loop_check merge_rasters_by_layout no_data processing_history projection raster_display raster_inspect taudem_d8_to_richdem_d8 terrain_property".split()},
}
SWAPS = [(r"<=", "<"), (r"(?<![<>=!\-])<(?![<=])(?=[^<>;]*[;){])", "<="), (r">=", ">"), (r"(?<=[\w\)\]]) ?>(?![>=]) ?(?=[\w\(\-])", ">="),
         (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"(?<=[\w\)\]]) ?\+(?![+=]) ?(?=[\w\(])", "-"),
         (r"(?<=[\w\)\]]) ?-(?![-=>]) ?(?=[\w\(])", "+"), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\bcontinue;", "break;"), (r"\bbreak;", ";"),
         (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"(?<=[\w\)])\*(?=[\w\(])", "+"), (r"\bwidth\(\)", "height()"), (r"\bheight\(\)", "width()"),
         (r"\bwidth\b(?!\()", "height"), (r"\bneighbours\b", "7"), (r"<= ?8\b", "<8"), (r"<= ?8\b", "<=4")]
SKIP = re.compile(r"RDLOG|progress|[tT]imer|cerr|cout|^\s*//|^\s*\*|^\s*/\*|#include|#ifndef|#define|#pragma once|template ?<|static_assert|assert\(|throw |typedef|^\s*using|namespace|Timings|timings|#pragma|@|citation|reserve\(|\bLOG\b")


def code_lines(text):
    """indices of lines that are code, outside block comments"""
    out, inc = [], False
    for i, l in enumerate(text.split("\n")):
        s = l
        if inc:
            if "*/" in s:
                inc, s = False, s.split("*/", 1)[1]
            else:
                continue
        if "/*" in s:
            if "*/" not in s.split("/*", 1)[1]:
                inc = True
            s = s.split("/*", 1)[0]
        s = s.split("//")[0]
        if s.strip() and not SKIP.search(l):
            out.append((i, s))
    return out


def mutants(text):
    ls = text.split("\n")
    res = []
    for i, s in code_lines(text):
        for pat, rep in SWAPS:
            for m in re.finditer(pat, s):
                t = s[:m.start()] + rep + s[m.end():]
                res.append((i, t))
        if re.match(r"^\s*[\w:.\[\]()>,\- ]*(=|\()[^{}]*;\s*$", s) and not re.match(r"^\s*(const|auto|int|float|double|std::|bool|return|for|if|else|uint\w+|xy_t|i_t|T|elev_t|size_t|unsigned)\b", s):
            res.append((i, "/*gone*/;"))
        m = re.match(r"^(\s*(?:\} ?)?(?:else )?if ?\()(.*)(\)\s*\{?\s*)$", s)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            res.append((i, m.group(1) + "false" + m.group(3)))
            res.append((i, m.group(1) + "true" + m.group(3)))
    return [(i, t) for i, t in res if t != ls[i]]


def worker(k, jobs, results, repo):
    sys.argv = ["x"]
    base, vf = f"/tmp/mut/r{k}", f"/tmp/mut/v{k}"
    os.environ.update(VT_REPO=base, VERIF_TIER="quick", VERIF_SEED="1")
    for d in (base, vf):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "--shared", repo, base], check=True)
    shutil.copytree(VERIF, vf, ignore=shutil.ignore_patterns("build", "seeded", ".git", "evidence"))
    sys.path.insert(0, vf + "/checks")
    import props, vt
    assert vt.VERIF == vf and vt.REPO == base
    lim = ["prlimit", "--as=9000000000", "--nproc=4000", "setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"]
    sh0 = vt.sh

    def sh(cmd, **kw):
        return sh0((lim if "--out" in cmd and "--tier" in cmd else []) + cmd, **kw)
    vt.sh = sh
    vt.NPROC = 2
    for d in props.P.values():
        for st in d["stages"]:
            if isinstance(st, vt.Conf):
                st.heap = "3g"
    os.umask(0)
    popen0, deps = subprocess.Popen, {}

    class P0:
        returncode = 0

        def communicate(self):
            return b"", b""

    def popen(cmd, **kw):  # only recompiles what depends on the changed file
        if isinstance(cmd, list) and cmd[0] == "g++" and "-c" in cmd and "-o" in cmd:
            o = cmd[cmd.index("-o") + 1]
            key = hashlib.md5(" ".join(cmd).encode()).hexdigest()
            if key in deps and os.path.exists(o) and not any(os.stat(f).st_mtime_ns != t for f, t in deps[key]):
                return P0()
            p = popen0(cmd + ["-MMD", "-MF", o + ".d"], **kw)
            c0 = p.communicate

            def comm(*a, **b):
                r = c0(*a, **b)
                deps.pop(key, None)
                if p.returncode == 0:
                    fs = [f for f in open(o + ".d").read().replace("\\\n", " ").split(":", 1)[1].split() if f.startswith(base)]
                    deps[key] = [(f, os.stat(f).st_mtime_ns) for f in fs]
                return r
            p.communicate = comm
            return p
        return popen0(cmd, **kw)
    vt.subprocess.Popen = popen
    ctxs = {}

    class NoCan(Exception):
        pass

    def check(prop):
        """'killed' 'alive' or an error"""
        ctx = ctxs.setdefault(prop, vt.Ctx(prop, "x"))
        os.chmod(ctx.work, 0o777)
        ctx._exes = {}
        for s in props.P[prop]["stages"]:
            if not isinstance(s, vt.Conf):
                continue
            try:
                exe = ctx.build(s.build)
                cases = s.record(ctx, exe, s.n, os.path.join(ctx.work, s.label + ".rec"))
                if not cases:
                    return "error: no cases"
                rej = s.judge(ctx, cases, "mut")
                if any(not ctx.known_match(cases[i], w) for i, w in rej.items()):
                    return "killed"
            except vt.CheckError as e:
                e = str(e)
                if "compiling" in e or "link failed" in e:
                    return "no build"
                return "error: " + e[-300:]
        return "alive"
    bad = {p: r for p in sorted({p for ps in TARGETS.values() for p in ps.split()}) if os.environ.get("MUT_BASE") and (r := check(p)) != "alive"}
    if bad:
        print("baseline", bad, flush=True)
    while True:
        j = jobs.get()
        if j is None:
            return
        f, i, new = j
        p = os.path.join(base, f)
        text = open(p).read()
        ls = text.split("\n")
        old, ls[i] = ls[i], new
        open(p, "w").write("\n".join(ls))
        t0, r = time.time(), "?"
        try:
            by = []
            for prop in TARGETS[f].split():
                r = check(prop)
                by.append(prop + " " + r)
                if r in ("killed", "no build"):
                    break
        except Exception as e:  # noqa
            r = by = "tool: " + repr(e)[-300:]
        finally:
            open(p, "w").write(text)
        results.put({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": r if r in ("killed", "no build") else "ALIVE" if all("alive" in b for b in by) else "ODD", "by": by, "s": round(time.time() - t0, 1)})


def main():
    out, nw, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    repo = os.environ.get("VT_REPO", "/repo")
    rnd = random.Random(seed)
    todo, seen = [], set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            seen.add((d["file"], d["line"], d["new"]))
    for f in TARGETS:
        if not os.path.exists(os.path.join(repo, f)):
            print("no such file", f)
            continue
        if len(sys.argv) > 5 and not any(a in f for a in sys.argv[5:]):
            continue
        m = mutants(open(os.path.join(repo, f)).read())
        rnd.shuffle(m)
        m = [(i, t) for i, t in m if (f, i + 1, t.strip()) not in seen]
        todo += [(f, i, t) for i, t in m[:per]]
    rnd.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    ctx = mp.get_context("spawn")
    jobs, results = ctx.Queue(), ctx.Queue()
    for j in todo:
        jobs.put(j)
    ws = [ctx.Process(target=worker, args=(k, jobs, results, repo)) for k in range(nw)]
    for w in ws:
        jobs.put(None)
        w.start()
    tally = {}
    with open(out, "a") as o:
        for n in range(len(todo)):
            while True:
                try:
                    r = results.get(timeout=30)
                    break
                except Exception:
                    if not any(w.is_alive() for w in ws):
                        return
            tally[r["result"]] = tally.get(r["result"], 0) + 1
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["result"] in ("ALIVE", "ODD"):
                print(r["result"], f'{r["file"]}:{r["line"]}', "|", r["old"], "=>", r["new"], "" if r["result"] == "ALIVE" else r["by"], flush=True)
            if n % 20 == 19:
                print(n + 1, tally, flush=True)
    print(tally)


if __name__ == "__main__":
    main()
