"""P12-P14: volumes, names and overrides of converted files."""
import os
import re

from . import core, nc
from .core import Batch, call

DELIMS = ["    ", ",", "\t", ";", " , "]


def outputs(rng, csv=None):
    """Presentation options of a conversion."""
    o = {"delimiter": rng.choice(DELIMS), "annotation": rng.random() < 0.3,
         "float_format": rng.choice(["%.10g", "%.10g", "%s", "%.3f", "%12.5e"])}
    return {k: v for k, v in o.items() if rng.random() < 0.7}


def raw_lines(path):
    return core.lines_of(core.read_text(path))


def tail_items(line, n=2):
    return [x for x in re.split(r"[\s,;]+", line.strip()) if x][-n:]


def one_dim(rng, **kw):
    """A source with mostly one-dimensional variables on axes of some length."""
    while True:
        p = nc.plan(rng, naxes=rng.choice([1, 1, 2]), **kw)
        for a in p["axes"].values():
            n = rng.choice([1, 2, 3, 5, 7, 8, 12])
            new = nc.plan_axis(rng, a["id"], n, a["time"])
            a.clear()
            a.update(new)
        vs = [v for v in p["vars"] if len(v["dims"]) < 2 or rng.random() < 0.2]
        if any(len(v["dims"]) == 1 for v in vs):
            p["vars"] = [nc.plan_var(rng, v["id"], v["dims"], p["axes"]) if v["dims"] else v for v in vs]
            return p


def two_outputs(rng):
    """Variables on two axes of their own."""
    axes = {k: nc.plan_axis(rng, k, n) for k, n in (("x", 3), ("y", 4))}
    for j, a in enumerate(axes.values()):
        a.update(iv=[8 * (k + j) for k in range(3 + j)], scale=8, dtype="f8")
    return {"axes": axes, "vars": [nc.plan_var(rng, "v", ["x"], axes), nc.plan_var(rng, "w", ["y"], axes)], "gattrs": [], "bounds": []}


def many_rows(rng):
    """A variable of more than a thousand rows."""
    a = nc.plan_axis(rng, "x", 2)
    a.update(iv=[8 * k for k in range(1003)], scale=8, dtype="f8")
    return {"axes": {"x": a}, "vars": [nc.plan_var(rng, "v", ["x"], {"x": a})], "gattrs": [], "bounds": []}


def p12(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p12")
    _, out = core.tlc("VolumesMC")
    ctx.tlc_stats(out)
    ctx.coverage["exhaustive"] = True
    b = Batch(ctx, "VolumesTrace", chunk=400)
    for k in range(ctx.n(700, 6000)):
        p = one_dim(rng) if k else many_rows(rng)
        d = ctx.newdir()
        src = nc.write_nc(p, os.path.join(d, "source.nc"))
        opts = outputs(rng)
        limit = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8, 11, 12, 13] if k else [1])
        no_header = rng.random() < 0.25
        how = rng.choice(["nc", "nc", "csv", "xr", "xrcsv"])
        name = rng.choice(["out.na", "out.na", "o.u.t.na", "out", "out.csv"])

        def convert(folder, **kw):
            os.makedirs(os.path.join(d, folder))
            target = os.path.join(d, folder, name)
            kw = dict(opts, **kw)
            if how.endswith("csv"):
                kw.pop("delimiter", None)
            if how == "nc":
                return call(nappy.convertNCToNA, src, target, **kw)
            if how == "csv":
                return call(nappy.convertNCToCSV, src, target, **kw)
            import xarray as xr
            with xr.open_dataset(src, use_cftime=True, decode_timedelta=False) as ds:
                ds.load()
            fn = nappy.convertXarrayObjectsToNA if how == "xr" else nappy.convertXarrayObjectsToCSV
            return call(fn, [ds[v["id"]] for v in p["vars"]], [("source", "here")], target, **kw)
        whole, err = convert("whole")
        info = {"what": "row limit (%s)" % how, "plan": p, "options": opts, "limit": limit, "no_header": no_header,
                "error": repr(err)}
        if err is not None:
            ctx.violation("conversion without a limit fails: %r" % err, info)
            continue
        files, err = convert("split", size_limit=limit, no_header=no_header)
        if err is not None:
            ctx.violation("conversion with a row limit fails: %r" % err, dict(info, error=repr(err)))
            continue
        outs = []
        for f in whole:
            ls = raw_lines(f)
            nlhead, ffi = map(int, tail_items(ls[0]))
            outs.append({"ffi": ffi, "head": ls[:nlhead], "rows": ls[nlhead:], "name": os.path.basename(f)})
        try:
            got = []
            for f in files:
                ls = raw_lines(f)
                got.append({"lines": ls, "vol": tail_items(ls[5]) if len(ls) > 5 else [], "name": os.path.basename(f)})
        except Exception as exc:
            ctx.violation("reported files cannot be read: %r" % exc, info)
            continue
        info["files"] = {os.path.basename(f): g["lines"] for f, g in zip(files, got)}
        b.add({"limit": limit, "nohead": no_header, "outs": outs, "files": got}, info)
        ctx.count("files_written", len(files))
        ctx.count("outputs_split", sum(o["ffi"] == 1001 and len(o["rows"]) > limit for o in outs))
        ctx.sample({"limit": limit, "rows": [(o["ffi"], len(o["rows"])) for o in outs], "files": len(files)})
        core.shutil.rmtree(d, ignore_errors=True)
    b.report()


# ------------------------------------------------------------------ P13
WORDS = ["out", "o.u.t", "x", ".hid", "a.b", "na", "nc", "csv", "..a", "a.nc.b", "x.ncdf", "d.csv.v2", "x.", "data.na.bak", "n.a", "ab", "0"]
EXTS = [".na", ".na", ".nc", ".nc", ".csv", ".txt", "", ".NA", ".x", ".n", "."]
DIRS = ["", "", "d", "d.na", "d.nc/e", "..d", "long dir", "d.1/.e", "d.ncs", "e.nc"]


def a_path(rng, style, cwd):
    """A file path (normalised) and its absolute form, inside cwd."""
    if rng.random() < 0.12:                               # no dot but in the directory
        p = os.path.join(rng.choice(["d.na", "d.nc/e", "..d", "d.1/.e", "e.nc"]), rng.choice(["out", "x", "na", "ab", "0"]))
        return os.path.join(cwd, p) if style == "abs" else p
    while True:
        p = os.path.join(rng.choice(DIRS), rng.choice(WORDS) + rng.choice(EXTS))
        if os.path.basename(p) not in ("", ".", "..") and os.path.normpath(p) == p:
            return os.path.join(cwd, p) if style == "abs" else p


def p13(ctx):
    import xarray as xr
    from . import na
    nappy = core.nappy()
    rng = ctx.sub("p13")
    cfg = "NamesMC" if not ctx.thorough else "NamesMCdeep"
    recs, out = core.tlc("NamesMC", cfg=cfg)
    ctx.tlc_stats(out)
    ctx.coverage["exhaustive"] = True
    # every short path, through the function that makes default names
    for r in recs:
        for ext in ("na", "nc", "csv"):
            got, err = call(nappy.getFileNameWithNewExtension, r["s"], ext)
            ctx.count("default_names_replayed")
            if err is not None or got != r[ext]:
                ctx.violation("the default name for %r with extension %s is %r, not %r" % (r["s"], ext, got, r[ext]),
                              {"path": r["s"], "ext": ext, "got": got, "expected": r[ext], "error": repr(err)})
                break
    # every short path, as the name asked for of two outputs
    from nappy.nc_interface.nc_to_na import NCToNA
    c = NCToNA(nc.write_nc(two_outputs(rng), os.path.join(ctx.newdir(), "two.nc")))
    for r in recs if len(c.constructNAFileNames("x.na")) == 2 else []:
        got, err = call(c.constructNAFileNames, r["s"]) if r["s"] else (r["two"], None)
        ctx.count("names_of_outputs_replayed")
        if err is not None or got != r["two"]:
            ctx.violation("the names of two outputs called %r are %r, not %r" % (r["s"], got, r["two"]),
                          {"path": r["s"], "got": got, "expected": r["two"], "error": repr(err)})
            break
    b = Batch(ctx, "NamesTrace", chunk=600)
    here = os.getcwd()
    for k in range(ctx.n(220, 3000)):
        root = os.path.join(ctx.newdir(), "root")
        cwd = os.path.join(root, "w1", "w2")
        for x in set(DIRS):
            os.makedirs(os.path.join(cwd, x), exist_ok=True)
        style = rng.choice(["abs", "rel"])
        steps, infos = [], []
        os.chdir(cwd)
        try:
            for j in range(rng.choice([1, 1, 2, 3])):
                one_naming(ctx, nappy, na, xr, rng, root, cwd, style, steps, infos)
        finally:
            os.chdir(here)
        b.add({"steps": steps}, {"what": "names", "steps": steps, "infos": infos})
        ctx.count("conversions", len(steps))
        ctx.sample(steps)
        core.shutil.rmtree(os.path.dirname(root), ignore_errors=True)
    b.report()


def one_naming(ctx, nappy, na, xr, rng, root, cwd, style, steps, infos):
    kind = rng.choice(["na2nc", "na2csv", "dict2nc", "nc2na", "nc2na", "nc2na", "nc2csv", "nc2csv", "xr2na", "xr2csv",
                       "class", "class"])
    inp = a_path(rng, style, cwd)
    given = "" if rng.random() < 0.6 else a_path(rng, style, cwd)
    if given == inp:
        given += ".out"
    if kind == "class" and rng.random() < 0.5 and not inp.endswith(".nc"):
        inp += ".nc"
    st = {"input": inp, "given": given, "only": False, "cls": kind == "class", "limit": 0, "reports": True,
          "outs": [{"ffi": 2010, "rows": [1]}]}
    p = None
    if kind in ("na2nc", "na2csv", "dict2nc"):
        from . import p_na2nc
        d = p_na2nc.plain(rng)
        na.write(nappy, d, inp)
        st["reports"] = kind == "na2nc"
        st["ext"] = "csv" if kind == "na2csv" else "nc"
        if kind == "na2nc":
            do = lambda: nappy.convertNAToNC(inp, given or None, time_warning=False)
        elif kind == "na2csv":
            do = lambda: nappy.convertNAToCSV(inp, given or None, annotation=rng.random() < 0.3)
        else:
            if not given:
                given = st["given"] = a_path(rng, style, cwd)
                if given == inp:
                    given = st["given"] = inp + ".out"
            do = lambda: nappy.writeNADictToNC(d, given)
    else:
        p = one_dim(rng)
        nc.write_nc(p, inp)
        st["ext"] = "csv" if kind.endswith("csv") else "na"
        if rng.random() < 0.5:
            st["limit"] = rng.choice([1, 2, 3, 5])
        opts = {"size_limit": st["limit"] or None}
        if kind == "class":
            st["only"] = rng.random() < 0.3

            def do():
                from nappy.nc_interface.nc_to_na import NCToNA
                c = NCToNA(inp)
                if rng.random() < 0.5:
                    c.convert()
                name = [given] if given else rng.choice([[], [None]])
                if st["only"]:
                    return c.constructNAFileNames(*name)
                c.writeNAFiles(*name, size_limit=opts["size_limit"])
                return c.output_files_written
        elif kind.startswith("nc"):
            st["only"] = rng.random() < 0.3
            opts["only_return_file_names"] = st["only"]
            fn = nappy.convertNCToNA if kind == "nc2na" else nappy.convertNCToCSV
            do = lambda: fn(inp, given or None, **opts)
        else:
            if not given:
                given = st["given"] = a_path(rng, style, cwd)
                if given == inp:
                    given = st["given"] = inp + ".out"
            with xr.open_dataset(inp, use_cftime=True, decode_timedelta=False) as ds:
                ds.load()
            objs = [ds[v["id"]] for v in p["vars"]]
            fn = nappy.convertXarrayObjectsToNA if kind == "xr2na" else nappy.convertXarrayObjectsToCSV
            do = lambda: fn(objs, [], given, **opts)
        # how many outputs, of which index and length
        side = ctx.newdir()
        files, err = call(nappy.convertNCToNA, inp, os.path.join(side, "side.na"))
        outs = []
        if err is None:
            for f in sorted(set(files), key=lambda f: [int(x) for x in re.findall(r"_(\d+)\.na$", f)]):
                if os.path.exists(f):
                    ls = raw_lines(f)
                    nlhead, ffi = map(int, tail_items(ls[0]))
                    outs.append({"ffi": ffi, "rows": list(range(len(ls) - nlhead))})
        st["outs"] = outs
        core.shutil.rmtree(side, ignore_errors=True)
    before = core.tree(root)
    got, err = call(do)
    after = core.tree(root)
    if isinstance(err, core.Hang):
        ctx.violation("the conversion does not end", st)

    def shown(rel):
        full = os.path.join(root, rel)
        return full if style == "abs" else os.path.relpath(full, cwd)
    st.update(raised=err is not None, created=sorted(shown(x) for x in after if after[x] != before.get(x)),
              lost=sorted(shown(x) for x in before if x not in after),
              reported=[] if err is not None or not st["reports"] else [got] if isinstance(got, str) else list(got))
    steps.append(st)
    infos.append({"kind": kind, "error": repr(err), "got": repr(got), "plan": p})
