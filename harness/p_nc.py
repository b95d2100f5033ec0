"""P09-P11, P18, P22: NetCDF and xarray to NASA Ames (spec/NCToNA.tla)."""
import contextlib
import os

from . import core, nc
from .core import Batch, call


def objects(p, path, rng):
    """The variables of the source as xarray objects, from the file."""
    import xarray as xr
    with xr.open_dataset(path, use_cftime=True, decode_timedelta=False) as ds:
        ds.load()
    skip = {b["id"] for b in p["bounds"]}
    order = [v["id"] for v in p["vars"]]
    objs = [ds[k] for k in order if k not in skip]
    if "twins" in p:
        objs = [o.rename({k: i for k, i in p["twins"].items() if k in o.dims}) for o in objs]
    return ds, objs


def convert(ctx, nappy, p, rng, tmp, opts, how=None, **kw):
    """Run one conversion; (names, error, files) with the files as line records."""
    how = how or ("xr" if "twins" in p else rng.choice(["nc", "nc", "nc", "nc", "xr", "ds"]))
    if any("since" in v["attrs"].get("units", "") and None in v["vals"] for v in p["vars"]):
        how = "nc"                                       # xarray cannot decode missing dates
    if how == "ds" and (opts["exclude"] or not opts["all"]):
        how = "nc"
    d = ctx.newdir(rng.random() < 0.4)
    path = nc.write_nc(p, os.path.join(d, "source.nc"))
    out = os.path.join(d, "out.na")
    if how == "nc":
        args = {}
        if not opts["all"]:
            args["var_ids"] = opts["ids"]
        if opts["exclude"]:
            args["exclude_vars"] = opts["exclude"]
        if opts["ffi"]:
            args["requested_ffi"] = opts["ffi"]
        names, err = call(nappy.convertNCToNA, path, out, **dict(args, **kw))
    else:
        import numpy as np
        ds, objs = objects(p, path, rng)
        if not opts["all"]:
            objs = [o for o in objs if o.name in opts["ids"]]
        objs = [o for o in objs if o.name not in opts["exclude"]]
        left = ds.drop_vars([x["id"] for x in p["bounds"]])
        others = {k for k in left.coords if k not in left.dims}
        if how == "ds" and others <= {k for v in left.data_vars.values() for k in v.coords}:
            from nappy.nc_interface.xarray_to_na import XarrayDatasetToNA

            def write():
                c = XarrayDatasetToNA(left, requested_ffi=opts["ffi"] or None)
                c.writeNAFiles(out, **kw)
                return c.output_files_written
            names, err = call(write)
            return d, how, names, err
        if rng.random() < 0.25:                          # attributes as sequences of one
            for o in [o for o in objs if o.ndim]:
                for k, x in o.attrs.items():
                    if k not in nc.NAME_ATTS + ("units",) and np.ndim(x) == 0 and rng.random() < 0.6:
                        o.attrs[k] = rng.choice([lambda y: [y], np.atleast_1d])(x)
        if rng.random() < 0.3:                           # axes among the objects
            used = {k for o in objs for k in o.dims}
            objs += [ds[k] for k in sorted(used) if k in ds.coords and "twins" not in p]
            rng.shuffle(objs)
        names, err = call(nappy.convertXarrayObjectsToNA, objs, [tuple(g) for g in p["gattrs"]], out,
                          requested_ffi=opts["ffi"] or None, **kw)
    return d, how, names, err


def lines_of(path):
    return [core.line_rec(x) for x in core.lines_of(core.read_text(path))]


def configured():
    """The header items the configuration gives, in preference to the source."""
    from nappy.utils import parse_config
    atts = parse_config.getLocalAttributesConfigDict()["na_attributes"]
    return {k: atts[k] for k in ("ONAME", "ORG", "SNAME", "MNAME") if k in atts} or {"none": ""}


def options(rng, p, select=0.4, ffi=0):
    ids = [v["id"] for v in p["vars"]]
    o = {"all": True, "ids": [], "exclude": [], "ffi": ffi}
    if rng.random() < select:
        o["all"] = False
        o["ids"] = rng.sample(ids, rng.randint(1, len(ids)))
        if rng.random() < 0.2:
            o["ids"].append(rng.choice(sorted(p["axes"])))
    if rng.random() < select / 2:
        o["exclude"] = rng.sample(ids, rng.randint(1, max(1, len(ids) - 1)))
    left = [v for v in p["vars"] if (o["all"] or v["id"] in o["ids"]) and v["id"] not in o["exclude"] and v["dims"]]
    if not left:
        o.update(all=True, ids=[], exclude=[])
    return o


def run(ctx, b, p, rng, opts, judge, what, **kw):
    nappy = core.nappy()
    days = [core.today()]
    d, how, names, err = convert(ctx, nappy, p, rng, ctx.tmp, opts, **kw)
    info = {"what": what + " (%s)" % how, "plan": p, "options": opts, "error": repr(err), "names": names}
    if isinstance(err, core.Hang):
        ctx.violation("the conversion does not end", info)
        return None
    files = []
    if err is None:
        try:
            files = [{"name": os.path.basename(f), "lines": lines_of(f)} for f in names]
            info["files"] = {os.path.basename(f): core.read_text(f) for f in names}
        except Exception as exc:
            ctx.violation("reported files cannot be read: %r" % exc, info)
            return None
    days.append(core.today())
    src = nc.source(p, kw.get("float_format", nc.FMT))
    cid = b.add({"src": src, "opts": opts, "raised": err is not None, "files": files, "judge": judge,
                 "conf": configured(), "days": days}, info)
    ctx.count("conversions_refused" if err else "conversions_done")
    ctx.count("files_decoded", len(files))
    ctx.sample({"options": opts, "source": {"axes": {k: a["iv"] for k, a in p["axes"].items()},
                                            "vars": [(v["id"], v["dims"]) for v in p["vars"]]},
                "files": [f["name"] for f in files]})
    core.shutil.rmtree(d, ignore_errors=True)
    return cid


def gridded(rng, **kw):
    """A plan with at least one variable that has an axis."""
    while True:
        p = nc.plan(rng, **kw)
        if any(v["dims"] for v in p["vars"]):
            return p


SMALL = {"a": [0, 8, 16, 24], "b": [0, 8], "c": [0, 16], "d": [0, 8, 24]}


def small(ctx, b, rng, cfg, judge, most=None):
    """The sources of the grouping model (NCToNAMC), all or some of them."""
    recs, out = core.tlc("NCToNAMC", cfg=cfg)
    ctx.tlc_stats(out)
    ctx.count("model_sources", len(recs))
    if most is not None and most < len(recs):
        recs = rng.sample(recs, most)
    for r in recs:
        used = sorted({k for dims in r["dims"] for k in dims})
        axes = {k: {"id": k, "iv": SMALL[k], "attrs": {}, "time": False, "dtype": "f8", "scale": 8, "units": ""} for k in used}
        p = {"axes": axes, "vars": [], "gattrs": [], "bounds": []}
        for j, dims in enumerate(r["dims"]):
            n = 1
            for k in dims:
                n *= len(SMALL[k])
            p["vars"].append({"id": "v%d" % (j + 1), "dims": dims, "attrs": {}, "num": -1, "anum": -1, "fill": None,
                              "dtype": "f8", "vals": [1000 * (j + 1) + i for i in range(n)]})
        if not used:
            continue                                     # nothing that could be written
        run(ctx, b, p, rng, {"all": True, "ids": [], "exclude": [], "ffi": r["ffi"]}, judge, "small source")
        ctx.count("model_sources_converted")


def p09(ctx):
    rng = ctx.sub("p09")
    b = Batch(ctx, "NCToNATrace", chunk=150)
    small(ctx, b, rng, "NCToNAMC" if not ctx.thorough else "NCToNAMCdeep", ["once"])
    for k in range(ctx.n(520, 6000)):
        p = gridded(rng) if k % 25 else nc.scattered(rng)
        if rng.random() < 0.35:
            nc.add_bounds(rng, p)
        elif rng.random() < 0.25:
            p = nc.twin(rng, p)
        run(ctx, b, p, rng, options(rng, p), ["once"], "variables written")
    b.report()


def p10(ctx):
    rng = ctx.sub("p10")
    b = Batch(ctx, "NCToNATrace", chunk=150)
    small(ctx, b, rng, "NCToNAMCdeep", ["once", "file", "index"], ctx.n(200, 2000))
    for k in range(ctx.n(600, 7000)):
        p = gridded(rng)
        if rng.random() < 0.3:
            nc.number(rng, p)
        if rng.random() < 0.35:
            p = nc.twin(rng, p)
        run(ctx, b, p, rng, options(rng, p, 0.15), ["once", "file"], "values and grouping")
    b.report()


def p22(ctx):
    rng = ctx.sub("p22")
    b = Batch(ctx, "NCToNATrace", chunk=150)
    for k in range(ctx.n(420, 5000)):
        p = gridded(rng, time=0.95, naxes=rng.choice([1, 1, 2, 3]), ref=nc.old_ref(rng) if k % 4 == 0 else None)
        if rng.random() < 0.3:                           # the start date of an earlier conversion
            p["gattrs"].append(("first_valid_date_of_data", [rng.choice([1999, 2024]), rng.randint(1, 12), rng.randint(1, 28)]))
        run(ctx, b, p, rng, options(rng, p, 0.1), ["file", "date"], "times")
    b.report()
    from . import p_na2nc
    p_na2nc.p22(ctx)


def subsets(rng, p):
    """Add an axis that lists every n-th value of another, as FFI 1020 wants, or nearly."""
    base = p["axes"][rng.choice(sorted(p["axes"]))]
    base.pop("novar", None)
    n = rng.choice([4, 6, 6, 8, 9, 12, 16])
    step = rng.choice([8, 4, 20])
    base["iv"] = [base["iv"][0] + k * step for k in range(n)]
    for j in range(rng.choice([1, 1, 2])):
        every = rng.choice([2, 2, 3, 4])
        sub = dict(base, id=base["id"] + "_s%d" % j, attrs=dict(base["attrs"]))
        sub["iv"] = base["iv"][::every]
        if rng.random() < 0.4 and len(sub["iv"]) > 1:
            sub["iv"][rng.choice([rng.randrange(len(sub["iv"])), len(sub["iv"]) - 1])] += rng.choice([1, -1, step])
            sub["iv"].sort()
        p["axes"][sub["id"]] = sub
        for k in range(rng.choice([1, 1, 2])):
            p["vars"].append(nc.plan_var(rng, "sub%d%d" % (j, k), [sub["id"]], p["axes"]))
    for v in p["vars"]:
        n = 1
        for d in v["dims"]:
            n *= len(p["axes"][d]["iv"])
        if n != len(v["vals"]):
            new = nc.plan_var(rng, v["id"], v["dims"], p["axes"])
            v.clear()
            v.update(new)
    if rng.random() < 0.5:
        rng.shuffle(p["vars"])
    return p


def p11(ctx):
    rng = ctx.sub("p11")
    b = Batch(ctx, "NCToNATrace", chunk=150)
    small(ctx, b, rng, "NCToNAMCffi", ["once", "file", "index"], ctx.n(500, 4000))
    if ctx.thorough:
        small(ctx, b, rng, "NCToNAMCffideep", ["once", "file", "index"], 4000)
    for k in range(ctx.n(560, 7000)):
        r = rng.random()
        if k % 4 == 3:                                   # possible in two dimensions
            p = nc.planar(rng)
            if rng.random() < 0.15:
                p = nc.twin(rng, p)
            ffi = rng.choice([2310, 2310, 2110, 2010, 0])
        elif r < 0.12:
            p = gridded(rng, naxes=5, maxrank=5, nvars=rng.choice([1, 2, 3]))
            ffi = rng.choice([0, 0, 0, 4010])
        elif r < 0.35:
            p = subsets(rng, gridded(rng, naxes=rng.choice([1, 1, 2]), nvars=rng.choice([1, 2]), maxrank=1))
            ffi = rng.choice([1020, 1020, 1020, 1020, 1001, 1010])
        else:
            rank = rng.choice([1, 2, 2, 2, 2, 3, 4])
            p = gridded(rng, naxes=rng.choice([rank, rank, max(rank, rng.randint(1, 4))]), nvars=rng.choice([1, 1, 2, 3]))
            if rng.random() < 0.8:
                keep = [v for v in p["vars"] if len(v["dims"]) == rank or (rank > 1 and len(v["dims"]) == 1 and rng.random() < 0.6)]
                if keep and any(len(v["dims"]) for v in keep):
                    p["vars"] = keep
            top = max(len(v["dims"]) for v in p["vars"])
            fit = {1: [1001, 1001, 1010, 1020], 2: [2010, 2110, 2110, 2310, 2310], 3: [3010], 4: [4010]}[top]
            ffi = rng.choice(fit + fit + [0, 0, 1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010, 1234])
        run(ctx, b, p, rng, options(rng, p, 0.1, ffi), ["once", "file", "index", "date"], "index %s" % ffi)
    b.report()


FORMATS = ["%.10g", "%.10g", "%.10g", "%s", "%.3f", "%.6e", "%12.5e", "%g", "%.4g"]


def p18(ctx):
    from . import p_na2nc
    rng = ctx.sub("p18")
    b = Batch(ctx, "NCToNATrace", chunk=150)
    for k in range(ctx.n(450, 4500)):
        p = gridded(rng, naxes=rng.choice([1, 1, 2, 2, 3]))
        for v in p["vars"]:
            if v["dims"] and rng.random() < 0.85:
                nc.gaps(rng, v)
        for v in p["vars"]:
            # names tell the variables apart
            v["attrs"]["long_name"] = v["id"]
        fmt = rng.choice(FORMATS)
        if any(merged(v, fmt) for v in p["vars"]):
            fmt = "%.10g"
        run(ctx, b, p, rng, options(rng, p, 0.1), ["missing"], "missing values", float_format=fmt)
    b.report()
    b = Batch(ctx, "NAToNCTrace", chunk=150)
    for k in range(ctx.n(350, 3500)):
        p_na2nc.one(ctx, b, rng, ["values", "missing"], "missing values", rename=0, gatts=0)
    b.report()


def merged(v, fmt):
    """Whether the format makes a valid value look missing."""
    if v["fill"] == "nan":
        return False
    miss = core.canon(float(-1e20 if v["fill"] is None else v["fill"]), fmt)
    return any(x is not None and core.canon(x, fmt) == miss for x in v["vals"]) and "scale_factor" not in v["attrs"]


GKEYS = ["title", "source", "institution", "comment", "history", "Conventions", "references", "project", "NV", "ONAME",
         "DATE", "file_format_index", "no_of_nasa_ames_header_lines", "file_number_in_set", "total_files_in_set",
         "first_valid_date_of_data", "Title", "a name", "x", "contact", "created"]
GVALUES = [3, 0.5, -1, [1, 2, 3], [0.5, 1.5], ["a", "b"], 0]
VKEYS = ["standard_name", "comment", "valid_min", "cell_methods", "title", "note", "id", "flag_values", "source"]


def attributes(rng, p):
    for k in rng.sample(GKEYS, rng.choice([0, 1, 2, 4, 6, 10])):
        v = nc.text(rng) if rng.random() < 0.75 else rng.choice(GVALUES + [""])
        if k == "institution" and rng.random() < 0.5:
            v = "My institute (ONAME from NASA Ames file); Our organisation (ORG from NASA Ames file)."
        if k == "comment" and str(v).startswith("==="):
            v = "plain"
        if k == "first_valid_date_of_data" and rng.random() < 0.4:
            v = [2001, 2, 3]
        p["gattrs"].append((k, v))
    for v in p["vars"]:
        for k in rng.sample(VKEYS, rng.choice([0, 0, 1, 2, 3])):
            v["attrs"][k] = nc.text(rng) if k in nc.NAME_ATTS + ("id",) or rng.random() < 0.7 else rng.choice([1.5, 3, -0.25, [1, 2], ""])
        if "long_name" not in v["attrs"]:
            v["attrs"]["long_name"] = v["id"]
        for k in [k for k, x in v["attrs"].items() if x == ""]:
            v["attrs"][k] = "filled"


CONFIGS = [
    "[nc_attributes]\n[na_attributes]\n",
    "[nc_attributes]\ntitle = A configured title\nsource = Configured source\nhistory = None\ncomment = x\n"
    "Conventions = CF-1.0\nreferences = y\n[na_attributes]\nSNAME = The configured source\n",
    "[nc_attributes]\ninstitution = A place\n[na_attributes]\nONAME = Me\nMNAME = Our mission: x = y\nORG = Our place\n",
]


@contextlib.contextmanager
def configuration(ctx, text):
    """Run with other local attributes."""
    from nappy.utils import parse_config
    path = os.path.join(ctx.newdir(), "local_attributes.ini")
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(text)
    old = os.environ.get("NAPPY_LOCAL_ATTRIBUTES")
    os.environ["NAPPY_LOCAL_ATTRIBUTES"] = path
    parse_config.attributes_config_dict = None           # (what is in effect is asked for, by configured())
    try:
        yield
    finally:
        os.environ.pop("NAPPY_LOCAL_ATTRIBUTES")
        if old is not None:
            os.environ["NAPPY_LOCAL_ATTRIBUTES"] = old
        parse_config.attributes_config_dict = None


def p24(ctx):
    rng = ctx.sub("p24")
    b = Batch(ctx, "NCToNATrace", chunk=150)

    def some(n):
        for k in range(n):
            p = gridded(rng, naxes=rng.choice([1, 1, 2, 3]), nvars=rng.choice([1, 2, 3]))
            attributes(rng, p)
            run(ctx, b, p, rng, options(rng, p, 0.1), ["once", "file", "header"], "attributes")
    some(ctx.n(420, 4000))
    for text in CONFIGS:
        with configuration(ctx, text):
            some(ctx.n(40, 400))
    b.report()
