"""P17-P22: NASA Ames to NetCDF and xarray objects (spec/NAToNC.tla)."""
import os

from . import core, na
from .core import Batch, call, canon

GRID = (1001, 1010, 1020, 2010, 3010, 4010)
VNAMES = ["Ozone", "Temperature", "u-wind", "NO2/NO", "CH4*10", "50%", "a,b", "#1 flux", "T^2", "Wind  speed", "q",
          "Relative Humidity", "O3 [raw]", "& more", "x'", "level count", "data: raw", "1.5 x", "A(B)c", "é-flux",
          "'quoted'", ".x", ";(y", "|z|", '"Q"', "<5um", "`t", ":", "\\alpha"]
XNAMES = ["Altitude", "Latitude", "longitude of parcel", "Time", "time of day", "Elapsed time", "Pressure Level",
          "station no", "Scan angle", "bin", "Height", "UT", ".axis", "'z"]
UNITS = ["K", "hPa", "m s-1", "ppbv", "degrees_north", "1", "kg/m^2", "%"]
TIMES = ["days since 2001-03-05", "hours since 1999-12-31 06:00:00", "seconds since 2000-1-1", "s", "UT hours",
         "days from 2000-01-01", "months since 1990-02-01"]
RARE_TIMES = ["days since 1-1-1", "days since 800-01-01", "hours since 45-3-15 12:00:00", "minutes since 1970-01-01 00:00:00 UTC",
              "days  since   2001-3-5", "day since 1990-02-01 6:0:0", "years since 1850-1-1", "weeks since 1999-01-04"]
RECOGNISED = {"days since 2001-03-05", "hours since 1999-12-31 06:00:00", "seconds since 2000-1-1",
              "months since 1990-02-01"} | set(RARE_TIMES)
SCALES = [1, 1.0, 1, 0.1, 10, 0.01, 0.001, 2.5, -1.0, 1000, 0.5, 100.0, 3]


def value(rng):
    return rng.choice([rng.randint(-999, 9999), rng.randint(-9999, 9999) / 100.0, rng.randint(-999, 999) / 8.0, 0,
                       rng.randint(1, 99) / 1000.0, rng.randint(-9, 9) * 1000])


def missing(rng):
    return rng.choice([-9999, -999.99, 1e20, -1e20, 9.9e36, 99999, -9999.9, 99, 0, -1, 9999.99, 0.001, 0.3, 0.3, -99.9, 99.99, 99.99])


def name(rng, pool, units, used):
    while True:
        s = rng.choice(pool)
        if rng.random() < 0.15:
            s = "%s %s" % (s, rng.choice(VNAMES[:6]))
        if rng.random() < 0.1 and len(s) < 64:
            s = s + " " + "x" * rng.choice([40, 58, 63 - len(s), 62 - len(s), 70])
        if s.strip() and s not in used:
            used.add(s)
            break
    if rng.random() < 0.6:
        s += " (%s)" % rng.choice(units)
    return s


def axis_type(s):
    s = s.lower()
    for t in ("time", "level", "latitude", "longitude"):
        if t in s:
            return t
    return s.split("(")[0].strip()


def source(rng, ffi=None, prefix="", axes=None, comments=True, many=False):
    """A data set of a convertible index, with values whose products are exact."""
    ffi = ffi or rng.choice(GRID)
    sh = na.shape(rng, ffi)
    sh["marks"] = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.02:
        sh = na.enlarge(rng, sh, 101)
        sh["marks"] = max(1, sh["marks"])
    if many:
        sh["nv"] = rng.choice([9, 10, 11, 12, 13])
        sh["naux"] = rng.choice([sh["naux"], 10, 11, 12])
    d = na.dataset(rng, sh)
    niv = ffi // 1000
    used, types, twins = set(), set(), rng.random() < 0.25
    xn = []
    while len(xn) < niv:
        s = name(rng, XNAMES, UNITS + TIMES, set())
        t = axis_type(s)
        if t == "time" and rng.random() < 0.7:
            s = s.split(" (")[0] + " (%s)" % rng.choice(TIMES)
        # (axis names that differ may well become the same)
        if t not in types or (twins and s.split(" (")[0] not in [x.split(" (")[0] for x in xn]):
            types.add(t)
            xn.append(s)
    if twins and niv > 1:
        j, k = rng.sample(range(niv), 2)
        pair = rng.choice([("Pressure Level (hPa)", "height level (m)"), ("Height (m)", "height (km)"), ("UT", "Ut"),
                           ("Scan angle (deg)", "Scan+angle (rad)"), ("Latitude", "latitude of station (1)"), ("bin", "bin (1)"),
                           ("Time (%s)" % TIMES[0], "time of day (s)")])
        if not any(axis_type(s) == axis_type(pair[0]) for i, s in enumerate(xn) if i not in (j, k)):
            xn[j], xn[k] = pair
    d["XNAME"] = xn
    d["VNAME"] = [prefix + name(rng, VNAMES, UNITS, used) for _ in range(d["NV"])]
    if rng.random() < 0.05:
        d["VNAME"][0] = "(%s)" % rng.choice(UNITS)                      # no name at all
    if rng.random() < 0.3 and d["NV"] > 1:
        alike(rng, d["VNAME"])
    if rng.random() < 0.15 and d["NV"] > 1:
        d["VNAME"][1] = d["VNAME"][0].split(" (")[0] + " (other)"       # same name, other units
    if rng.random() < 0.12:                                             # the name of an axis
        s = rng.choice(xn).split(" (")[0]
        s = rng.choice([s, s.lower(), axis_type(s), s.upper() if s.isascii() else s]) + rng.choice(["", " (other)"])
        if not prefix and s.strip() not in [x.strip() for x in d["VNAME"]]:
            d["VNAME"][rng.randrange(d["NV"])] = s
            used.add(s)
    d["VSCAL"] = [rng.choice(SCALES) for _ in d["VSCAL"]]
    d["VMISS"] = [missing(rng) for _ in d["VMISS"]]
    if ffi != 1001 and d["NAUXV"]:
        d["ANAME"] = [prefix + name(rng, VNAMES, UNITS, used) for _ in range(d["NAUXV"])]
        if rng.random() < 0.4 and d["NAUXV"] > 1:
            alike(rng, d["ANAME"])
        d["ASCAL"] = [rng.choice(SCALES) for _ in d["ASCAL"]]
        d["AMISS"] = [missing(rng) for _ in d["AMISS"]]
        for k in range(d["NAUXV"]):
            d["A"][k] = fill(rng, d["A"][k], d["AMISS"][k], d["ASCAL"][k])
    for n in range(d["NV"]):
        d["V"][n] = fill(rng, d["V"][n], d["VMISS"][n], d["VSCAL"][n])
    step = lambda: rng.choice([1, 0.5, -2.5, 100, 0.125, 0.1])
    if niv == 1:
        if ffi == 1020:
            d["DX"] = [rng.choice([1, 0.5, -2, 0.25, 0.1])]
            d["X"] = ladder(rng, len(d["X"]), d["DX"][0] * d["NVPM"])
        else:
            d["X"] = ladder(rng, len(d["X"]), step())
    else:
        d["X"] = [ladder(rng, len(d["X"][0]), step())] + \
            [ladder(rng, d["NXDEF"][k], step()) for k in range(niv - 1)]
        d["DX"] = [0] + [rng.choice([1, 0.5, -2, 1e-3, 10.0, 0.1, 2.5]) for _ in range(niv - 1)]
        for k, n in enumerate(d["NXDEF"]):
            if n < d["NX"][k]:                          # the rest is implied, and what is listed agrees
                d["X"][k + 1] = [float("%.9g" % (d["X"][k + 1][0] + j * d["DX"][k + 1])) for j in range(n)]
    if not comments:
        d.update(NSCOML=0, SCOM=[], NNCOML=0, NCOM=[])
    elif rng.random() < 0.3 and d["NNCOML"]:
        d["NCOM"][0] = rng.choice(["==== Special Comments follow ====", "=== Data Section begins on the next line ==="])
    return d


def alike(rng, names):
    """Give one name that is a part of another, or differs little from it."""
    j, k = rng.sample(range(len(names)), 2)
    head = names[j].split(" (")[0]
    new = rng.choice([head + " error", head + " error (s)", head, head + "2", head.upper() if head.isascii() else head + "3", "x" + names[j], names[j] + " b", head[:3]])
    if new.strip() and new not in names and len(new) < 60:
        names[k] = new


def plain(rng, ffi=None):
    """A source with ordinary names and no comments, to convert by any route."""
    d = source(rng, ffi, comments=False)
    d["XNAME"] = ["axis %d (m)" % j for j in range(len(d["XNAME"]))]
    d["VNAME"] = ["v%d (K)" % j for j in range(d["NV"])]
    if d.get("NAUXV"):
        d["ANAME"] = ["a%d (s)" % j for j in range(d["NAUXV"])]
    return d


def known_time(d):
    """Whether a time axis, if any, has recognised units."""
    for s in d["XNAME"]:
        if axis_type(s) == "time" and not any("(%s)" % t in s for t in RECOGNISED):
            return False
    return True


def ladder(rng, n, step):
    start = rng.choice([0, 1, 10.5, -90, 1000, 0.001, 36.25])
    xs = [start]
    while len(xs) < n:
        xs.append(xs[-1] + step + (rng.choice([0, 0, 0.5]) if n > 2 and abs(step) < 1000 and step > 0 else 0))
    return [float("%.9g" % x) for x in xs]


def fill(rng, arr, miss, scal):
    out = []
    for v in arr:
        if isinstance(v, list):
            out.append(fill(rng, v, miss, scal))
            continue
        r = rng.random()
        if r < 0.2:
            x = miss
        elif r < 0.28 and abs(miss) < 1e6:
            x = float("%.9g" % (miss / scal))           # becomes the missing value when scaled
            if float("%.9g" % (x * scal)) != miss or len(repr(x)) > 9:
                x = value(rng)
        elif r < 0.30 and 1 <= abs(miss) < 1e6 and scal in (1, 0.1, 10, 0.01, 100.0):     # very nearly: in the eighth digit
            x = float("%.8g" % ((miss + rng.choice([-1, 1]) * 10.0 ** (len(str(int(abs(miss)))) - 8)) / rng.choice([1, scal])))
        elif r < 0.33:                                  # nearly the missing value
            x = miss + rng.choice([-1, 1]) * (0.01 if abs(miss) < 1e4 else 0.1) if abs(miss) < 1e6 else miss * rng.choice([0.999, -1])
            x = float("%.9g" % x)
        else:
            x = value(rng)
        out.append(x)
    return out


STYLES = [{"wrap": "one"}, {"wrap": "one"}, {"wrap": "random", "space": True, "notes": True}, {"wrap": "each"}]


def lines_for(rng, d):
    ls = na.layout(rng, d, rng.choice(STYLES))
    return ls, [core.line_rec(x) for x in ls]


# ---------------------------------------------------------------- recording
def tok(x):
    return canon(float("%.12g" % float(x)))


def vals_of(arr, fill_value):
    """(tokens, missing flags) of an array, masked or not."""
    import numpy as np
    data = np.ma.getdata(arr).ravel().tolist()
    mask = np.ma.getmaskarray(arr).ravel().tolist()
    out, miss = [], []
    for x, m in zip(data, mask):
        gone = bool(m) or x != x or (fill_value is not None and x == fill_value)
        miss.append(1 if gone else 0)
        out.append("none" if gone else tok(x))
    return out, miss


def text_of(attrs, k):
    v = attrs.get(k, "")
    return v if isinstance(v, str) else repr(v)


def att(k, v):
    vs = v.tolist() if hasattr(v, "tolist") else v
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    vs = [canon(x) for x in vs]
    return {"k": k, "v": vs, "lines": vs[0].split("\n") if vs and isinstance(vs[0], str) else []}


def record_nc(path):
    """The content of a NetCDF file, read with netCDF4."""
    import netCDF4
    import numpy as np
    d = netCDF4.Dataset(path)
    try:
        dims = set(d.dimensions)
        vs = []
        for nm, v in d.variables.items():
            if nm in dims and v.dimensions == (nm,):
                continue
            attrs = {k: v.getncattr(k) for k in v.ncattrs()}
            fv = attrs.get("_FillValue")
            v.set_auto_maskandscale(False)
            arr = v[...]
            val, miss = vals_of(arr, None if fv is None else float(fv))
            coords, cunits = [], []
            for x in v.dimensions:
                if x in d.variables:
                    c = d.variables[x]
                    c.set_auto_maskandscale(False)
                    coords.append([tok(y) for y in np.ma.getdata(c[...]).ravel()])
                    cunits.append(text_of({k: c.getncattr(k) for k in c.ncattrs()}, "units"))
                else:
                    coords.append(["no coordinate variable"])
                    cunits.append("")
            vs.append(var_rec(nm, v.dimensions, coords, cunits, val, miss, fv, attrs))
        return {"vars": vs, "gatts": [att(k, d.getncattr(k)) for k in d.ncattrs()]}
    finally:
        d.close()


def var_rec(nm, dims, coords, cunits, val, miss, fv, attrs):
    return {"name": nm, "dims": list(dims), "coords": coords, "cunits": cunits, "val": val, "miss": miss,
            "fill": "none" if fv is None else tok(fv), "long": text_of(attrs, "long_name"),
            "title": text_of(attrs, "title"), "units": text_of(attrs, "units"),
            "num": int(attrs.get("nasa_ames_var_number", -1)), "anum": int(attrs.get("nasa_ames_aux_var_number", -1))}


def record_xr(objs, gatts):
    import numpy as np
    vs = []
    for da in objs:
        fv = da.encoding.get("_FillValue")
        val, miss = vals_of(np.asarray(da.values), None if fv is None else float(fv))
        coords = [[tok(y) for y in np.asarray(da.coords[x].values).ravel()] if x in da.coords else ["none"] for x in da.dims]
        vs.append(var_rec(str(da.name), [str(x) for x in da.dims], coords,
                          [text_of(da.coords[x].attrs, "units") if x in da.coords else "" for x in da.dims],
                          val, miss, fv, da.attrs))
    return {"vars": vs, "gatts": [att(k, v) for k, v in gatts]}


# ---------------------------------------------------------------- options
def sel_all():
    return {"all": True, "sel": []}


def selection(rng, names, p, digits=False):
    """(specification form, argument) of a selection of variables."""
    if rng.random() > p or not names:
        return sel_all(), None
    ks = rng.sample(range(len(names)), rng.randint(1, len(names)))
    ks = [k for k in ks if names.index(names[k]) == k]
    if not ks:
        return sel_all(), None
    if rng.random() < 0.5:
        arg = list(ks)
        if digits and len(names) > 10 and rng.random() < 0.5:           # a number of two digits first
            k = rng.randrange(10, len(names))
            if names.index(names[k]) == k:
                arg = [k] + [j for j in arg if j != k]
        if rng.random() < 0.12:
            arg.append(len(names) + rng.choice([0, 1, 5]))
        if digits and rng.random() < (0.4 if len(names) < 11 else 0.7):
            return {"all": False, "sel": [{"idx": k, "name": ""} for k in arg]}, [str(k) for k in arg]
        return {"all": False, "sel": [{"idx": k, "name": ""} for k in arg]}, arg
    arg = [names[k] for k in ks]
    if rng.random() < 0.2:
        some = rng.choice(names)                         # no name of a variable, but a part of one
        odd = rng.choice(["no such variable", some[:-1], some[1:], some.split(" (")[0], some.upper(), some + " "])
        if odd and odd not in names and not odd.strip().isdigit():
            arg.insert(rng.randint(0, len(arg)), odd)
    return {"all": False, "sel": [{"idx": -1, "name": s} for s in arg]}, arg


GATTS = [("project", "worms"), ("Errata", "I meant worm holes!"), ("n", 3), ("ratio", 0.25), ("list", [1, 2, 3]),
         ("multi", "two\nlines"), ("Conventions", "CF-1.0"), ("title", "user title"), ("history", "user history"),
         ("references", "none"), ("comment", "user comment"), ("institution", "user institution"), ("blank", " x "),
         ("Title", "capital"), ("source_file", "abc"), ("unicode", "é 5°"), ("reals", [0.5, -2.0]), ("big", 2 ** 40), ("mixed", [1, -2 ** 33]), ("edge", 2 ** 31), ("empty", []),
         ("least", -2 ** 31), ("pair", (1, 2)), ("words", ["a", "b c"]), ("file_format_index", 7), ("source", "user source"), ("two words", "x"), ("A.b-c:d", "y"), ("zero", 0)]


def options(rng, d, select=0.3, rename=0.3, gatts=0.4, tunits=0.3):
    """(options as the specification sees them, keyword arguments)."""
    kw = {}
    o = {"vars": sel_all(), "aux": sel_all(), "rename": [], "gatts": [], "tunits": "",
         "timelike": sorted(RECOGNISED), "dict": False}
    o["vars"], v = selection(rng, d["VNAME"], select, True)
    if v is not None:
        kw["variables"] = v
    if d.get("NAUXV"):
        o["aux"], v = selection(rng, d["ANAME"], select)
        if v is not None:
            kw["aux_variables"] = v
    if rng.random() < rename:
        import re
        pool = list(d["VNAME"]) + (d.get("ANAME") or [])
        m = {}
        for s in rng.sample(pool, rng.randint(1, len(pool))):
            n = re.sub(r"[\/\s\[\(\)\]\=\+\-\?\#\~\@\&\$\%\!\*\{\}\^]+", "_", s.split(" (")[0]).lower()
            key = n if rng.random() < 0.7 else n.upper() if n.isascii() and rng.random() < 0.5 else s
            if key.lower() in [x.lower() for x in m]:
                continue                                # which of the two applies is not defined
            m[key] = rng.choice(["new_name", "New Name", "renamed", "RN"]) + str(len(m))
        if rng.random() < 0.3:
            m["not_there"] = "nothing"
        kw["rename_variables"] = m
        o["rename"] = [{"from": a, "to": b} for a, b in m.items()]
    if rng.random() < gatts:
        g = rng.sample(GATTS, rng.randint(1, 5))
        kw["global_attributes"] = g
        o["gatts"] = [{"k": k, "v": att(k, v)["v"]} for k, v in g]
    if rng.random() < tunits:
        kw["time_units"] = o["tunits"] = rng.choice(["hours since 2003-04-30 10:00:00", "days since 2000-01-01", "days since 5-6-7"])
    kw["time_warning"] = False
    return o, kw


# ---------------------------------------------------------------- one conversion
def convert(ctx, nappy, rng, d, path, o, kw, judge, how=None):
    """Convert a file in one of the possible ways: (raised, out, info)."""
    out = {"vars": [], "gatts": []}
    target = path + ".nc"
    how = how or rng.choice(["nc", "nc", "nc", "xr", "class", "handle"])
    if how == "xr" and not known_time(d):
        how = "nc"                                      # would ask for the time units
    if how == "xr":
        # no options here
        o.update(vars=sel_all(), aux=sel_all(), rename=[], gatts=[], tunits="")
        got, err = call(nappy.readXarrayObjectsFromNA, path)
        if err is None:
            out = record_xr(list(got[0]) + list(got[1]), got[2])
    elif how in ("class", "handle"):
        import nappy.nc_interface.na_to_nc as m
        times, read = rng.choice([1, 1, 2]), rng.random() < 0.5

        def do():
            source = path
            if how == "handle":                           # an open file object, used already or not
                source = nappy.openNAFile(path)
                if read:
                    source.readData()
            for _ in range(times):
                c = m.NAToNC(source, **kw)
                c.convert()
                c.writeNCFile(target)
            return target
        got, err = call(do)
        if err is None:
            out = record_nc(target)
    else:
        got, err = call(nappy.convertNAToNC, path, target, **kw)
        if err is None:
            out = record_nc(target)
    return err, out, how


def small(ctx, b, rng, judge, most=None):
    """The sources of the naming model (NAToNCMC), all or some of them."""
    recs, out = core.tlc("NAToNCMC", cfg="NAToNCMCdeep" if ctx.thorough else None)
    ctx.tlc_stats(out)
    ctx.count("model_sources", len(recs))
    for r in recs if most is None or most >= len(recs) else rng.sample(recs, most):
        ffi, nv, na_ = r["ffi"], len(r["v"]), len(r["a"])
        while True:
            d = na.dataset(rng, dict(na.shape(rng, ffi), nv=nv, naux=na_, marks=2))
            if d["NV"] == nv and d.get("NAUXV", 0) == na_:
                break
        d.update(XNAME=r["x"], VNAME=r["v"], VSCAL=[1] * nv, VMISS=[-9999] * nv, NSCOML=0, SCOM=[], NNCOML=0, NCOM=[])
        d["V"] = [fill(rng, v, -9999, 1) for v in d["V"]]
        if na_:
            d.update(ANAME=r["a"], ASCAL=[1] * na_, AMISS=[-9999] * na_, A=[fill(rng, v, -9999, 1) for v in d["A"]])
        if ffi == 1020:
            d.update(DX=[0.5], X=[0, 0.5 * d["NVPM"]])
        elif ffi == 1010:
            d["X"] = [1, 2]
        else:
            n = d["NX"][0]
            d.update(X=[[1, 2], [1 + k for k in range(n)]], NXDEF=[n], DX=[0, 1])
        one(ctx, b, rng, judge, "small source", d, rename=0, gatts=0, tunits=0, select=0, how=rng.choice(["nc", "nc", "class"]),
            renames={x["from"]: x["to"] for x in r["ren"]})
        ctx.count("model_sources_converted")


def one(ctx, b, rng, judge, what, d=None, how=None, renames=None, **okw):
    nappy = core.nappy()
    folder = ctx.newdir(rng.random() < 0.4)
    d = d or source(rng)
    ls, recs = lines_for(rng, d)
    path = na.put(os.path.join(folder, "in.na"), ls)
    o, kw = options(rng, d, **okw)
    if renames:
        kw["rename_variables"], o["rename"] = renames, [{"from": x, "to": y} for x, y in renames.items()]
    err, out, how = convert(ctx, nappy, rng, d, path, o, kw, judge, how)
    info = {"what": "%s (%s)" % (what, how), "file": ls, "arguments": kw, "error": repr(err), "out": out}
    if isinstance(err, core.Hang):
        ctx.violation("the conversion does not end", info)
        return
    b.add({"files": [recs], "targets": 1,
           "steps": [{"src": 1, "target": 1, "mode": "w", "opts": o, "raised": err is not None, "out": out,
                      "judge": judge + ([] if how == "xr" else ["distinct"])}]}, info)
    ctx.count("conversions_refused" if err else "conversions_done")
    ctx.sample({"file": ls[:12], "arguments": kw})
    core.shutil.rmtree(folder, ignore_errors=True)


def p17(ctx):
    rng = ctx.sub("p17")
    b = Batch(ctx, "NAToNCTrace", chunk=150)
    small(ctx, b, rng, ["values", "names"], ctx.n(300, 3000))
    for k in range(ctx.n(560, 6000)):
        d = source(rng, many=rng.random() < 0.1) if rng.random() < 0.93 else na.dataset(rng, dict(na.shape(rng, rng.choice([2110, 2160, 2310])), marks=2, rows=[1, 2]))
        one(ctx, b, rng, ["values", "names"], "values", d, select=rng.choice([0.3, 0.8]) if d["NV"] < 11 else 0.9)
    b.report()


def family(rng, n, ffi=None):
    """A source whose names and axes are its own."""
    d = source(rng, ffi, comments=rng.random() < 0.3)
    if n > 1:
        d["XNAME"] = ["axis %d of %d (m)" % (j, n) for j in range(len(d["XNAME"]))]
    rename(d, n)
    if rng.random() < 0.3:                               # a variable called as an axis is
        d["VNAME"][0] = rng.choice(d["XNAME"]).split(" (")[0] + " (other)"
    return d


def rename(d, n):
    d["VNAME"] = ["s%d v%d (K)" % (n, j) for j in range(d["NV"])]
    if d.get("NAUXV"):
        d["ANAME"] = ["s%d a%d" % (n, j) for j in range(d["NAUXV"])]
    return d


def sibling(rng, d, n):
    """Other variables on the axes of another source."""
    import copy
    e = copy.deepcopy(d)
    e["V"] = [fill(rng, v, e["VMISS"][j], e["VSCAL"][j]) for j, v in enumerate(e["V"])]
    e["SNAME"], e["MNAME"] = "other source", "mission %d" % n
    if e["NV"] > 1 and rng.random() < 0.5:
        for k in ("V", "VSCAL", "VMISS", "VNAME"):
            e[k] = e[k][:-1]
        e["NV"] -= 1
    return rename(e, n)


PARTS = {"all": None, "first": [0], "rest": [1]}


def short(ctx, b, rng, nappy, most):
    """The histories of the model of appending (AppendMC), all or some of them."""
    recs, out = core.tlc("AppendMC", cfg="AppendMCdeep" if ctx.thorough else None)
    ctx.tlc_stats(out)
    ctx.count("model_histories", len(recs))
    judge = ["values", "missing", "names", "globals", "distinct"]
    for r in recs if most >= len(recs) else rng.sample(recs, most):
        folder = ctx.newdir()
        ds = []
        while len(ds) < 2:
            d = sibling(rng, ds[0], 2) if ds and rng.random() < 0.5 else family(rng, len(ds) + 1, rng.choice([1001, 1010, 2010]))
            if d["NV"] >= 2:
                ds.append(first_two(d))
        laid = [lines_for(rng, d) for d in ds]
        paths = [na.put(os.path.join(folder, "in%d.na" % j), ls) for j, (ls, _) in enumerate(laid)]
        targets = [os.path.join(folder, "t%d.nc" % (j + 1)) for j in range(len(r["holds"]))]
        steps, log = [], []
        for x in r["prog"]:
            o = {"vars": sel_all(), "aux": sel_all(), "rename": [], "gatts": [], "tunits": "", "timelike": sorted(RECOGNISED),
                 "dict": x["route"] == "dict"}
            target = targets[x["target"] - 1]
            if x["route"] == "dict":
                _, err = call(nappy.writeNADictToNC, ds[x["src"] - 1], target, mode=x["mode"])
            else:
                kw = {}
                if PARTS[x["part"]]:
                    kw["variables"] = PARTS[x["part"]]
                    o["vars"] = {"all": False, "sel": [{"idx": j, "name": ""} for j in PARTS[x["part"]]]}
                _, err = call(nappy.convertNAToNC, paths[x["src"] - 1], target, x["mode"], time_warning=False, **kw)
            out = record_nc(target) if os.path.exists(target) else {"vars": [], "gatts": []}
            steps.append({"src": x["src"], "target": x["target"], "mode": x["mode"], "opts": o, "raised": err is not None,
                          "out": out, "judge": judge})
            log.append(dict(x, error=repr(err), out=out))
        b.add({"files": [q for _, q in laid], "targets": len(targets), "steps": steps},
              {"what": "short history of conversions", "files": [ls for ls, _ in laid], "log": log})
        ctx.count("model_histories_performed")
        core.shutil.rmtree(folder, ignore_errors=True)


def first_two(d):
    """The first two of the variables of a source, without the auxiliary ones it can do without."""
    for k in ("V", "VSCAL", "VMISS", "VNAME"):
        d[k] = d[k][:2]
    d["NV"] = 2
    return d


def p21(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p21")
    b = Batch(ctx, "NAToNCTrace", chunk=80)
    short(ctx, b, rng, nappy, ctx.n(200, 2500))
    for k in range(ctx.n(260, 2500)):
        folder = ctx.newdir(rng.random() < 0.4)
        ds = []
        for n in range(1, rng.choice([2, 2, 3, 4]) + 1):
            ds.append(sibling(rng, rng.choice(ds), n) if ds and rng.random() < 0.4 else family(rng, n))
        laid = [lines_for(rng, d) for d in ds]
        paths = [na.put(os.path.join(folder, "in%d.na" % j), ls) for j, (ls, _) in enumerate(laid)]
        targets = [os.path.join(folder, "t%d.nc" % j) for j in range(rng.choice([1, 1, 2]))]
        held = [set() for _ in targets]
        steps, log = [], []
        for j in range(rng.choice([2, 3, 4, 5])):
            t, i = rng.randrange(len(targets)), rng.randrange(len(ds))
            mode = rng.choice(["w", "a", "a"])
            if mode == "a" and i in held[t] and rng.random() < 0.5:
                mode = "w"
            how = rng.choice(["nc", "nc", "dict", "class"])
            if how == "dict":
                o = {"vars": sel_all(), "aux": sel_all(), "rename": [], "gatts": [], "tunits": "", "timelike": sorted(RECOGNISED), "dict": True}
                kw = {}
                _, err = call(nappy.writeNADictToNC, ds[i], targets[t], mode=mode)
            else:
                o, kw = options(rng, ds[i], 0.2, 0, 0.5)
                if how == "nc":
                    _, err = call(nappy.convertNAToNC, paths[i], targets[t], mode, **kw)
                else:
                    import nappy.nc_interface.na_to_nc as m

                    def do():
                        c = m.NAToNC(paths[i], **kw)
                        c.convert()
                        c.writeNCFile(targets[t], mode)
                    _, err = call(do)
            out = {"vars": [], "gatts": []}
            if err is None:
                held[t] = {i} | (held[t] if mode == "a" else set())
            if os.path.exists(targets[t]):
                out = record_nc(targets[t])
            steps.append({"src": i + 1, "target": t + 1, "mode": mode, "opts": o, "raised": err is not None, "out": out,
                          "judge": ["values", "missing", "names", "globals", "distinct"]})
            log.append({"how": how, "source": i, "target": t, "mode": mode, "arguments": kw, "error": repr(err), "out": out})
            ctx.count("conversions")
        b.add({"files": [r for _, r in laid], "targets": len(targets), "steps": steps},
              {"what": "history of conversions", "files": [ls for ls, _ in laid], "log": log})
        ctx.sample([{x: s[x] for x in ("source", "target", "mode", "how")} for s in log])
        core.shutil.rmtree(folder, ignore_errors=True)
    b.report()


def p20(ctx):
    rng = ctx.sub("p20")
    b = Batch(ctx, "NAToNCTrace", chunk=150)
    for k in range(ctx.n(500, 5000)):
        one(ctx, b, rng, ["values", "names", "attrs", "globals"], "attributes and names",
            how=rng.choice(["nc", "nc", "nc", "class", "xr", "handle"]), select=0.15, rename=0.6, gatts=0.7)
    b.report()


def timed(rng):
    """A source that mostly has a time axis, in some position."""
    d = source(rng)
    if rng.random() < 0.85:
        k = rng.randrange(len(d["XNAME"]))
        for j, s in enumerate(d["XNAME"]):
            if axis_type(s) == "time":
                k = j
        d["XNAME"][k] = rng.choice(["Time", "time", "Time of day", "Observation TIME", "sometimes"])
        if rng.random() < 0.85:
            d["XNAME"][k] += " (%s)" % rng.choice(TIMES + RARE_TIMES + ["K", "hours", "day since start", "days since 20010305",
                                                                         "since 2000-1-1", "days since 2001-03"])
    return d


def p22(ctx):
    rng = ctx.sub("p22na")
    b = Batch(ctx, "NAToNCTrace", chunk=150)
    for k in range(ctx.n(160, 2500)):
        one(ctx, b, rng, ["values", "dates", "axisunits"], "dates and time units", timed(rng),
            select=0.1, rename=0, gatts=0.1, tunits=0.5)
    b.report()


CYCLE_TIMES = [{"units": "days since 2001-03-05", "unit": "days", "ref": [2001, 3, 5, 0, 0]},
               {"units": "hours since 1999-12-31 06:00:00", "unit": "hours", "ref": [1999, 12, 31, 6, 0]},
               {"units": "seconds since 2000-1-1", "unit": "seconds", "ref": [2000, 1, 1, 0, 0]}]


def p19(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p19")
    b = Batch(ctx, "NACycleTrace", chunk=150)
    for k in range(ctx.n(450, 4500)):
        folder = ctx.newdir(rng.random() < 0.4)
        d = source(rng, rng.choice([1001, 1010, 2010, 3010, 4010]), many=rng.random() < 0.08)
        for j, s in enumerate(d["XNAME"]):
            if "months since" in s:
                d["XNAME"][j] = s.replace("months since", "days since").replace("1990-02-01", "2001-03-05")
        if rng.random() < 0.3 and d["NSCOML"]:
            d["SCOM"][rng.randrange(d["NSCOML"])] = rng.choice(["Conventions:   none", "History:  x", "value = 3", "== end =="])
        # a marker of the other section says that the rest belongs there
        d["NCOM"] = [x if "Special" not in x else "special" for x in d["NCOM"]]
        ls, recs = lines_for(rng, d)
        path = na.put(os.path.join(folder, "in.na"), ls)
        mid, back = os.path.join(folder, "mid.nc"), os.path.join(folder, "back.na")
        _, err = call(nappy.convertNAToNC, path, mid, time_warning=False)
        names = []
        if err is None:
            names, err = call(nappy.convertNCToNA, mid, back)
        files = [core.lines_of(core.read_text(f)) for f in names or []]
        b.add({"lines": recs, "back": [[core.line_rec(x) for x in f] for f in files], "raised": err is not None,
               "times": CYCLE_TIMES},
              {"what": "there and back", "file": ls, "back": files, "error": repr(err)})
        ctx.count("conversions")
        ctx.sample({"file": ls[:12]})
        core.shutil.rmtree(folder, ignore_errors=True)
    b.report()
