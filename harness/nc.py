"""NetCDF sources: plans (what a source holds), written with netCDF4, and as the specification sees them."""
import math
import os
import re

from . import core
from .core import canon

FMT = "%.10g"
CALENDARS = ["standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "all_leap", "366_day",
             "360_day", "julian"]
UNIT_SECONDS = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}
POOL = ["x", "y", "lat", "lon", "level", "station", "depth", "Height", "bin_1"]


VNAMES = ["tas", "O3_", "u", "Q", "var", "Tas", "x_bnds", "time_bnds_", "lat_bounds", "T 2m ", "nav.lat", "flux-", "crs", "history",
          "climatology_bnds", "depth_of_"]


def axis_ints(rng, n, far=True):
    """Distinct axis values in eighths, evenly spaced or not."""
    start = rng.choice([0, 0, 8, -720, 4, 100, -3] + ([800000] if far else []))
    step = rng.choice([8, 8, 4, 1, -8, -20, 80])
    sign = 1 if step > 0 else -1
    xs = [start + k * step for k in range(n)]
    r = rng.random()
    if n > 2 and r < 0.3:                                # the spacing changes on the way
        k = rng.randrange(1, n)
        for j in range(k, n):
            xs[j] += rng.choice([1, 3, 3]) * sign if j == k else xs[j - 1] - (start + (j - 1) * step)
    elif n > 2 and r < 0.4 and abs(step) > 2:            # one point is out of line
        xs[rng.randrange(n)] += rng.choice([1, -1])
    elif n > 1 and r < 0.45:
        xs = xs[1:] + [xs[0] + 7 * n * sign * 100]
    return xs


def old_ref(rng):
    """A reference date before the calendars' reform, or about it."""
    return [rng.choice([4, 700, 1099, 1300, 1500, 1581, 1582, 1582, 1584]), rng.choice([1, 2, 10, 10, 12]),
            rng.choice([1, 4, 4, 15, 16, 28]), rng.choice([0, 0, 6, 23]), rng.choice([0, 30])]


def plan_axis(rng, name, n, time=False, ref=None):
    a = {"id": name, "iv": axis_ints(rng, n), "attrs": {}, "time": time, "dtype": rng.choice(["f8", "f8", "f4"]),
         "scale": 8}
    if time:
        a["iv"] = sorted(abs(v) for v in axis_ints(rng, n, False))
        a["iv"] = [v + 8 * rng.choice([0, 1, 400, 12000]) for v in a["iv"]]
        a["iv"] = sorted(set(a["iv"]))
        while len(a["iv"]) < n:
            a["iv"].append(a["iv"][-1] + 8)
        off = rng.choice([0, 8, 8 * 59, 8 * 365, 8 * 36524])
        a["iv"] = [v + off for v in a["iv"]]
        if rng.random() < 0.12:                          # back in time
            a["iv"].reverse()
        a["dtype"] = "f8"
        a["unit"] = rng.choice(list(UNIT_SECONDS))
        a["ref"] = ref or [rng.choice([4, 1099, 1581, 1582, 1582, 1858, 1900, 1970, 1999, 2000, 2004, 2100]), rng.choice([1, 1, 2, 10, 12]),
                           rng.choice([1, 1, 15, 28, 30]), rng.choice([0, 0, 6, 12, 23]), rng.choice([0, 0, 30])]
        if a["ref"][1] == 2:
            a["ref"][2] = min(a["ref"][2], 28)
        a["calendar"] = rng.choice(CALENDARS + ["", "standard", "standard"]) if ref is None else \
            rng.choice(["standard", "gregorian", "proleptic_gregorian", "proleptic_gregorian", "julian", ""])
        y, m, d, hh, mm = a["ref"]
        a["units"] = "%s since %d-%02d-%02d" % (a["unit"], y, m, d)
        if hh or mm or rng.random() < 0.4:
            a["units"] += " %02d:%02d:00" % (hh, mm)
        a["attrs"]["units"] = a["units"]
        if a["calendar"]:
            a["attrs"]["calendar"] = a["calendar"]
        if rng.random() < 0.4:
            a["attrs"]["standard_name"] = "time"
        if rng.random() < 0.3:
            a["attrs"]["axis"] = "T"
    else:
        u = rng.choice(["", "m", "degrees_north" if name == "lat" else "degrees_east" if name == "lon" else "hPa"])
        if u:
            a["attrs"]["units"] = u
        a["units"] = u
        r = rng.random()
        if r < 0.15:
            a["scale"], a["dtype"] = 10, "f8"            # tenths: even in the decimal system only
        elif r < 0.25 and n > 2:                         # all but even
            step = rng.choice([1, 1, 2, -1, 3])
            a["scale"], a["dtype"] = 2 ** 20, "f8"
            start = rng.choice([0, 1, 40])
            a["iv"] = [(start + k * step) * 2 ** 20 for k in range(n)]
            a["iv"][rng.choice([rng.randrange(n), n - 1])] += rng.choice([-1, 1, 3])
        elif rng.random() < 0.12:                        # a dimension without a variable
            a.update(novar=True, units="", attrs={}, iv=[8 * k for k in range(n)])
            return a
        elif rng.random() < 0.1:                         # whole numbers
            start, step, a["dtype"] = rng.choice([(200, -3, "u1"), (20000, -1000, "u2"), (100, -1, "u4"), (10, 5, "u2"), (-30000, 20000, "i2"),
                                                  (-100, 90, "i1"), (100, -90, "i1"), (3, 1, "i8"), (-5, 2, "i4")])
            m = n if step < 1000 or n < 4 else 3
            a["iv"] = [8 * (start + j * (step if j < m else 1)) for j in range(n)]
            if n > 3 and step == 20000:
                a["iv"] = [8 * (start + 50 * j) for j in range(n)]
            elif a["dtype"] == "i1" and n > 2:
                a["iv"] = [8 * (100 - 3 * j) for j in range(n)]
            if not -30000 <= min(a["iv"]) // 8 <= max(a["iv"]) // 8 <= 30000 or (a["dtype"][1] == "1" and n > 30) or min(a["iv"]) < 0 and a["dtype"][0] == "u":
                a["dtype"] = "i4"
        if rng.random() < (0.05 if a["dtype"][0] == "f" else 0.35):      # called a time, but with no units of time
            a["attrs"].update(rng.choice([{"axis": "T"}, {"standard_name": "time"}]))
    if rng.random() < 0.4:
        a["attrs"]["long_name"] = rng.choice(["the %s" % name, "%s coordinate" % name.upper(), name])
    return a


def plan_value(rng, kind):
    if kind == "int":
        return rng.randint(-900, 900)
    if kind == "eighth":
        return rng.randint(-4000, 4000) / 8.0
    return float("%.7g" % rng.uniform(-500, 500))


WORDS = ["air temperature", "ozone", "Wind speed", "flux", "NO2", "relative humidity", "mask", "radiance"]
TEXTS = ["plain text", "two\nlines", "a\n\nb", "  indented", "colon: and = signs", "1.0 2.0 3.0", "{braces}",
         "tab\there", "comma, separated", "é unicode", "100%", "%s %d", "trailing  ", "\nleading newline",
         "=== Data Section begins on the next line ===", "quote ' and \"", "\\n not a newline", "a\r\nb", "x\ry",
         "same\nsame\nother", "form\x0cfeed", "v\x0btab", "next\x85line", "line\u2028sep\nand more", "\u03bcm", "no\u00a0break"]


def text(rng):
    if rng.random() < 0.03:                              # a line longer than any buffer
        return " ".join("%s%d" % ("w" * rng.choice([60, 200, 300]), i) for i in range(rng.choice([5, 9])))
    return rng.choice(TEXTS)


FILLS = [-9999.0, 1e20, -999.0, -1e20, 9.96921e36, "nan", 0.0, -1.0, 99.0, 0.1, -9999.9, 1e-30, 999.99, -32768.0, 1234567.8]


def gaps(rng, v, dates=True):
    """Give a variable some less usual missing value, packing, or dates."""
    n = len(v["vals"])
    v["attrs"].pop("units", None)
    r = rng.random()
    if r < 0.2:                                          # packed: stored as short integers
        v["attrs"]["scale_factor"] = rng.choice([0.5, 0.25, 2.0, 0.125, 1.0])
        v["attrs"]["add_offset"] = rng.choice([0.0, 100.0, -0.5])
        v["dtype"] = "i2"
        ints = [rng.randint(-300, 300) for _ in range(n)]
        v["fill"] = rng.choice([-9999, 0, 99, -1, 32767, 100])
        ints = [x + 1 if x == v["fill"] else x for x in ints]
        v["vals"] = [x * v["attrs"]["scale_factor"] + v["attrs"]["add_offset"] for x in ints]
        if rng.random() < 0.3:                           # a valid value that looks like the packed missing one
            x = (v["fill"] - v["attrs"]["add_offset"]) / v["attrs"]["scale_factor"]
            if x == int(x) and abs(x) < 30000 and x != v["fill"]:
                v["vals"][rng.randrange(n)] = float(v["fill"])
        v["fillname"] = "_FillValue"
    elif r < 0.3 and dates:                              # dates
        v["attrs"]["units"] = rng.choice(["days since 2000-01-01", "hours since 1999-12-31 06:00:00", "seconds since 1970-01-01"])
        v["dtype"] = rng.choice(["f8", "i4"])
        v["vals"] = [rng.randint(0, 5000) for _ in range(n)]
        v["fill"] = rng.choice([-9999, -1, 99999])
        v["fillname"] = "_FillValue"
    elif r < 0.4:                                        # not-a-number without a declared missing value
        v["dtype"], v["fill"], v["fillname"] = "f8", None, ""
        v["vals"] = [rng.randint(-4000, 4000) / 8.0 for _ in range(n)]
    else:
        v["dtype"] = rng.choice(["f4", "f8", "f8"])
        v["fillname"] = rng.choice(["_FillValue", "_FillValue", "missing_value", "both"])
        v["fill"] = rng.choice(FILLS)
        if v["fill"] != "nan" and v["dtype"] == "f4":
            v["fill"] = f4(v["fill"])
        if v["fill"] == "nan":
            v["fillname"] = "_FillValue"
        v["vals"] = [plan_value(rng, "eighth") for _ in range(n)]
        if v["fill"] != "nan":
            for k in range(n):
                if rng.random() < 0.25:                  # close to the missing value
                    x = v["fill"] * rng.choice([1.001, 0.999, -1]) + rng.choice([0, 1, -0.125])
                    v["vals"][k] = f4(x) if v["dtype"] == "f4" else x
    for k in range(n):
        if rng.random() < 0.3:
            if "since" in v["attrs"].get("units", "") and k in (0, n - 1):
                continue                                 # xarray itself cannot decode these
            v["vals"][k] = None
        elif v["fill"] is not None and v["fill"] != "nan" and "scale_factor" not in v["attrs"] \
                and "%.3g" % v["vals"][k] == "%.3g" % v["fill"]:
            v["vals"][k] = 3.0 if abs(v["fill"] - 3) > 1 else 30.0
    if v["fillname"] == "both" and rng.random() < 0.6:    # two values that say so
        second = rng.choice([-7777.0, 5e19, 1.0])
        if all("%.3g" % x != "%.3g" % second for x in v["vals"] + [v["fill"]] if x is not None):
            v["second"] = second
    return v


def plan_var(rng, name, dims, axes, missing=None):
    shape = [len(axes[d]["iv"]) for d in dims]
    n = 1
    for s in shape:
        n *= s
    kind = rng.choice(["int", "eighth", "dec"])
    v = {"id": name, "dims": list(dims), "attrs": {}, "num": -1, "anum": -1, "fill": None,
         "dtype": {"int": rng.choice(["i4", "i2", "f8", "i4", "i2", "i8"]), "eighth": rng.choice(["f4", "f8"]), "dec": "f8"}[kind]}
    v["vals"] = [plan_value(rng, kind) for _ in range(n)]
    missing = rng.random() < 0.5 if missing is None else missing
    if missing:
        if v["dtype"] in ("i4", "i2", "i8"):
            v["fill"] = rng.choice([-9999, -999, 9999, 32767])
        else:
            v["fill"] = rng.choice([-9999.0, 1e20, -999.0, -1e20, 9.96921e36, "nan"])
            if v["dtype"] == "f4" and v["fill"] != "nan":
                v["fill"] = f4(v["fill"])
        v["fillname"] = rng.choice(["_FillValue", "_FillValue", "missing_value", "both"]) if v["fill"] != "nan" else "_FillValue"
        for k in range(n):
            if rng.random() < 0.25:
                v["vals"][k] = None
    if rng.random() < 0.7:
        v["attrs"]["long_name"] = "%s %s" % (rng.choice(WORDS), name)
    elif rng.random() < 0.3:
        v["attrs"]["standard_name"] = "std_" + name
    elif rng.random() < 0.3:
        v["attrs"]["title"] = "Title of " + name
    if rng.random() < 0.6:
        v["attrs"]["units"] = rng.choice(["K", "m s-1", "1", "%", "kg/m^2", " hPa ", "days", "hours", "s", "seconds"])
    if "long_name" in v["attrs"] and "units" in v["attrs"] and rng.random() < 0.2:
        v["attrs"]["long_name"] += " (%s)" % v["attrs"]["units"].strip()
    if "long_name" in v["attrs"] and rng.random() < 0.05:
        v["attrs"]["long_name"] += rng.choice([" ()", "()", " (no units)"])
    return v


def best(v):
    return [v["attrs"].get(k) for k in NAME_ATTS + ("units",)] + [v["id"] if not any(k in v["attrs"] for k in NAME_ATTS) else ""]


def f4(x):
    import numpy as np
    return float(np.float32(x))


def plan(rng, maxrank=4, naxes=None, nvars=None, time=None, want=None, ref=None):
    """A source: axes and variables.  want: ranks to take variables from."""
    naxes = naxes or rng.choice([1, 1, 2, 2, 3, 4])
    names = rng.sample(POOL, naxes)
    if rng.random() < (0.6 if time is None else time):
        names[rng.randrange(naxes)] = rng.choice(["time", "time", "time", "t"])
    big = max(2, int(40 ** (1.0 / naxes)))
    axes = {}
    for nm in names:
        axes[nm] = plan_axis(rng, nm, rng.choice([1, 2, 2, 3, min(4, big), min(5, big), min(7, big)]), nm in ("time", "t"), ref)
    if naxes < 3 and rng.random() < 0.03:                # a long axis
        nm = rng.choice(names)
        axes[nm] = plan_axis(rng, nm, rng.choice([30, 64, 101, 130]), nm in ("time", "t"), ref)
    for a in axes.values():
        if rng.random() < 0.15:
            a["unlimited"] = True
    p = {"axes": axes, "vars": [], "gattrs": [], "bounds": []}
    nvars = nvars or rng.choice([1, 2, 3, 4, 6])
    shapes = []
    for k in range(nvars):
        r = rng.random()
        if shapes and r < 0.45:
            dims = rng.choice(shapes)
        elif r < 0.55:
            dims = []
        elif r < 0.7:
            dims = [rng.choice(names)]
        else:
            rank = rng.randint(1, min(naxes, maxrank))
            dims = rng.sample(names, rank)
            if rng.random() < 0.6:
                dims.sort(key=names.index)
        shapes.append(dims)
        nm = rng.choice(VNAMES)
        if rng.random() < 0.6 or nm.strip("_") in names or nm[-1] in " -_" or any(nm.lower() in w["id"].lower() for w in p["vars"]):
            nm = "%s%d" % (nm, k)
        v = plan_var(rng, nm, dims, axes)
        if not dims and v["vals"][0] is None:
            v["vals"][0] = 1.5 if v["dtype"][0] == "f" else 1
        if not dims and rng.random() < 0.2:              # a text
            v.update(text=rng.choice(["Cardington", "two words", "x = y", "\u00e9t\u00e9", "0.10", "2001-02-03", "a,b;c", "%d %s"]),
                     fill=None, vals=[1])
        p["vars"].append(v)
    for v in p["vars"]:                                  # names that others have as well
        if rng.random() < 0.07:
            shared = [w["id"] for w in p["vars"] if w is not v] + names + \
                [w["attrs"]["long_name"] for w in p["vars"] if w is not v and "long_name" in w["attrs"]]
            v["attrs"]["long_name"] = rng.choice(shared)
            if rng.random() < 0.7:
                v["attrs"].pop("units", None)
            if not v["dims"] and any(best(w) == best(v) for w in p["vars"] if w is not v and not w["dims"]):
                v["attrs"]["long_name"] += " of " + v["id"]
    for v in p["vars"]:                                  # auxiliary coordinates
        others = [w["id"] for w in p["vars"] if w is not v and set(w["dims"]) <= set(v["dims"]) and " " not in w["id"]]
        if others and rng.random() < 0.08:
            v["attrs"]["coordinates"] = " ".join(rng.sample(others, rng.randint(1, min(2, len(others)))))
    return p


def planar(rng):
    """Variables on two axes, the second evenly spaced, and on the first."""
    p = plan(rng, naxes=2, nvars=1)
    keys = sorted(p["axes"])
    rng.shuffle(keys)
    b = p["axes"][keys[1]]
    r = rng.random()
    if not b.get("novar") and not b["time"] and r < 0.25:          # all but evenly
        n, k = rng.choice([3, 4, 6, 12]), rng.choice([1, 1, 2 ** 17])
        start, step = rng.choice([0, 1, 5, 100]), rng.choice([1, 1, 2, -1, 10])
        b.update(iv=[(start + j * step) * 2 ** 20 // k for j in range(n)], scale=2 ** 20 // k, dtype="f8")
        b["iv"][rng.choice([rng.randrange(n), n - 1, n - 2])] += rng.choice([-1, 1, 3])
    elif not b.get("novar") and r < 0.88:
        n = rng.choice([1, 2, 3, 5, 12])
        start, step = rng.choice([0, 4, 100, -720, 8000]), rng.choice([8, -8, 1, -4, 20, -80])
        if b["time"]:
            step = abs(step)
            start = abs(start)
        b.update(iv=[start + k * step for k in range(n)], scale=8)
    p["vars"] = [plan_var(rng, "v%d" % k, keys if rng.random() < 0.6 else keys[:1], p["axes"])
                 for k in range(rng.choice([1, 2, 3, 4]))]
    p["vars"].insert(rng.randint(0, len(p["vars"])), plan_var(rng, "w", keys, p["axes"]))
    return p


def scattered(rng):
    """Many variables, (nearly) each on axes of its own."""
    import itertools
    p = plan(rng, naxes=rng.choice([3, 4, 4]), nvars=1)
    keys = sorted(p["axes"])
    shapes = [list(x) for r in range(1, len(keys) + 1) for x in itertools.permutations(keys, r)]
    p["vars"] = [plan_var(rng, "s%d" % k, dims, p["axes"]) for k, dims in enumerate(rng.sample(shapes, rng.choice([9, 11, 13])))]
    return p


def twin(rng, p):
    """Put some variables on another axis of the same name, as objects from different sources may be."""
    lead = max((v for v in p["vars"] if v["dims"]), key=lambda v: (len(v["dims"]), rng.random()))
    keys = [k for k, a in p["axes"].items() if any(k in v["dims"] for v in p["vars"])]
    key = rng.choice(lead["dims"] if rng.random() < 0.7 else keys)
    a = p["axes"][key]
    b = dict(a, attrs=dict(a["attrs"]), iv=list(a["iv"]))
    how = rng.choice(["units", "units", "value", "length", "same"])
    if a.get("novar") or (a["time"] and how == "units"):
        how = "length" if a.get("novar") else "value"
    if how == "units":
        b["units"] = rng.choice(["", "km", "Pa", "degrees"] + [a["units"].swapcase()] * 2)
        if b["units"] == a["units"]:
            b["units"] = "M"
        b["attrs"].pop("units", None)
        if b["units"]:
            b["attrs"]["units"] = b["units"]
    elif how == "value":
        b["iv"][rng.randrange(len(b["iv"]))] += 1
    elif how == "length":
        b["iv"].append(b["iv"][-1] + 8)
    p["axes"][key + "_2"] = b
    p["twins"] = {key + "_2": a["id"]}
    if key in lead["dims"] and rng.random() < 0.5:       # the same shape on either
        p["vars"].append(plan_var(rng, "twin_of_" + lead["id"], lead["dims"], p["axes"]))
    for v in p["vars"]:
        v["attrs"].pop("coordinates", None)
        if key in v["dims"] and rng.random() < 0.5:
            dims = [key + "_2" if x == key else x for x in v["dims"]]
            new = plan_var(rng, v["id"], dims, p["axes"])
            v.clear()
            v.update(new)
    return p


def number(rng, p):
    """Numbers of an earlier conversion."""
    for k in ("num", "anum"):
        for v, j in zip(p["vars"], rng.sample(range(12), len(p["vars"]))):
            if rng.random() < 0.7:
                v[k] = j


def add_bounds(rng, p):
    """Bounds of an axis (with their own dimension)."""
    keys = [k for k, a in sorted(p["axes"].items()) if not a.get("novar")]
    if not keys:
        return
    a = p["axes"][rng.choice(keys)]
    nm = rng.choice(["%s_bnds", "%s_bnds", "%s_bounds", "edges_of_%s", "B%s"]) % a["id"]
    if any(v["id"] == nm for v in p["vars"]):
        nm += "_of_axis"
    a["attrs"]["bounds"] = nm
    p["bounds"].append({"id": nm, "axis": a["id"]})


def write_nc(p, path):
    import netCDF4
    import numpy as np
    d = netCDF4.Dataset(path, "w", format=p.get("format", "NETCDF4"))
    try:
        for k, val in p["gattrs"]:
            d.setncattr(k, val)
        todo = []
        for key, a in p["axes"].items():
            d.createDimension(key, None if a.get("unlimited") else len(a["iv"]))
        for key, a in p["axes"].items():
            if a.get("novar"):
                continue
            dtype = a["dtype"]
            if dtype[0] != "f":                          # (the values may have been changed)
                lim = np.iinfo(dtype)
                if not all(v % a["scale"] == 0 and lim.min <= v // a["scale"] <= lim.max for v in a["iv"]):
                    dtype = "f8"
            nv = d.createVariable(key, dtype, (key,))
            for k, x in a["attrs"].items():
                nv.setncattr(k, x)
            todo.append((nv, np.array([v / a["scale"] for v in a["iv"]], dtype=dtype)))
        if p["bounds"]:
            d.createDimension("bnds", 2)
        for b in p["bounds"]:
            n = len(p["axes"][b["axis"]]["iv"])
            nv = d.createVariable(b["id"], "f8", (b["axis"], "bnds"))
            base = [v / p["axes"][b["axis"]]["scale"] for v in p["axes"][b["axis"]]["iv"]]
            todo.append((nv, np.array([[x, x] for x in base])))
        for v in p["vars"]:
            kw = {}
            if v.get("text") is not None:
                # characters (variable-length strings make the NetCDF library crash when a file is opened twice)
                b = v["text"].encode("utf-8")
                dim = "string%d" % len(b)
                if dim not in d.dimensions:
                    d.createDimension(dim, len(b))
                nv = d.createVariable(v["id"], "S1", (dim,))
                nv.set_auto_chartostring(False)
                for k, x in v["attrs"].items():
                    nv.setncattr(k, x)
                nv.setncattr("_Encoding", "utf-8")
                todo.append((nv, np.array([b[j:j + 1] for j in range(len(b))], dtype="S1")))
                continue
            fill = v["fill"]
            fv = float("nan") if fill == "nan" else fill
            if fill is not None and v["fillname"] in ("_FillValue", "both"):
                kw["fill_value"] = fv
            nv = d.createVariable(v["id"], v["dtype"], tuple(v["dims"]), **kw)
            nv.set_auto_maskandscale(False)
            if fill is not None and v["fillname"] in ("missing_value", "both"):
                nv.setncattr("missing_value", np.array(v.get("second", fv), dtype=v["dtype"]))
            for k, x in v["attrs"].items():
                nv.setncattr(k, x)
            if v["num"] >= 0:
                nv.setncattr("nasa_ames_var_number", np.int32(v["num"]))
            if v["anum"] >= 0:
                nv.setncattr("nasa_ames_aux_var_number", np.int32(v["anum"]))
            gap = float("nan") if fill is None else fv
            gaps = [gap, v.get("second", gap)]
            arr = np.array([gaps[k % 2] if x is None else raw(v, x) for k, x in enumerate(v["vals"])], dtype=v["dtype"])
            todo.append((nv, arr.reshape([len(p["axes"][x]["iv"]) for x in v["dims"]])))
        for nv, arr in todo:
            nv.set_auto_maskandscale(False)
            nv[...] = arr
    finally:
        d.close()
    return path


def raw(v, x):
    """The stored form of a value (packed variables have a scale factor)."""
    if "scale_factor" in v["attrs"]:
        return round((x - v["attrs"].get("add_offset", 0)) / v["attrs"]["scale_factor"])
    return x


ENCODED = ("scale_factor", "add_offset", "dtype", "coordinates", "calendar")


def attr(k, x, numbers=False):
    """An attribute for NCHeader."""
    text = isinstance(x, str) or (numbers and not isinstance(x, (list, tuple)))
    return {"k": k, "text": text, "lines": [y.strip() for y in re.split(r"\r\n|\r|\n", str(x))]}


# ---------------------------------------------------------------- as the specification sees it
NAME_ATTS = ("long_name", "standard_name", "title")


def best_parts(id_, attrs, units):
    return {"cands": [str(attrs[k]) for k in NAME_ATTS if k in attrs] + [id_], "units": units}


def source(p, fmt=FMT, suffix=None):
    """The plan as a record of NCToNA: axes by key, variables in order."""
    axes = {}
    for key, a in p["axes"].items():
        num = [v / a["scale"] for v in a["iv"]]
        tok = [canon(v, fmt) for v in num]
        axes[key] = dict(best_parts(a["id"], a["attrs"], a["units"]), id=a["id"], iv=a["iv"], tok=tok,
                         dtok=canon(num[1] - num[0]) if len(num) > 1 else "0",
                         dfmt=canon(num[1] - num[0], fmt) if len(num) > 1 else "0", time=bool(a["time"]),
                         cal=a.get("calendar") or "standard", unit=a.get("unit", ""),
                         ref=a.get("ref", [0, 0, 0, 0, 0]), scale=a["scale"],
                         exact=a["scale"] != 10)
    vs = []
    for v in p["vars"]:
        miss = "none" if v["fill"] is None else canon(float(v["fill"]), fmt)
        if v["fill"] is None:
            miss = canon(-1e20, fmt)
        vs.append(dict(best_parts(v["id"], v["attrs"], str(v["attrs"].get("units", "")).strip()), id=v["id"],
                       dims=v["dims"], miss=miss, num=v["num"], anum=v["anum"],
                       val=[miss if x is None else canon(f4(x) if v["dtype"] == "f4" else x, fmt) for x in v["vals"]],
                       m=[1 if x is None else 0 for x in v["vals"]],
                       text=v.get("text") or "",
                       attrs=[attr(k, x, True) for k, x in sorted(v["attrs"].items()) if k not in ENCODED]))
    first = [x for k, x in p["gattrs"] if k == "first_valid_date_of_data"]
    first = [canon(y) for y in first[0]] if first and isinstance(first[0], list) and len(first[0]) == 3 else []
    return {"first": first, "gatts": [attr(k, x) for k, x in p["gattrs"]], "axes": axes, "vars": vs, "bounds": [b["id"] for b in p["bounds"]]}
