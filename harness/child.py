"""python -m harness.child IN.json OUT.json: perform operations in a fresh process, in the order given.

An operation is {"op": name, ...}; the result is {"error": text or None, "result": ...}.
Operations that share a "key" share the objects made under it (a data set, a handle, a converter).
"""
import copy
import hashlib
import json
import os
import re
import shutil
import sys

from . import core


def texts(names):
    return [[os.path.basename(f), core.read_text(f)] for f in names]


def dataset(path):
    import xarray as xr
    with xr.open_dataset(path, use_cftime=True, decode_timedelta=False) as ds:
        ds.load()
    return ds


def convert(nappy, op, kept):
    """A conversion of a NetCDF file or of its variables as xarray objects."""
    kw = dict(op.get("kw") or {})
    if op.get("override") is not None:
        kw["na_items_to_override"] = op["override"]
    csv = op.get("csv")
    if op["how"] == "nc":
        return (nappy.convertNCToCSV if csv else nappy.convertNCToNA)(op["src"], op["target"], **kw)
    if op["how"] == "xr":
        ds = kept.setdefault("ds:" + op["src"], None) or dataset(op["src"])
        kept["ds:" + op["src"]] = ds
        fn = nappy.convertXarrayObjectsToCSV if csv else nappy.convertXarrayObjectsToNA
        return fn([ds[v] for v in op["vars"]], list(ds.attrs.items()), op["target"], **kw)
    from nappy.nc_interface import nc_to_na, xarray_to_na
    ours = {k: kw.pop(k) for k in list(kw) if k in ("na_items_to_override", "requested_ffi", "var_ids", "exclude_vars")}
    if op["how"] == "class":                              # a converter that writes as often as it is asked to
        c = kept.get(op["key"])
        if c is None:
            c = kept[op["key"]] = nc_to_na.NCToNA(op["src"], **ours)
    else:
        c = xarray_to_na.XarrayDatasetToNA(dataset(op["src"]), **ours)
    c.convert()
    c.writeNAFiles(op["target"], **kw)
    return c.output_files_written


# ------------------------------------------------------------ histories (P06)
STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


def plain(x):
    """Anything as text that is equal for equal content."""
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, plain(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(plain(y) for y in x)
    return repr(x)


def dump_nc(path):
    import netCDF4
    with netCDF4.Dataset(path) as d:
        out = [sorted((k, len(v), v.isunlimited()) for k, v in d.dimensions.items())]
        for k, v in d.variables.items():
            v.set_auto_maskandscale(False)
            out.append([k, str(v.dtype), v.dimensions, [(a, v.getncattr(a)) for a in v.ncattrs()], v[...]])
        out.append([(a, d.getncattr(a)) for a in d.ncattrs()])
        return plain(out)


def dump_xr(a):
    return plain([a.name, a.dims, str(a.dtype), a.values, dict(a.attrs), {k: (c.values, dict(c.attrs)) for k, c in a.coords.items()}])


class World:
    """The inputs shared by the operations of a history."""

    def __init__(self, nappy, w):
        self.nappy, self.w, self.n, self.place = nappy, w, 0, ""
        self.dicts = w["dicts"]
        self.no_ffi = {k for k, d in self.dicts.items() if "FFI" not in d}
        self.handles = {k: nappy.openNAFile(f) for k, f in w["handles"].items()}
        for h in self.handles.values():
            h.readData()
        self.objs, self.sets = {}, {}
        for k, f in w["ncs"].items():
            ds = dataset(f)
            self.objs[k] = ([ds[v] for v in w["vars"][k]], [list(a) for a in ds.attrs.items()])
            self.sets[k] = ds
        self.converters = {}
        os.makedirs(w["scratch"], exist_ok=True)
        self.mine = os.path.join(w["scratch"], "changing")
        os.makedirs(self.mine)
        for k, m in w["changing"].items():                # what each holds with each of its contents
            if m["is"] == "objects":
                self.kept = getattr(self, "kept", {})
                self.kept[k] = {v: dataset(f) for v, f in m["contents"].items()}
                ds = self.kept[k]["a"].copy(deep=True)
                self.objs[k] = ([ds[v] for v in m["vars"]], [list(a) for a in ds.attrs.items()])
            elif m["is"] == "dict":
                self.dicts[k] = {}
            else:
                w["files" if m["is"] == "na" else "ncs"][k] = os.path.join(self.mine, k + "." + m["is"])
        for k in w["changing"]:
            self.put({"on": k, "as": "a"}, {})

    def put(self, o, kw):
        """The user changes an input."""
        m = self.w["changing"][o["on"]]
        new = m["contents"][o["as"]]
        if m["is"] == "objects":
            for a in self.objs[o["on"]][0]:
                a.values[...] = self.kept[o["on"]][o["as"]][a.name].values
        elif m["is"] == "dict":
            self.dicts[o["on"]].clear()
            self.dicts[o["on"]].update(copy.deepcopy(new))
        else:
            t = os.path.join(self.mine, o["on"] + "." + m["is"])
            if m["is"] == "na":
                shutil.copyfile(new, t)
            else:
                shutil.copyfile(new, t + "_")
                os.replace(t + "_", t)
        return "put"

    def contents(self):
        """Digest of each of the contents of each changing input; leaves it with those it starts with."""
        out, short = {}, {"na": "file ", "nc": "file ", "dict": "data set ", "objects": "objects of "}
        for k, m in self.w["changing"].items():
            out[short[m["is"]] + k] = {}
            for v in sorted(m["contents"], key=lambda v: v == self.w["held"]):
                self.put({"on": k, "as": v}, {})
                out[short[m["is"]] + k][v] = self.state()[short[m["is"]] + k]
        return out

    def state(self):
        out = {"data set " + k: plain({a: b for a, b in d.items() if a != "FFI" or k not in self.no_ffi})
               for k, d in self.dicts.items()}
        for k, f in list(self.w["files"].items()) + list(self.w["ncs"].items()):
            out["file " + k] = core.digest(f)
        for k, (vs, atts) in self.objs.items():
            out["objects of " + k] = "".join(dump_xr(a) for a in vs) + plain(atts)
        for k, ds in self.sets.items():
            out["data set object " + k] = "".join(dump_xr(ds[v]) for v in ds.variables) + plain(dict(ds.attrs))
        for k, h in self.handles.items():
            out["open file " + k] = plain(h.getNADict())
        for j, o in enumerate(self.w["ops"]):
            out["arguments of operation %d" % (j + 1)] = plain(o)
        return {k: hashlib.sha256(v.encode()).hexdigest()[:16] for k, v in out.items()}

    def target(self, ext):
        self.n += 1
        self.place = "again" if self.n % 3 else str(self.n)      # often where something was written before
        d = os.path.join(self.w["scratch"], self.place)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "out" + ext)

    def perform(self, o):
        got, err = core.call(getattr(self, o["kind"]), o, o["kw"], limit=60)
        text = plain(got) if err is None else repr(err)
        return STAMP.sub("STAMP", text).replace(self.w["scratch"], "").replace("/%s/out" % self.place, "/out")

    def write(self, o, kw):
        t = self.target(".na")
        x = self.nappy.openNAFile(t, "w", self.dicts[o["on"]])
        x.write(**kw)
        x.close()
        return core.read_text(t)

    def choose(self, o, kw):
        d = {k: v for k, v in self.dicts[o["on"]].items() if k != "FFI"}
        return self.nappy.chooseFFI(d)

    def again(self, o, kw):
        h = self.handles[o["on"]]
        h.readData()
        return h.getNADict()

    def read(self, o, kw):
        with self.nappy.openNAFile(self.w["files"][o["on"]]) as h:
            h.readData()
            return h.getNADict()

    def query(self, o, kw):
        h = self.handles[o["on"]]
        out = [h.getVariables(), h.getAuxVariables() if h.FFI != 1001 else None, h.getIndependentVariables(),
               h.getNormalComments(), h.getSpecialComments(), h.getMission(), h.getFileDates()]
        return out

    def na2nc(self, o, kw):
        t = self.target(".nc")
        self.nappy.convertNAToNC(self.w["files"][o["on"]], t, time_warning=False, **kw)
        return dump_nc(t)

    def handle2nc(self, o, kw):
        """Convert from a file object."""
        from nappy.nc_interface import na_to_nc
        t = self.target(".nc")
        c = na_to_nc.NAToNC(self.handles[o["on"]], time_warning=False, **kw)
        c.convert()
        c.writeNCFile(t)
        return dump_nc(t)

    def handle2xr(self, o, kw):
        from nappy.nc_interface import na_to_xarray
        v, a, g = na_to_xarray.NADictToXarrayObjects(self.handles[o["on"]], time_warning=False).convert()
        return [[dump_xr(x) for x in v], [dump_xr(x) for x in a], g]

    def dict2nc(self, o, kw):
        t = self.target(".nc")
        self.nappy.writeNADictToNC(self.dicts[o["on"]], t)
        return dump_nc(t)

    def na2csv(self, o, kw):
        t = self.target(".csv")
        self.nappy.convertNAToCSV(self.w["files"][o["on"]], t, **kw)
        return core.read_text(t)

    def na2xr(self, o, kw):
        v, a, g = self.nappy.readXarrayObjectsFromNA(self.w["files"][o["on"]])
        return [[dump_xr(x) for x in v], [dump_xr(x) for x in a], g]

    def nc2na(self, o, kw):
        t = self.target(".na")
        return texts(self.nappy.convertNCToNA(self.w["ncs"][o["on"]], t, **kw))

    def nc2csv(self, o, kw):
        t = self.target(".csv")
        return texts(self.nappy.convertNCToCSV(self.w["ncs"][o["on"]], t, **kw))

    def xr2na(self, o, kw):
        t = self.target(".na")
        vs, atts = self.objs[o["on"]]
        return texts(self.nappy.convertXarrayObjectsToNA(vs, atts, t, **kw))

    def ds2na(self, o, kw):
        from nappy.nc_interface import xarray_to_na
        kw = dict(kw)
        ours = {k: kw.pop(k) for k in list(kw) if k in ("na_items_to_override", "requested_ffi")}
        c = xarray_to_na.XarrayDatasetToNA(self.sets[o["on"]].set_coords(o["coords"]), **ours)
        c.convert()
        c.writeNAFiles(self.target(".na"), **kw)
        return texts(c.output_files_written)

    def ownrule(self, o, kw):
        """Queries by a rule of one's own."""
        if o["rule"] == "callback":
            h = self.nappy.openNAFile(self.w["files"][o["on"]], var_and_units_callback=lambda item: (item[::-1], item[:1]))
        else:
            h = self.nappy.openNAFile(self.w["files"][o["on"]])
            h.var_and_units_pattern = re.compile(o["rule"])
        out = [h.getVariables(), h.getAuxVariables() if h.FFI != 1001 else None, h.getIndependentVariables()]
        h.close()
        return out

    def names(self, o, kw):
        self.n += 1
        return self.nappy.convertNCToNA(self.w["ncs"][o["on"]], "names.na", only_return_file_names=True, **kw)

    def converter(self, o, kw):
        from nappy.nc_interface import nc_to_na
        if o["on"] not in self.converters:
            self.converters[o["on"]] = nc_to_na.NCToNA(self.w["ncs"][o["on"]])
        c = self.converters[o["on"]]
        c.convert()
        c.writeNAFiles(self.target(".na"), **kw)
        return texts(c.output_files_written)

    def naconverter(self, o, kw):
        """A converter that is kept, and writes whenever it is asked to."""
        from nappy.nc_interface import na_to_nc
        k = (o["on"], plain(kw))
        if k not in self.converters:
            self.converters[k] = na_to_nc.NAToNC(self.w["files"][o["on"]], time_warning=False, **kw)
        c = self.converters[k]
        if o["convert"]:
            c.convert()
        t = self.target(".nc")
        c.writeNCFile(t)
        return dump_nc(t)

    def keptobjects(self, o, kw):
        from nappy.nc_interface import na_to_xarray
        k = ("objects", o["on"])
        if k not in self.converters:
            h = self.nappy.openNAFile(self.w["files"][o["on"]])
            self.converters[k] = na_to_xarray.NADictToXarrayObjects(h, time_warning=False)
        v, a, g = self.converters[k].convert()
        return [[dump_xr(x) for x in v], [dump_xr(x) for x in a], g]

    def compare(self, o, kw):
        return self.nappy.compareNA(self.w["files"][o["on"]], self.w["files"][o["with"]], **kw)


def history(nappy, op):
    w = World(nappy, op["world"])
    contents = w.contents()
    start, shown, steps = w.state(), {}, []
    for j in op["steps"]:
        text = w.perform(w.w["ops"][j])
        h = hashlib.sha256(text.encode()).hexdigest()[:16]
        shown.setdefault(h, text[:20000])
        steps.append({"op": j + 1, "out": h, "after": w.state()})
    return {"start": start, "contents": contents, "steps": steps, "shown": shown}


# ------------------------------------------------------------ commands (P23)
def contents(d):
    """File name -> what it holds, apart from the time it was made."""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                data = fh.read()
            if data[:4] in (b"\x89HDF",) or data[:3] == b"CDF":
                try:
                    text = STAMP.sub("STAMP", dump_nc(p))
                except Exception:
                    text = repr(data)
            else:
                text = STAMP.sub("STAMP", data.decode("utf-8", "replace"))
            out[os.path.relpath(p, d)] = text
    return out


def listed(text):
    """The file names printed after the headline."""
    ls = text.split("\n")
    for k, x in enumerate(ls):
        if x.strip() in ("Successfully wrote:", "Expected file names would be:"):
            return [y.strip() for y in ls[k + 1:] if y.strip()]
    return []


def command(nappy, op):
    import contextlib
    import importlib
    import io
    os.chdir(op["cwd"])
    fn = getattr(importlib.import_module("nappy.script." + op["cmd"]), op["cmd"])
    sys.argv = [op["cmd"]] + op["argv"]
    sys.stdin = io.StringIO("")
    out = io.StringIO()
    ended, why = "ok", ""
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            code = fn()
        if code not in (None, 0):
            ended = "failed"
    except SystemExit as err:
        ended = "stopped" if err.code in (None, 0) else "failed"
    except Exception as err:
        ended, why = "failed", repr(err)
    return {"ended": ended, "why": why, "shown": listed(out.getvalue()), "files": contents(op["cwd"])}


def library(nappy, op):
    import io
    os.chdir(op["cwd"])
    sys.stdin = io.StringIO("")
    kw = {k: tuple(map(tuple, v)) if k == "global_attributes" else v for k, v in op["kw"].items()}
    got, err = core.call(getattr(nappy, op["fn"]), **kw)
    names = [got] if isinstance(got, str) else list(got or [])
    return {"failed": err is not None, "why": repr(err), "names": names, "files": contents(op["cwd"])}


def do(nappy, op, kept):
    if op["op"] == "command":
        return command(nappy, op)
    if op["op"] == "library":
        return library(nappy, op)
    if op["op"] == "history":
        return history(nappy, op)
    if op["op"] == "convert":
        before = json.dumps(op.get("override"))
        names = convert(nappy, op, kept)
        return {"files": texts(names), "kept": before == json.dumps(op.get("override"))}
    raise ValueError(op["op"])


def main():
    source, target = sys.argv[1:3]
    ops = json.load(open(source, encoding="utf-8"))
    nappy = core.nappy()
    kept, out = {}, []
    for op in ops:
        got, err = core.call(do, nappy, op, kept, limit=400 if op["op"] == "history" else 60)
        out.append({"result": got, "error": None if err is None else repr(err)})
    with open(target, "w", encoding="utf-8") as fh:
        json.dump(out, fh)


def run(ctx, ops, env=None, timeout=600):
    """The results of ops, performed in a fresh process."""
    import subprocess
    d = ctx.newdir()
    a, b = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    with open(a, "w", encoding="utf-8") as fh:
        json.dump(ops, fh)
    e = dict(os.environ, **(env or {}))
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "harness.child", a, b], cwd=core.VERIF, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if not os.path.exists(b):
        raise core.CheckError("child process failed (%s):\n" % p.returncode + p.stdout.decode("utf-8", "replace")[-2000:])
    return json.load(open(b, encoding="utf-8"))


if __name__ == "__main__":
    main()
