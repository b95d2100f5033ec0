"""P06: operations are repeatable, change no input and do not depend on history (spec/History.tla)."""
import concurrent.futures
import datetime
import os

from . import child, core, na, nc, p_na2nc, p_over
from .core import Batch
from .p_format import op
from .p_handle import OPTS, run_program
from .p_nc import attributes, gridded


def walk(rng, n):
    """Operations 0..n-1 so that every ordered pair occurs next to each other, then each once more."""
    left = {a: rng.sample(range(n), n) for a in range(n)}
    stack, path = [rng.randrange(n)], []
    while stack:
        a = stack[-1]
        if left[a]:
            stack.append(left[a].pop())
        else:
            path.append(stack.pop())
    path.reverse()
    return path + rng.sample(range(n), n)


def world(ctx, rng):
    """Random inputs and operations on them."""
    d = ctx.newdir()
    dicts, files, ncs, vars_ = {}, {}, {}, {}
    for j in range(2):
        x = na.dataset(rng, na.shape(rng, rng.choice(na.FFIS)))
        if rng.random() < 0.4:
            x.pop("FFI")
        dicts["d%d" % j] = x
    dicts["g"] = p_na2nc.plain(rng, rng.choice([1001, 1010, 2010, 3010]))
    for j in range(2):
        s = p_na2nc.source(rng) if j else p_na2nc.plain(rng)
        f = files["f%d" % j] = os.path.join(d, "f%d.na" % j)
        na.put(f, na.layout(rng, s, rng.choice(p_na2nc.STYLES)))
    nappy = core.nappy()
    for j in range(2):
        s = na.dataset(rng, na.shape(rng, rng.choice(na.FFIS)))
        f = files["h%d" % j] = os.path.join(d, "h%d.na" % j)
        na.write(nappy, na.fresh(s), f)
    for j in range(2):
        p = gridded(rng, naxes=rng.choice([1, 2, 3]))
        attributes(rng, p)
        ncs["n%d" % j] = nc.write_nc(p, os.path.join(d, "n%d.nc" % j))
        vars_["n%d" % j] = [v["id"] for v in p["vars"]]
    out = lambda: rng.choice([{}, {"delimiter": ","}, {"float_format": "%.3f"}, {"annotation": True}, {"no_header": True},
                              {"delimiter": "\t", "annotation": True}])
    conv = lambda k: dict(out(), **rng.choice([{}, {"size_limit": 2}, {"na_items_to_override": p_over.overrides(rng, 0, 0)},
                                               {"var_ids": rng.sample(vars_[k], 1) + vars_[k][:1]},
                                               {"exclude_vars": [rng.choice(vars_[k])]},
                                               {"na_items_to_override": {"NCOM": ["a", "b"], "SCOM": "c"}}]))
    xconv = lambda k: {a: b for a, b in conv(k).items() if a not in ("var_ids", "exclude_vars")}
    ops = [{"kind": "write", "on": "d0", "kw": out()}, {"kind": "write", "on": "d1", "kw": out()},
           {"kind": "write", "on": "d1", "kw": {}}, {"kind": "choose", "on": "d0", "kw": {}},
           {"kind": "again", "on": "f0", "kw": {}}, {"kind": "again", "on": "h0", "kw": {}}, {"kind": "again", "on": "h1", "kw": {}},
           {"kind": "read", "on": "h1", "kw": {}}, {"kind": "query", "on": "h0", "kw": {}}, {"kind": "query", "on": "h1", "kw": {}},
           {"kind": "na2nc", "on": "f0", "kw": rng.choice([{}, {"rename_variables": {"v0": "renamed"}}])},
           {"kind": "na2nc", "on": "f1", "kw": rng.choice([{}, {"global_attributes": [["a", "b"], ["n", 3]]},
                                                           {"variables": [0]}, {"variables": []}])},
           {"kind": "dict2nc", "on": "g", "kw": {}}, {"kind": "write", "on": "g", "kw": out()},
           {"kind": "na2csv", "on": "h0", "kw": rng.choice([{}, {"annotation": True}, {"no_header": True}])},
           {"kind": "na2xr", "on": "f0", "kw": {}},
           {"kind": "handle2nc", "on": "f0", "kw": {}}, {"kind": "handle2nc", "on": "f1", "kw": rng.choice([{}, {"variables": [0]}])},
           {"kind": "handle2xr", "on": rng.choice(["f0", "f1"]), "kw": {}},
           {"kind": "nc2na", "on": "n0", "kw": conv("n0")}, {"kind": "nc2na", "on": "n0", "kw": {}},
           {"kind": "nc2na", "on": "n1", "kw": conv("n1")},
           {"kind": "nc2csv", "on": "n1", "kw": {"size_limit": 1} if rng.random() < 0.3 else {}},
           {"kind": "xr2na", "on": "n0", "kw": xconv("n0")}, {"kind": "xr2na", "on": "n1", "kw": xconv("n1")},
           {"kind": "ds2na", "on": "n1", "coords": rng.sample(vars_["n1"], max(0, len(vars_["n1"]) - rng.choice([1, 1, 2]))), "kw": xconv("n1")},
           {"kind": "ownrule", "on": "f0", "rule": rng.choice([r"^(.)(.)(.*)$", r"^(.*) \((.*)$"]), "kw": {}}, {"kind": "ownrule", "on": "h0", "rule": "callback", "kw": {}},
           {"kind": "naconverter", "on": "f1", "convert": rng.random() < 0.5, "kw": rng.choice([{}, {"global_attributes": [["a", "b"], ["n", 3]]}])},
           {"kind": "keptobjects", "on": rng.choice(["f0", "f1"]), "kw": {}},
           {"kind": "names", "on": "n0", "kw": {}}, {"kind": "converter", "on": "n1", "kw": out()},
           {"kind": "compare", "on": "h0", "with": "h1", "kw": {}}, {"kind": "compare", "on": "h0", "with": "h0", "kw": {}}]
    changing, more = changes(ctx, rng, d, out)
    ops = rng.sample(ops, ctx.n(8, 13)) + more
    handles = {o["on"]: files[o["on"]] for o in ops if o["kind"] in ("again", "query", "handle2nc", "handle2xr") and o["on"] in files}
    return {"dicts": dicts, "files": files, "ncs": ncs, "vars": vars_, "handles": handles, "ops": ops, "changing": changing}


def changes(ctx, rng, d, out):
    """Inputs that the user changes between operations, and operations on them."""
    changing, ops = {}, []
    for kind in rng.sample(["na", "nc", "dict", "objects"], 2):
        k = "c" + kind
        if kind == "na":
            first = p_na2nc.plain(rng)
            second = p_na2nc.plain(rng) if rng.random() < 0.5 else other_values(rng, first)
            cs = [na.put(os.path.join(d, k + v), na.layout(rng, x, rng.choice(p_na2nc.STYLES))) for v, x in (("a", first), ("b", second))]
            ops += [{"kind": "read", "on": k, "kw": {}}, {"kind": rng.choice(["na2nc", "na2xr"]), "on": k, "kw": {}}]
            ops += rng.sample([{"kind": "na2csv", "on": k, "kw": {}}, {"kind": "compare", "on": k, "with": "h0", "kw": {}},
                               {"kind": "compare", "on": "h0", "with": k, "kw": {}}], 1)
        elif kind == "dict":
            first = na.dataset(rng, na.shape(rng, rng.choice(na.FFIS)))
            second = other_values(rng, first) if rng.random() < 0.5 else na.dataset(rng, na.shape(rng, rng.choice(na.FFIS)))
            cs = [first, second]
            ops += [{"kind": "write", "on": k, "kw": out()}, {"kind": "choose", "on": k, "kw": {}}]
        else:
            p = gridded(rng, naxes=rng.choice([1, 2]))
            attributes(rng, p)
            ps = [p, p]
            if kind == "nc" and rng.random() < 0.5:
                ps[1] = gridded(rng, naxes=rng.choice([1, 2, 3]))
            cs = [nc.write_nc(p, os.path.join(d, k + v)) for v, p in zip("ab", ps)]
            if ps[0] is ps[1]:
                nudge(rng, cs[1])
            ops += [{"kind": "nc2na" if kind == "nc" else "xr2na", "on": k, "kw": kw} for kw in ({}, {"float_format": "%.3f"})]
            if kind == "nc":
                ops += [{"kind": rng.choice(["nc2csv", "names"]), "on": k, "kw": {}}]
        changing[k] = {"is": kind, "contents": dict(zip("ab", cs))}
        if kind == "objects":
            skip = {b["id"] for b in p["bounds"]}
            changing[k]["vars"] = [v["id"] for v in p["vars"] if v["id"] not in skip]
        ops += [{"kind": "put", "on": k, "as": v, "kw": {}} for v in "ab"]
    return changing, ops


def other_values(rng, d):
    """The data set with some values, or the order of its marks' values, different."""
    import copy
    d = copy.deepcopy(d)

    def turn(x):
        if isinstance(x, list) and x and isinstance(x[0], list):
            return [turn(y) for y in x]
        return x[::-1] if isinstance(x, list) else x
    d["V"] = turn(d["V"])
    d["MNAME"] = "Another mission"
    return d


def nudge(rng, path):
    """Other values in the numeric variables of a file that are no axes."""
    import netCDF4
    with netCDF4.Dataset(path, "a") as f:
        f.set_auto_maskandscale(False)
        for k, v in f.variables.items():
            if k not in f.dimensions and v.dtype is not str and v.dtype.kind in "fiu" and "since" not in getattr(v, "units", ""):
                v[...] = v[...][::-1].copy() if v.ndim else v[...] + 1


def p06(ctx):
    rng = ctx.sub("p06")
    repeats(ctx, rng)
    _, out = core.tlc("HistoryMC", cfg="HistoryMCdeep" if ctx.thorough else None)
    ctx.tlc_stats(out)
    b = Batch(ctx, "HistoryTrace", chunk=20)
    jobs = []
    for k in range(ctx.n(11, 70)):
        w = world(ctx, rng)
        n = len(w["ops"])
        plans = [walk(rng, n), list(range(n)) + list(range(n - 1, -1, -1)), rng.sample(range(n), n)]
        jobs.append((w, plans))
    runs = []
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for w, plans in jobs:
            for j, steps in enumerate(plans):
                mine = dict(w, scratch=os.path.join(ctx.newdir(), "s"), held="ab"[j % 2])
                runs.append(pool.submit(once, ctx, mine, steps, "random" if j == 2 else str(j)))
        runs = iter([f.result() for f in runs])
    for w, plans in jobs:
        got = [next(runs) for _ in plans]
        errors = [g["error"] for g in got if g["error"]]
        if errors:
            raise core.CheckError("history not performed: %s" % errors)
        got = [g["result"] for g in got]
        names = ["operation %d (%s of %s %s)" % (j + 1, o["kind"], o["on"], o.get("as") or o["kw"]) for j, o in enumerate(w["ops"])]
        inputs = {"na": "file ", "nc": "file ", "dict": "data set ", "objects": "objects of "}
        names_in = {k: inputs[m["is"]] + k for k, m in w["changing"].items()}
        shown = {}
        for g in got:
            shown.update(g["shown"])
        outs = {}
        for g in got:
            for s in g["steps"]:
                outs.setdefault(s["op"], set()).add(s["out"])
        info = {"what": "history", "world": w, "plans": plans,
                "different": {names[o - 1]: [shown[x] for x in xs] for o, xs in outs.items() if len(xs) > 1}}
        ops = [{"name": t, "puts": names_in[o["on"]] if o["kind"] == "put" else "", "as": o.get("as", ""),
                "on": "" if o["kind"] == "put" else names_in.get(o["on"]) or names_in.get(o.get("with"), "")} for t, o in zip(names, w["ops"])]
        b.add({"ops": ops, "store": got[0]["start"], "contents": got[0]["contents"],
               "runs": [{"held": {x: "ab"[j % 2] for x in names_in.values()}, "steps": g["steps"]} for j, g in enumerate(got)]}, info)
        steady = [{x: v for x, v in g["start"].items() if x not in names_in.values()} for g in got]
        if any(s != steady[0] for s in steady) or any(g["contents"] != got[0]["contents"] for g in got):
            ctx.violation("opening the inputs changes them", info)
        ctx.count("processes", len(got))
        ctx.count("operations", sum(len(g["steps"]) for g in got))
        ctx.count("operations_refused", sum(1 for t in shown.values() if "Error(" in t or "Exception(" in t))
        ctx.sample({"operations": names, "order": plans[0][:40]})
    b.report()


def repeats(ctx, rng):
    """Handle programs that write and read the same data sets again and again (NAHandle)."""
    nappy = core.nappy()
    b = Batch(ctx, "NAHandleTrace")
    tmp = ctx.newdir()
    for k in range(ctx.n(270, 4000)):
        sh = na.nonempty(na.shape(rng, na.FFIS[k % len(na.FFIS)], rng.random() < 0.3))
        d1 = na.dataset(rng, sh)
        dicts = {"d1": d1, "d2": na.dataset(rng, na.nonempty(na.shape(rng, rng.choice(na.FFIS))))}
        if rng.random() < 0.3:
            dicts["d1"] = na.as_arrays(rng, d1)
        opts = {"o1": rng.choice(["o1", "o1", "o2", "o3", "o4", "o5"]), "o2": rng.choice(sorted(OPTS)), "o3": rng.choice(sorted(OPTS))}
        prog, h, kept = [], 0, None
        for o in ["o1"] + rng.sample(["o2", "o3", "o2"], 2) + ["o1"]:
            h += 1
            d = "d1" if o == "o1" or rng.random() < 0.8 else "d2"
            path = "p1" if o == "o1" else "p2"
            prog += [op("openw", h, path, d, m="w"), op("write", h, path, d, o), op(rng.choice(["close", "exit"]), h, path)]
            if o == "o1":
                h += 1
                prog += [op("openr", h, path, m="r")] + [op("read", h, path, d)] * rng.choice([1, 2, 3]) + [op("close", h, path)]
        case = run_program(nappy, prog, dicts, opts, tmp, rng)
        info = {"what": "writing and reading FFI %s again" % sh["ffi"], "dicts": dicts,
                "program": [(a["op"], a["h"], a["p"], a["d"], OPTS.get(opts.get(a["o"]))) for a in prog],
                "errors": [e["err"] for e in case["events"]]}
        b.add(case, info)
        ctx.sample({"options": opts, "shape": sh})
    b.report()


def once(ctx, w, steps, seed):
    """One process; again if the day changes on the way (files state the day they were made)."""
    while True:
        start = datetime.date.today()
        got = child.run(ctx, [{"op": "history", "world": w, "steps": steps}], {"PYTHONHASHSEED": seed})[0]
        core.shutil.rmtree(w["scratch"], ignore_errors=True)
        if datetime.date.today() == start:
            return got
