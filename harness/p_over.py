"""P14: overridden header items of converted files (spec/Overrides.tla)."""
import concurrent.futures
import datetime
import os
import re

from . import child, core, nc
from .core import Batch
from .p_nc import attributes, gridded

STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - Converted")
CONFIGS = [
    {"ORG": "Data held at our place."},
    {},
    {"SNAME": "A configured source", "DATE": "1999 12 31", "NV": "7", "foo": "bar"},
    {"NCOM": "A configured note", "MNAME": "Configured: mission = x", "XNAME": "no", "RDATE": "2003 4 5"},
]
ONE_LINE = ["plain", "two  words", "a: b = c; d, e", "None", "é unicode", "100% %s", "1.0 2.0", "0", "it's", "",
            "==== Normal Comments follow ====", "x (K)"]
COMMENTS = ["one line", "two\nlines", ["as", "a list"], ["only"], "a\n\nb", "==== Normal Comments end ====", [],
            ["=== Data Section begins on the next line ===", "after"], "a = 1, b: 2", ["same", "same"]]


def overrides(rng, nv, nauxv, some=True):
    """Overrides for files that all have nv variables and nauxv auxiliary variables (0: unknown)."""
    out = {}
    keys = rng.sample(["ONAME", "ORG", "SNAME", "MNAME", "DATE", "RDATE", "SCOM", "NCOM", "VNAME", "ANAME"],
                      rng.choice([1, 1, 2, 3, 5, 10]))
    for k in keys:
        if k in ("DATE", "RDATE"):
            out[k] = rng.choice(["2001 2 3", "1999  12  31", "999 999 999", "2024 02 29"])
        elif k in ("SCOM", "NCOM"):
            out[k] = rng.choice(COMMENTS)
        elif k == "VNAME":
            if nv:
                out[k] = "  ".join(rng.choice(["new%d", "other%d(K)", "a,b%d", "%d"]) % j for j in range(nv))
        elif k == "ANAME":
            if nauxv:
                out[k] = " ".join("aux%d" % j for j in range(nauxv))
        else:
            out[k] = rng.choice(ONE_LINE)
    if rng.random() < 0.3:
        out[rng.choice(["FFI", "NLHEAD", "NV", "X", "XNAME", "VMISS", "VSCAL", "IVOL", "oname", "Org", "NCOML", "V"])] = \
            rng.choice(["5", "foo", "1 2 3"])
    return out


def as_spec(ov):
    """{"": ...} keeps the record from being an empty array."""
    def lines(v):
        return [x.strip() for x in (v.split("\n") if isinstance(v, str) else v)]

    def words(v):
        ws = v.split() if isinstance(v, str) else list(v)
        return ws
    out = {"_": {"words": [], "lines": []}}
    for k, v in ov.items():
        w = words(v)
        if k in ("DATE", "RDATE"):
            w = [str(int(x)) for x in w]
        out[k] = {"words": w, "lines": lines(v)}
    return out


def file_lines(text):
    return [core.line_rec(STAMP.sub("STAMP - Converted", x)) for x in core.lines_of(text)]


def known_counts(p):
    """The numbers of variables and auxiliary variables, when there is only one file."""
    vs = [v for v in p["vars"] if v["dims"]]
    top = max(vs, key=lambda v: len(v["dims"]))["dims"]
    prim = [v for v in vs if v["dims"] == top]
    aux = [v for v in vs if v["dims"] != top]
    if all(v["dims"] == top[:1] for v in aux) and len(top) in (2, 3, 4) or not aux:
        return len(prim), len(aux)
    return 0, 0


def a_source(ctx, rng):
    p = gridded(rng, naxes=rng.choice([1, 1, 2, 3]), nvars=rng.choice([1, 2, 3, 4, 4, 2, 3, 11]))
    if rng.random() < 0.4:                                # one file with auxiliary variables
        big = max((v for v in p["vars"] if v["dims"]), key=lambda v: len(v["dims"]))
        p["vars"] = [v for v in p["vars"] if not v["dims"] or v["dims"] == big["dims"]
                     or (len(big["dims"]) > 1 and v["dims"] == big["dims"][:1])]
    attributes(rng, p)
    for v in p["vars"]:
        v["attrs"] = {k: x for k, x in v["attrs"].items() if not isinstance(x, str) or "\n" not in x or k == "comment"}
    path = nc.write_nc(p, os.path.join(ctx.newdir(), "source.nc"))
    return p, path, known_counts(p)


def one_process(ctx, rng, conf, nhist):
    """Histories performed in one process, and what each source gives without overrides in another one."""
    sources, base_ops, hist = [], [], []
    for h in range(nhist):
        mine = []
        for s in range(rng.choice([1, 2])):
            p, path, counts = a_source(ctx, rng)
            kw = {}
            if rng.random() < 0.3:
                kw["delimiter"] = rng.choice(["  ", "\t"])
            if rng.random() < 0.25:
                kw["size_limit"] = rng.choice([1, 2, 3])
            how = rng.choice(["nc", "nc", "xr", "class", "dataset"])
            vs = [v["id"] for v in p["vars"]]
            d = ctx.newdir()
            base_ops.append({"op": "convert", "how": how, "src": path, "vars": vs, "kw": kw, "key": path,
                             "target": os.path.join(d, "out.na")})
            mine.append((p, how, path, vs, kw, counts, len(base_ops) - 1))
        evs = []
        once = {}
        for e in range(rng.choice([1, 2, 3, 4])):
            s = rng.randrange(len(mine))
            p, how, path, vs, kw, (nv, na), _ = mine[s]
            ov = overrides(rng, nv, na) if rng.random() < 0.7 else {}
            has = dict(p["gattrs"])
            for k, a in (("MNAME", "title"), ("SNAME", "source"), ("ONAME", "institution")):
                if k in ov and rng.random() < 0.3:        # all but what it is without it
                    x = has.get(a, "None")
                    x = x if isinstance(x, str) and len(x.splitlines()) == 1 else "None"
                    ov[k] = rng.choice([x, x.swapcase(), x.upper(), " " + x if not x.startswith(" ") else x[1:]]).strip()
            if how == "class":                            # the overrides belong to the converter
                ov = once.setdefault(s, ov)
            evs.append((s, ov, {"op": "convert", "how": how, "src": path, "vars": vs, "kw": kw, "key": path,
                                "target": os.path.join(ctx.newdir(), "out.na"),
                                "override": ov if ov or rng.random() < 0.5 else None}))
        hist.append((mine, evs))
    return base_ops, hist


def write_conf(ctx, conf):
    path = os.path.join(ctx.newdir(), "local_attributes.ini")
    with open(path, "w", encoding="utf-8") as fh:
        fh.write("[nc_attributes]\ninstitution = Our place\n\n[na_attributes]\n")
        for k, v in conf.items():
            fh.write("%s = %s\n" % (k, v))
    return path


def p14(ctx):
    rng = ctx.sub("p14")
    b = Batch(ctx, "OverridesTrace", chunk=60)
    plain = write_conf(ctx, {})
    jobs = []
    for conf in CONFIGS:
        for rep in range(ctx.n(1, 6)):
            base_ops, hist = one_process(ctx, rng, conf, ctx.n(60, 100))
            jobs.append((conf, write_conf(ctx, conf), base_ops, hist))
    start = datetime.date.today()
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        bases = [pool.submit(child.run, ctx, j[2], {"NAPPY_LOCAL_ATTRIBUTES": plain}) for j in jobs]
        runs = [pool.submit(child.run, ctx, [op for _, evs in j[3] for _, _, op in evs],
                            {"NAPPY_LOCAL_ATTRIBUTES": j[1]}) for j in jobs]
        bases, runs = [f.result() for f in bases], [f.result() for f in runs]
    days = sorted({start, datetime.date.today()})
    days = [["%d" % x for x in (t.year, t.month, t.day)] for t in days]
    for (conf, _, base_ops, hist), base, got in zip(jobs, bases, runs):
        got = iter(got)
        for mine, evs in hist:
            res = [(s, ov, next(got)) for s, ov, _ in evs]
            info = {"what": "overrides (%s)" % ", ".join(sorted({m[1] for m in mine})), "config": conf,
                    "events": [[s, ov, r] for s, ov, r in res], "sources": [[m[0], m[4]] for m in mine],
                    "bases": [base[m[6]] for m in mine]}
            if any(base[m[6]]["error"] for m in mine):
                ctx.violation("conversion without overrides fails: %s" % [base[m[6]]["error"] for m in mine], info)
                continue
            for s, ov, r in res:
                if r["result"] and not r["result"]["kept"]:
                    ctx.violation("the overrides given to a conversion were changed by it", info)
            case = {"conf": as_spec(conf),
                    "bases": [[file_lines(t) for _, t in base[m[6]]["result"]["files"]] for m in mine],
                    "events": [{"src": s + 1, "given": as_spec(ov), "raised": r["error"] is not None, "today": days,
                                "files": [file_lines(t) for _, t in (r["result"] or {"files": []})["files"]]}
                               for s, ov, r in res]}
            b.add(case, info)
            ctx.count("conversions", len(res))
            ctx.count("overridden_items", sum(len(ov) for _, ov, _ in res))
            ctx.sample({"config": conf, "overrides": [ov for _, ov, _ in res]})
    b.report()
