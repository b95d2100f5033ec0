"""P05, P06: handles, histories and repeatability (spec/NAHandle.tla)."""
import hashlib
import os
import re

from . import core, na
from .core import Batch, call

OPTS = {"o1": {}, "o2": {"float_format": "%.6e", "delimiter": "  "},
        "o3": {"delimiter": "\t", "float_format": "%g"},
        "o4": {"float_format": "%.17g"}, "o5": {"float_format": "%10.3f", "delimiter": " "},
        "c1": {"delimiter": ","}, "c2": {"annotation": True}, "c3": {"no_header": True},
        "c4": {"delimiter": ",", "annotation": True, "float_format": "%8.3f"},
        "c5": {"annotation": True, "no_header": True}, "c6": {"no_header": True, "delimiter": ",", "float_format": "%g"}}


def programs(ctx, maxlen):
    recs, out = core.tlc("NAHandleMC", env={"MAXLEN": str(maxlen)})
    ctx.tlc_stats(out)
    return [r["prog"] for r in recs]


def simulated(ctx, depth, num, seed):
    recs, out = core.tlc("NAHandleMC", env={"MAXLEN": str(depth)}, workers=1,
                         args=["-simulate", "num=%d" % num, "-seed", str(seed), "-depth", str(depth + 1)])
    if "Error:" in out:
        raise core.CheckError(out[-2000:])
    return [r["prog"] for r in recs]


def state_of(path):
    if not os.path.exists(path):
        return "none"
    if os.path.getsize(path) == 0:
        return "empty"
    return core.digest(path)


def live_paths(paths):
    out = []
    inv = {os.path.realpath(p): k for k, p in paths.items()}
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t in inv:
            out.append(inv[t])
    return sorted(set(out))


def dict_digest(d):
    """A digest of everything a dictionary holds, types included, but the chosen FFI."""
    d = {k: v for k, v in d.items() if k != "FFI"}

    def show(v):
        if hasattr(v, "tolist"):
            return "array(%r, %s)" % (v.tolist(), v.dtype)
        if isinstance(v, (list, tuple)):
            return type(v).__name__ + "(" + ",".join(show(x) for x in v) + ")"
        return repr(v)
    return hashlib.md5("|".join("%s=%s" % (k, show(d[k])) for k in sorted(d)).encode()).hexdigest()


BAD_MODES = ["a", "rw", "x", "r+", "W", "", "wb", "rb"]


def run_program(nappy, prog, dicts, opts, tmp, rng):
    """Run a program of NAHandle on nappy; the log, as NAHandleTrace wants it."""
    paths = {"p1": os.path.join(tmp, "one.na"), "p2": os.path.join(tmp, "two.na")}
    handles, events = {}, []
    d0 = {k: dict_digest(d) for k, d in dicts.items()}
    alive = []
    first = {k: na.fresh(d) for k, d in dicts.items()}
    mend, should, how = {}, dict(d0), {}
    index = {}                       # handle of the specification -> object
    for a in prog:
        op, p, res, err = a["op"], paths[a["p"]], None, None
        ev = {"op": op, "h": a["h"], "p": a["p"], "d": a["d"], "o": a["o"], "m": a["m"],
              "fields": {}, "wrote": {}}
        if op == "openw":
            res, err = call(nappy.openNAFile, p, mode="w", na_dict=dicts[a["d"]])
            index[a["h"]] = res
        elif op == "openr":
            res, err = call(nappy.openNAFile, p, **rng.choice([{}, {"mode": "r"}]))
            if not err:
                index[a["h"]] = res
        elif op == "openbad":
            res, err = call(nappy.openNAFile, p, mode=rng.choice(BAD_MODES), na_dict=dicts[a["d"]])
        elif op == "write":
            h = index[a["h"]]
            kw = OPTS[opts[a["o"]]]
            res, err = call(lambda: h.write(**kw))
            ev["wrote"] = na.project(first[a["d"]], kw.get("float_format", na.DEFAULT_FMT)) if a["d"] else {}
        elif op == "read":
            h = index[a["h"]]
            res, err = call(lambda: (h.readData(), h.getNADict())[1])
            if not err:
                ev["fields"] = na.project(res)
        elif op == "spoil":
            # (an attempt keeps what it was given, so the same is missing from the next one)
            how.setdefault(a["d"], rng.choice(["value", "value", "value", "V", "X", "short"]))
            mend[a["d"]] = spoil(rng, dicts[a["d"]], how[a["d"]])
            should[a["d"]] = dict_digest(dicts[a["d"]])
        elif op == "mend":
            mend.pop(a["d"])()
            should[a["d"]] = d0[a["d"]]
        elif op == "close":
            res, err = call(index[a["h"]].close)
        elif op == "exit":
            fail = rng.random() < 0.5
            res, err = call(leave, index[a["h"]], fail)
            if isinstance(err, Boom) == fail:            # (an error inside the block comes out of it)
                err = None
            else:
                err = err or Exception("the error raised inside the block is lost")
        alive.append(res)
        ev["ok"] = err is None
        ev["err"] = repr(err)
        ev["files"] = {k: state_of(v) for k, v in paths.items()}
        now = {k: dict_digest(d) for k, d in dicts.items()}
        ev["dicts"] = {k: d0[k] if x == should[k] else "changed" for k, x in now.items()}
        ev["live"] = live_paths(paths)
        events.append(ev)
    for h in index.values():
        if h is not None:
            call(h.close)
    for p in paths.values():
        if os.path.exists(p):
            os.unlink(p)
    return {"events": events, "dicts": d0}


def spoil(rng, d, how):
    """Make a data set one that cannot be written, with or without a header; how to put it right again."""
    def last(v, path=()):
        """Where the last number of a nested list is."""
        for k in range(len(v) - 1, -1, -1):
            at = last(v[k], path + (k,)) if isinstance(v[k], list) else path + (k,)
            if at is not None:
                return at
        return None
    at = last(d["V"])
    if how == "short" and at is not None:
        old = d["V"].pop()
        return lambda: d["V"].append(old)
    if how == "value" and at is not None:
        v = d["V"]
        for k in at[:-1]:
            v = v[k]
        old, v[at[-1]] = v[at[-1]], rng.choice([None, "n/a", [1.0]])

        def back():
            v[at[-1]] = old
        return back
    key = "V" if how == "V" and at is not None else "X"
    was = dict(d)
    del d[key]

    def put():                                           # (in the order they had)
        d.clear()
        d.update(was)
    return put


class Boom(Exception):
    pass


def leave(h, fail):
    with h:
        if fail:
            raise Boom()


def p05(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p05")
    tmp = ctx.newdir()
    progs = programs(ctx, ctx.n(3, 5))
    if ctx.thorough:
        rng.shuffle(progs)
        progs = progs[:20000]
    sims = simulated(ctx, 14, ctx.n(150, 2000), ctx.seed)
    ctx.coverage["programs_exhaustive"] = len(progs)
    ctx.coverage["programs_simulated"] = len(sims)
    b = Batch(ctx, "NAHandleTrace", chunk=1500)
    for prog in progs + sims:
        dicts = {}
        for name in ("d1", "d2"):
            sh = na.nonempty(na.shape(rng, rng.choice(na.FFIS)))
            dicts[name] = na.dataset(rng, sh)
            if rng.random() < 0.3:
                d = dicts[name]
                del d["FFI"]
                if nappy.chooseFFI(d) != sh["ffi"]:
                    d["FFI"] = sh["ffi"]
                else:
                    d["FFI"] = sh["ffi"]
        opts = {"o1": "o1", "o2": rng.choice(["c1", "c2", "c3", "c3", "c4", "c5", "c6"])}
        case = run_program(nappy, prog, dicts, opts, tmp, rng)
        info = {"what": "handle life cycle", "program": [(a["op"], a["h"], a["p"], a["d"], a["o"]) for a in prog], "options": opts,
                "errors": [e["err"] for e in case["events"]], "ffis": {k: d.get("FFI") for k, d in dicts.items()}}
        for e in case["events"]:
            # values are P01's business; here only the life cycle matters
            e["fields"], e["wrote"] = {}, {}
        b.add(case, info)
        ctx.sample(info)
    b.report()
