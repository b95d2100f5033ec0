"""P07: choice of and dispatch on the file format index (spec/FFISelect.tla)."""
import os

from . import core, na
from .core import Batch, call


def only_starts(s):
    """Whether each mark lists its starting value only, while having any number of values."""
    return s["naux"] >= 3 and all(s["start"]) and set(s["lens"]) == {1}


def build(rng, s):
    """A dictionary with structure s of FFISelect, without FFI; (dict, index it was built as)."""
    niv = s["niv"]
    if niv in (0, 5):
        sh = na.shape(rng, 4010)
        d = na.dataset(rng, dict(sh, marks=1))
        d["NIV"] = niv
        del d["FFI"]
        return d, 0
    if niv == 1:
        ffi = 1001 if s["naux"] < 0 else 1020 if s["nvpm"] else 1010
    elif niv == 2:
        ffi = (2160 if s["char"] else 2310 if only_starts(s) else 2110) if s["per"] else 2010
    else:
        ffi = {3: 3010, 4: 4010}[niv]
    sh = na.shape(rng, ffi)
    sh["marks"] = max(1, sh["marks"])
    if s["naux"] >= 0:
        sh["naux"] = s["naux"]
        sh["nauxc"] = min(sh["nauxc"], max(0, s["naux"] - 1))
    if s["per"]:
        sh["marks"] = len(s["nx"])
        sh["rows"] = list(s["nx"])
    d = na.dataset(rng, sh)
    if ffi == 2110 and s["naux"] >= 3:
        d["A"][1] = [x[1][0] + (0 if agrees else 7) if x[1] else 7 for x, agrees in zip(d["X"], s["start"])]
    del d["FFI"]
    return d, ffi


def p07(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p07")
    recs, out = core.tlc("FFISelectMC")
    ctx.tlc_stats(out)
    ctx.coverage["exhaustive"] = True
    b = Batch(ctx, "FFISelectTrace", chunk=2000)
    f = Batch(ctx, "FormatTrace")
    tmp = ctx.newdir()
    for r in recs * ctx.n(2, 12):
        s = r["s"]
        d, ffi = build(rng, s)
        if rng.random() < 0.3:
            d["FFI"] = rng.choice([None, "", "auto"])       # not an index: to be chosen
        orig = na.fresh(d)
        got, err = call(nappy.chooseFFI, na.fresh(d))
        info = {"what": "choice of index", "structure": s, "error": repr(err), "dict": orig}
        b.add({"kind": "choose", "s": s, "ffi": int(got) if err is None else 0, "top": 0, "opened": 0}, info)
        if ffi and r["legal"]:
            # and the file written without naming an index holds the data set
            path = os.path.join(tmp, "f.na")
            _, err = call(na.write, nappy, d, path)
            if err:
                ctx.violation("writing a dictionary without FFI fails: %r" % err, info)
                continue
            text = core.read_text(path)
            lines = core.lines_of(text)
            used = lines[0].split()[1]
            if int(used) == ffi:
                want = na.project(dict(orig, FFI=ffi), na.DEFAULT_FMT)
            else:
                want = {"FFI": [str(used)]}
            f.add({"skip": 0, "lines": [core.line_rec(x) for x in lines], "given": want, "raised": False},
                  dict(info, what="file written without naming an index", file=text))
        ctx.sample({"structure": s, "chosen": got})
    tops = list(na.FFIS) + [0, -1001, 1000, 1002, 1021, 2011, 2210, 2311, 3020, 4011, 5010, 9999, 10010]
    for k in range(ctx.n(300, 2000)):
        top = rng.choice(tops)
        ffi = top if top in na.FFIS else rng.choice(na.FFIS)
        sh = na.shape(rng, ffi)
        lines = na.layout(rng, na.dataset(rng, sh), {"wrap": "random", "space": rng.random() < 0.5})
        w = lines[0].split()
        lines[0] = w[0] + rng.choice([" ", "\t", "   "]) + str(top) + rng.choice(["", " ", " {NLHEAD FFI}"])
        skip = rng.choice([0, 0, 1, 3])
        path = na.put(os.path.join(tmp, rng.choice(["a.na", "b.txt", "c"])), ["9 %d" % rng.choice(tops)] * skip + lines)
        got, err = call(nappy.readFFI, path, *([skip] if skip or rng.random() < 0.5 else []))
        h, err2 = call(nappy.openNAFile, path, ignore_header_lines=skip)
        opened = 0
        if err2 is None:
            opened = h.getFFI()
            if h["FFI"] != opened or type(h) is not nappy.getNAFileClass(opened):
                opened = -1
            h.close()
        b.add({"kind": "dispatch", "top": top, "ffi": got if err is None else -7, "opened": opened, "s": recs[0]["s"]},
              {"what": "dispatch on the top line", "lines": lines[:2], "skip": skip, "errors": [repr(err), repr(err2)]})
    b.report()
    f.report()
