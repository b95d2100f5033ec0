"""P01-P04, P08: the file formats themselves (spec/NAFormat.tla)."""
import os
import random

from . import core, na
from .core import Batch, call
from .p_handle import OPTS, run_program


def trace_case(lines, given, raised=False, skip=0):
    return {"skip": skip, "lines": [core.line_rec(x) for x in lines], "given": given, "raised": raised}


def shapes(ctx, rng, count, large=0.03):
    """Structures for all indices, in turn."""
    for k in range(count):
        sh = na.shape(rng, na.FFIS[k % len(na.FFIS)], big=rng.random() < 0.2)
        yield na.enlarge(rng, sh) if rng.random() < large else sh


def op(op, h, p, d="", o="", m=""):
    return {"op": op, "h": h, "p": p, "d": d, "o": o, "m": m}


def p01(ctx):
    """Programs that write and read data sets: what is read is what was written."""
    nappy = core.nappy()
    rng = ctx.sub("p01")
    b = Batch(ctx, "NAHandleTrace")
    tmp = ctx.newdir()
    for k, sh in enumerate(shapes(ctx, rng, ctx.n(1600, 9000))):
        dicts = {"d1": na.dataset(rng, sh), "d2": na.dataset(rng, na.shape(rng, rng.choice(na.FFIS)))}
        if rng.random() < 0.3:
            dicts = {x: na.as_arrays(rng, d) for x, d in dicts.items()}
        prog = [op("openw", 1, "p1", "d1", m="w"), op("write", 1, "p1", "d1", "o1")]
        prog += rng.choice([[op("close", 1, "p1")], [op("exit", 1, "p1")], []])
        closed = len(prog) == 3
        tail = [op("openr", 2, "p1", m="r"), op("read", 2, "p1", "d1"), op("close", 2, "p1")]
        if not closed:
            # read while the writing handle is still open, then go on
            prog += [op("close", 1, "p1")]
        if rng.random() < 0.3:
            prog += [op("openw", 2, "p2", "d2", m="w"), op("write", 2, "p2", "d2", "o1"), op("close", 2, "p2"),
                     op("openr", 3, "p2", m="r"), op("read", 3, "p2", "d2")]
            tail = [dict(t, h=t["h"] + 2) for t in tail]
        prog += tail
        opts = {"o1": rng.choice(["o1", "o1", "o2", "o3", "o4", "o5"])}
        case = run_program(nappy, prog, dicts, opts, tmp, rng)
        info = {"what": "reading back FFI %s" % sh["ffi"], "dicts": dicts, "options": OPTS[opts["o1"]],
                "events": [(e["op"], e["p"], e["err"]) for e in case["events"]]}
        case["dicts"] = {}                   # P06's business
        for e in case["events"]:
            e["dicts"], e["live"] = {}, []
        b.add(case, info)
        ctx.sample({"shape": sh, "options": opts})
    b.report()


def language(ctx, cfg, rng=None, most=None):
    """The files of the language model (NAFormatMC), all or some of them."""
    recs, out = core.tlc("NAFormatMC", cfg=cfg, timeout=600)
    ctx.tlc_stats(out)
    ctx.count("model_files", len(recs))
    if most is not None and most < len(recs):
        recs = rng.sample(recs, most)
    ctx.count("model_files_replayed", len(recs))
    return recs


def p02(ctx):
    """The written file, decoded by the format specification, is the data set given."""
    nappy = core.nappy()
    rng = ctx.sub("p02")
    b = Batch(ctx, "FormatTrace")
    tmp = ctx.newdir()
    for k, sh in enumerate(shapes(ctx, rng, ctx.n(450, 6000))):
        d = na.dataset(rng, sh)
        path = os.path.join(tmp, "f%d.na" % k)
        orig = na.fresh(d)
        if rng.random() < 0.4 and sh["ffi"] in (2010, 3010, 4010):
            # the values of the axes listed beyond those that the file is to list
            for j, n in enumerate(d["NXDEF"]):
                x, dx = d["X"][j + 1], d["DX"][j + 1]
                d["X"][j + 1] = x + [x[0] + i * dx for i in range(n, d["NX"][j])]
        if rng.random() < 0.2:
            d = na.as_arrays(rng, d)
        _, err = call(na.write, nappy, d, path)
        info = {"what": "written file of FFI %s" % sh["ffi"], "dict": orig}
        if err:
            ctx.violation("a complete dictionary of FFI %s cannot be written: %r" % (sh["ffi"], err), info)
            continue
        info["file"] = core.read_text(path)
        b.add(trace_case(core.lines_of(info["file"]), na.project(orig, na.DEFAULT_FMT)), info)
        ctx.sample({"file": info["file"]})
        os.unlink(path)
    source, path = os.path.join(tmp, "source.na"), os.path.join(tmp, "copy.na")
    for r in language(ctx, "NAFormatMCdeep" if ctx.thorough else "NAFormatMC"):
        na.put(source, r["lines"])
        d, err = call(na.read, nappy, source)
        info = {"what": "copy of a small file of FFI %s" % r["ffi"], "source": r["lines"]}
        if err:
            continue                         # P03's business
        orig = na.fresh(d)
        _, err = call(na.write, nappy, d, path)
        if err:
            ctx.violation("what was read of FFI %s cannot be written: %r" % (r["ffi"], err), info)
            continue
        info["file"] = core.read_text(path)
        b.add(trace_case(core.lines_of(info["file"]), na.project(orig, na.DEFAULT_FMT)), info)
    b.report()


def style(rng):
    return {"wrap": rng.choice(["one", "each", "random", "random"]), "space": rng.random() < 0.6,
            "notes": rng.random() < 0.5, "literals": rng.random() < 0.5}


def read_case(ctx, nappy, b, path, lines, info, skip=0):
    got, err = call(na.read, nappy, path, skip, limit=10)
    if isinstance(err, core.Hang):
        ctx.violation("reading does not terminate: %s" % info["what"], info)
        return
    given = {}
    if err is None:
        try:
            given = na.project(got, header_lines=True)
        except Exception as exc:      # not even a data set
            given = {"FFI": ["unusable data set: %r" % exc]}
    b.add(trace_case(lines, given, err is not None, skip), dict(info, error=repr(err), file="\n".join(lines)))


def p03(ctx):
    """Any legal layout is read as the specification reads it."""
    nappy = core.nappy()
    rng = ctx.sub("p03")
    b = Batch(ctx, "FormatTrace")
    tmp = ctx.newdir()
    for k, sh in enumerate(shapes(ctx, rng, ctx.n(450, 6000))):
        d = na.dataset(rng, sh)
        st = style(rng)
        lines = na.layout(rng, d, st)
        skip = rng.choice([0, 0, 0, 1, 2, 5])
        extra = [rng.choice(["# converted", "12 1001", "", "1 2 3", "text {note}"]) for _ in range(skip)]
        path = os.path.join(tmp, "f%d.na" % k)
        tail = rng.choice([[], [], ["", "  "]])
        na.put(path, extra + lines + tail, end=rng.choice(["\n", "\n", "\r\n"]), final=rng.random() < 0.8)
        info = {"what": "layout %s of FFI %s" % (st["wrap"], sh["ffi"]), "style": st, "skip": skip}
        read_case(ctx, nappy, b, path, extra + lines + tail, info, skip)
        # the generator and the specification must agree that the layout is legal
        b.add(trace_case(extra + lines + tail, na.project(d), False, skip),
              {"what": "generated layout is not legal (check error)", "gen": True, "file": "\n".join(lines)})
        ctx.sample({"file": "\n".join(lines)})
        os.unlink(path)
    path = os.path.join(tmp, "small.na")
    for r in language(ctx, "NAFormatMC", rng, ctx.n(1500, 10 ** 6)) + language(ctx, "NAFormatMCbreaks", rng, ctx.n(1200, 10 ** 6)) + \
            (language(ctx, "NAFormatMCbreaks2") + language(ctx, "NAFormatMCdeep") if ctx.thorough else []):
        na.put(path, r["lines"])
        read_case(ctx, nappy, b, path, r["lines"], {"what": "small file of FFI %s, %d breaks" % (r["ffi"], r["breaks"])})
    verdicts = b.run()
    for cid, v in verdicts.items():
        if b.info[cid].get("gen") and v["bad"]:
            raise core.CheckError("generator and specification disagree: %s\n%s" % (v, b.info[cid]["file"]))
    b.report(verdicts)


# ------------------------------------------------------------------ mutations
def mutate(rng, lines, nhead):
    """One realistic damage to a file; (kind, lines)."""
    ls = list(lines)
    n = len(ls)
    kind = rng.choice(["cut", "cut", "cutline", "drop", "dup", "dropitem", "additem", "count", "count",
                       "word", "nlhead", "ffi", "blank", "swap", "join", "badnum", "extra", "fraction", "fraction"])
    numeric = [k for k in range(n) if ls[k].split() and all(core.is_number(w) for w in ls[k].split())]
    ints = [k for k in numeric if all(core.INT_RE.match(w) for w in ls[k].split()) and k < nhead]
    k = rng.randrange(n)
    if kind == "cut":
        ls = ls[:k]
    elif kind == "cutline":
        w = ls[k].split()
        ls = ls[:k] + ([" ".join(w[:rng.randrange(len(w))])] if w else [])
    elif kind == "drop":
        del ls[k]
    elif kind == "dup":
        ls.insert(k, ls[k])
    elif kind in ("dropitem", "additem", "word", "badnum") and numeric:
        k = rng.choice(numeric)
        w = ls[k].split()
        j = rng.randrange(len(w))
        if kind == "dropitem":
            del w[j]
        elif kind == "additem":
            w.insert(j, rng.choice(["0", "7", "-9999", "1.5"]))
        elif kind == "word":
            w[j] = rng.choice(["x", "NaNs", "1.2.3", "1,5", "--", "12a"])
        else:
            w[j] = rng.choice(["1.5", "-1", "0", "2.0", "1e2", "3"])
        ls[k] = " ".join(w)
    elif kind == "count" and ints:
        k = rng.choice(ints)
        w = ls[k].split()
        j = rng.randrange(len(w))
        w[j] = str(int(w[j]) + rng.choice([-1, 1, 1, 2, -2, 50]))
        ls[k] = " ".join(w)
    elif kind == "fraction":                             # a number of values that is no whole number
        whole = [(k, j) for k in numeric for j, x in enumerate(ls[k].split()) if k >= nhead and x.isdigit() and 0 < int(x) < 9]
        if whole:
            k, j = rng.choice(whole)
            w = ls[k].split()
            w[j] += rng.choice([".5", ".25", ".999", ".0001"])
            ls[k] = " ".join(w)
    elif kind in ("nlhead", "ffi"):
        w = ls[0].split()
        if kind == "nlhead":
            w[0] = str(int(w[0]) + rng.choice([-2, -1, 1, 2, 30]))
        else:
            w[1] = rng.choice(["1001", "1010", "1020", "2010", "2110", "2160", "2310", "3010", "4010",
                               "1002", "5010", "0", "-1001", "2210", "10"])
        ls[0] = " ".join(w)
    elif kind == "blank":
        ls.insert(k, rng.choice(["", "  "]))
    elif kind == "swap" and n > 1:
        j = rng.randrange(n)
        ls[k], ls[j] = ls[j], ls[k]
    elif kind == "join" and k + 1 < n:
        ls[k:k + 2] = [ls[k] + " " + ls[k + 1]]
    elif kind == "extra":
        ls.insert(rng.choice([k, n]), rng.choice(["1 2 3", "0", "end", "1.0 2.0"]))
    return kind, ls


def ambiguous(lines, nhead_seen):
    """Layouts the format leaves open: a blank line where header numbers are listed."""
    return False


def p04(ctx):
    """Damaged files are refused exactly when the specification finds them malformed."""
    nappy = core.nappy()
    rng = ctx.sub("p04")
    b = Batch(ctx, "FormatTrace", chunk=900)
    tmp = ctx.newdir()
    path = os.path.join(tmp, "f.na")
    for k, sh in enumerate(shapes(ctx, rng, ctx.n(108, 900), 0.06)):
        sh["marks"] = max(1, sh["marks"])
        if sh["ffi"] in (2110, 2160, 2310) and len(sh["rows"]) != sh["marks"]:
            sh["rows"] = [2] * sh["marks"]
        if sh["rows"] and (k // 9) % 2:
            sh["rows"][-1] = 0                           # (a record that ends with its auxiliary variables)
            if sh["ffi"] == 2160:
                sh["naux"], sh["nauxc"] = 3, 2
        d = na.dataset(rng, sh)
        lines = na.layout(rng, d, {"wrap": rng.choice(["one", "random"])})
        nhead = int(lines[0].split()[0])
        variants = []
        if k < ctx.n(18, 180):
            variants += [("cut", lines[:j]) for j in range(len(lines) + 1)]     # every truncation
        for _ in range(ctx.n(22, 60)):
            kind, ls = mutate(rng, lines, nhead)
            if rng.random() < 0.2:
                try:
                    kind2, ls = mutate(rng, ls, nhead)
                except (ValueError, IndexError):     # too damaged for that one
                    kind2 = "-"
                kind += "+" + kind2
            variants.append((kind, ls))
        if k % 3 == 0:                                   # blank lines about a lone data line
            for j in range(nhead, min(len(lines), nhead + 2) + 1):
                for few in (nhead + 1, nhead + 2, len(lines)):
                    ls = lines[:max(few, j)]
                    variants.append(("blank", ls[:j] + [rng.choice(["", " "])] + ls[j:]))
        if len(lines) > 60:                              # damage at any depth
            for j in rng.sample(range(nhead, len(lines)), min(12, len(lines) - nhead)) + [len(lines) - 1]:
                variants += [("deep blank", lines[:j] + [rng.choice(["", " "])] + lines[j:]), ("deep cut", lines[:j])]
                w = lines[j].split()
                if len(w) > 1:
                    variants.append(("deep loss", lines[:j] + [" ".join(w[:-1])] + lines[j + 1:]))
        for kind, ls in variants:
            na.put(path, ls)
            info = {"what": "%s in a file of FFI %s" % (kind, sh["ffi"])}
            read_case(ctx, nappy, b, path, ls, info)
            ctx.sample({"damage": kind, "file": "\n".join(ls)})
    # small files: each line in turn lost or repeated, each count one off
    files = language(ctx, "NAFormatMC", rng, ctx.n(60, 1200))
    for r in files:
        ls, variants = r["lines"], []
        for j, x in enumerate(ls):
            w = x.split()
            variants += [("drop", ls[:j] + ls[j + 1:]), ("dup", ls[:j] + [x] + ls[j:]), ("cut", ls[:j])]
            if all(core.INT_RE.match(y) for y in w):
                i = rng.randrange(len(w))
                variants.append(("count", ls[:j] + [" ".join(w[:i] + [str(int(w[i]) + rng.choice([-1, 1]))] + w[i + 1:])] + ls[j + 1:]))
            if all(core.is_number(y) for y in w):
                i = rng.randrange(len(w))
                variants.append(("item", ls[:j] + [" ".join(w[:i] + (["7"] if rng.random() < 0.5 else []) + w[i + 1:])] + ls[j + 1:]))
        for kind, ls in rng.sample(variants, min(len(variants), ctx.n(25, 40))):
            na.put(path, ls)
            read_case(ctx, nappy, b, path, ls, {"what": "%s in a small file of FFI %s" % (kind, r["ffi"])})
    verdicts = b.run()
    ctx.coverage["malformed"] = sum(1 for v in verdicts.values() if v["err"])
    ctx.coverage["still_well_formed"] = sum(1 for v in verdicts.values() if not v["err"])
    b.report(verdicts)


# --------------------------------------------------------------- presentation
def split(line, seps):
    out = [line]
    for s in seps:
        out = [x for w in out for x in w.split(s)]
    return [x.strip() for x in out]


def p08(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p08")
    b = Batch(ctx, "Presentation")
    f = Batch(ctx, "FormatTrace")
    tmp = ctx.newdir()
    for k, sh in enumerate(shapes(ctx, rng, ctx.n(900, 6000))):
        d = na.dataset(rng, sh)
        fmt = rng.choice(["%.10g", "%.10g", "%8.3f", "%.4e", "%.17g", "%12.5g"])
        p0, p1, p2 = (os.path.join(tmp, x) for x in ("base.na", "variant.na", "conv.csv"))
        # the base: tabs, so that items cannot run together; its content is judged too
        _, err = call(na.write, nappy, na.fresh(d), p0, delimiter="\t", float_format=fmt)
        info = {"what": "presentation of FFI %s" % sh["ffi"], "dict": d, "format": fmt}
        if err:
            ctx.violation("writing with tabs and %s fails: %r" % (fmt, err), info)
            continue
        base = core.lines_of(core.read_text(p0))
        f.add(trace_case(base, na.project(d, fmt)), dict(info, what="number format %s, FFI %s" % (fmt, sh["ffi"])))
        delim = rng.choice([",", ",", "|", " ", "  ", "|", " , "])
        kw = {"delimiter": delim, "float_format": fmt}
        ann = rng.random() < 0.5 and bool(delim.strip())
        noh = rng.random() < 0.35
        if ann:
            kw["annotation"] = True
        if noh:
            kw["no_header"] = True
        _, err = call(na.write, nappy, na.fresh(d), p1, **kw)
        info = dict(info, options=kw)
        if err:
            ctx.violation("writing with %r fails: %r" % (kw, err), info)
            continue
        got = core.lines_of(core.read_text(p1))
        seps = ["\t", delim.strip() or None]
        same = True
        if fmt == "%.10g":
            # the CSV conversion of a readable file
            conv = {k2: v for k2, v in kw.items() if k2 in ("annotation", "no_header")}
            _, e0 = call(na.write, nappy, na.fresh(d), p0)
            named = rng.random() < 0.5
            src = os.path.join(tmp, "in.put.na")
            os.replace(p0, src)
            dst = p2 if named else os.path.join(tmp, "in.put.csv")
            _, e1 = call(nappy.convertNAToCSV, src, *([dst] if named else []), **conv)
            rd, e2 = call(na.read, nappy, src)
            _, e3 = call(na.write, nappy, rd, p1, delimiter=",", **conv)
            if e0 or e1 or e2 or e3:
                ctx.violation("CSV conversion fails: %r" % (e0 or e1 or e2 or e3), info)
                continue
            same = os.path.exists(dst) and core.read_text(dst) == core.read_text(p1)
        b.add({"base": [items(x, seps) for x in base], "got": [items(x, seps) for x in got],
               "nhead": int(base[0].split()[0]), "noheader": noh, "annotated": ann, "same": same},
              dict(info, base="\n".join(base), got="\n".join(got)))
        ctx.sample({"options": kw, "shape": sh})
    f.report()
    b.report()


def items(line, seps):
    out = [line]
    for s in seps:
        out = [x for w in out for x in (w.split(s) if s else w.split() or [""])]
    return [x.strip() for x in out]
