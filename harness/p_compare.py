"""P15: comparison verdicts (spec/Compare.tla)."""
import os

from . import core, na
from .core import Batch, call


INF = float("inf")


def citem(tok):
    if not core.is_number(tok) or tok.strip("+-").lower() == "nan":
        return {"s": tok, "v": "", "m": 0, "known": False}           # (no number is near what is not a number)
    f = float(tok)
    if f in (INF, -INF):
        return {"s": tok, "v": "inf" if f > 0 else "-inf", "m": 0, "known": False}
    m, known = 0, False
    if f == f and abs(f) < 10000:
        m = round(f * 1000)
        known = abs(f * 1000 - m) < 1e-6 and (m != 0 or f == 0)
    return {"s": tok, "v": core.num(tok), "m": m if known else 0, "known": known}


def cline(line, delim):
    t = line.strip()
    raw = [x.strip() for x in t.split(delim)]
    return {"t": t, "items": [citem(x) for x in raw], "words": [citem(x) for x in " ".join(raw).split()]}


def cfile(lines, delim):
    nh = int(lines[0].split(delim)[0])
    return {"nh": nh, "lines": [cline(x, delim) for x in lines]}


def risky(f, g):
    """Pairs of numbers on which one per cent cannot be decided in thousandths, or is borderline."""
    for a, b in zip(f["lines"], g["lines"]):
        for key in ("items", "words"):
            for x, y in zip(a[key], b[key]):
                if x["v"] and y["v"] and x["v"] != y["v"]:
                    if "inf" in x["v"] + y["v"]:         # only near itself
                        continue
                    if not (x["known"] and y["known"]):
                        return True
                    if x["m"] * y["m"] == 0:
                        # zero is near nothing but itself; nappy counts numbers below 1e-9 as zero
                        continue
                    lo, hi = sorted((abs(x["m"]), abs(y["m"])))
                    if x["m"] * y["m"] > 0 and 0.9995 < 100 * (hi - lo) / lo < 1.0005:
                        return True
    return False


def tame(rng, d):
    """Values in thousandths below ten thousand, so that one per cent can be decided."""
    def go(v):
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, (int, float)):
            return rng.choice([rng.randint(-300, 9000), round(rng.uniform(-900, 900), rng.choice([1, 2, 3]))])
        return v
    for key in ("V", "X"):
        d[key] = go(d[key])
    if d["FFI"] not in (2110, 2160, 2310) and d.get("A"):
        d["A"] = go(d["A"])
    return d


def perturb(rng, lines, delim, nh):
    """Change something in a file; (what, lines)."""
    ls = list(lines)
    kind = rng.choice(["number", "number", "number", "last", "small", "small", "drop", "append", "text",
                       "reformat", "reformat", "swap", "case", "sign", "special"])
    numeric = [k for k in range(1, len(ls)) if ls[k].split(delim) and
               all(core.is_number(x) for x in ls[k].split(delim) if x.strip())]
    k = rng.randrange(1, len(ls))
    if kind in ("number", "small", "last", "reformat", "sign", "special") and numeric:
        k = numeric[-1] if kind == "last" else rng.choice(numeric)
        w = ls[k].split(delim)
        j = len(w) - 1 if kind == "last" else rng.randrange(len(w))
        if not w[j].strip():
            return "none", ls
        x = float(w[j])
        if kind == "small":
            x = round(x * rng.choice([1.005, 1.009, 0.992, 1.012, 0.95, 1.02]), 3)
            w[j] = repr(x)
        elif kind == "special":
            w[j] = rng.choice(["nan", "nan", "inf", "-inf", "1e400", "-Infinity", "NaN"])
        elif kind == "sign":
            w[j] = repr(-x) if x else "0.5"
        elif kind == "reformat":
            w[j] = rng.choice(["%.6e" % x, "%12.5f" % x, "+" + w[j].strip() if x > 0 else w[j], repr(float(w[j]))])
        else:
            w[j] = repr(round(x + rng.choice([1, -1, 0.001, 100, 0]), 3))
        ls[k] = (delim or " ").join(w)
    elif kind == "drop":
        del ls[rng.choice([k, len(ls) - 1])]
    elif kind == "append":
        ls.append(rng.choice(["1 2 3", "0", ls[-1], "", "x"]))
    elif kind == "text":
        ls[k] = ls[k] + rng.choice([" x", "!", "0"])
    elif kind == "case":
        ls[k] = ls[k].swapcase()
    elif kind == "swap":
        j = rng.randrange(1, len(ls))
        ls[k], ls[j] = ls[j], ls[k]
    return kind, ls


def p15(ctx):
    nappy = core.nappy()
    recs, out = core.tlc("CompareMC", env={"DEEP": "1" if ctx.thorough else "0"})
    ctx.tlc_stats(out)
    rng = ctx.sub("p15")
    b = Batch(ctx, "CompareTrace", chunk=600)
    tmp = ctx.newdir()
    n = 0
    while n < ctx.n(700, 7000):
        sh = na.shape(rng, rng.choice(na.FFIS))
        if rng.random() < 0.03:
            sh = na.enlarge(rng, sh)
        d = tame(rng, na.dataset(rng, sh))
        delims = [rng.choice([None, None, ",", "\t", ";"]) for _ in range(2)]
        files = []
        for j in range(2):
            p = os.path.join(tmp, rng.choice(["a", "b", "data.1"]) + "%d.na" % j)
            call(na.write, nappy, na.fresh(d), p, delimiter=delims[j] or rng.choice(["    ", " "]),
                 float_format=rng.choice(["%.10g", "%.10g", "%.3f", "%.17g", "%.8e"]))
            files.append((p, core.lines_of(core.read_text(p))))
        what = "equal"
        if rng.random() < 0.75:
            p, ls = files[1]
            nh = int(ls[0].split(delims[1])[0])
            what, ls = perturb(rng, ls, delims[1], nh)
            if what == "special" and rng.random() < 0.4:              # in both files
                k = next(i for i, x in enumerate(files[1][1] + [None]) if i == len(ls) or x != ls[i])
                if k < len(files[0][1]):
                    w = files[0][1][k].split(delims[0])
                    w[rng.randrange(len(w))] = rng.choice(["-inf", "inf", "nan", "5"])
                    files[0][1][k] = (delims[0] or " ").join(w)
            if rng.random() < 0.15:
                w2, ls = perturb(rng, ls, delims[1], nh)
                what += "+" + w2
            files[1] = (p, ls)
        if rng.random() < 0.5:
            files.reverse()
            delims.reverse()
        f = [cfile(files[j][1], delims[j]) for j in range(2)]
        o = {"header": rng.random() < 0.75, "body": rng.random() < 0.75, "clever": rng.random() < 0.75, "approx": rng.random() < 0.3}
        if o["approx"]:
            o["clever"] = True
            if risky(*f):
                continue
        kw = {}
        for key, name in (("header", "header"), ("body", "body"), ("clever", "number_clever"), ("approx", "approx_equal")):
            default = key != "approx"
            if o[key] != default or rng.random() < 0.5:
                kw[name] = o[key]
        for j in range(2):
            na.put(files[j][0], files[j][1])
            if delims[j]:
                kw["delimiter_%d" % (j + 1)] = delims[j]
        before = core.tree(tmp)
        got, err = call(nappy.compareNA, files[0][0], files[1][0], **kw)
        info = {"what": "comparison after '%s'" % what, "options": kw, "file 1": files[0][1], "file 2": files[1][1], "error": repr(err)}
        if core.tree(tmp) != before:
            ctx.violation("comparing changed the files", info)
        verdict = "error" if err else {True: "same", False: "different"}.get(got, repr(got))
        b.add({"f": f[0], "g": f[1], "o": o, "verdict": verdict}, info)
        ctx.sample({"what": what, "options": kw, "verdict": verdict})
        n += 1
        for p, _ in files:
            os.unlink(p)
    v = b.run()
    ctx.coverage["pairs_same"] = sum(1 for x in v.values() if x["same"])
    ctx.coverage["pairs_different"] = sum(1 for x in v.values() if not x["same"])
    b.report(v)
    commands(ctx, nappy, rng, tmp)


def reported(fn, *args, **kw):
    """What a call reports on the standard output."""
    import contextlib
    import io
    text = io.StringIO()

    def do():
        with contextlib.redirect_stdout(text):
            return fn(*args, **kw)
    _, err = call(do)
    return text.getvalue().split("\n"), "" if err is None or isinstance(err, SystemExit) else repr(err)


def commands(ctx, nappy, rng, tmp):
    """The comparison command reports what the comparison it means reports (spec/CLI.tla)."""
    import nappy.utils.compare_na as m
    cases = []
    for k in range(ctx.n(150, 1500)):
        d = tame(rng, na.dataset(rng, na.shape(rng, rng.choice(na.FFIS))))
        delims = [rng.choice([None, None, ",", ";"]) for _ in range(2)]
        names = []
        for j in range(2):
            p = os.path.join(tmp, "c%d_%d.na" % (k, j))
            call(na.write, nappy, na.fresh(d), p, delimiter=delims[j] or "    ", float_format=rng.choice(["%.10g", "%.3f", "%.8e"]))
            ls = core.lines_of(core.read_text(p))
            if j and rng.random() < 0.7:
                _, ls = perturb(rng, ls, delims[1], int(ls[0].split(delims[1])[0]))
            names.append(na.put(p, ls))
        pool = [["-h"], ["--header-only"], ["-b"], ["--body-only"], ["-n"], ["--number-strict"], ["-a"], ["--approx-equal"], ["-na"], ["-x"], ["--foo"]]
        words = rng.sample(pool[:-2] if rng.random() < 0.9 else pool, rng.choice([0, 0, 1, 1, 2, 3]))
        for j in range(2):
            if delims[j] and rng.random() < 0.8:
                words.append(rng.choice([["-%d" % (j + 1), delims[j]], ["-%d%s" % (j + 1, delims[j])],
                                         ["--delimiter-%d=%s" % (j + 1, delims[j])], ["--delimiter-%d" % (j + 1), delims[j]]]))
        rng.shuffle(words)
        argv = [w for ws in words for w in ws] + rng.choice([[], [], [], ["--"]]) + rng.choice([names] * 8 + [names[:1], names + names[:1]])
        cases.append({"cmd": "compare", "argv": argv})
    b = Batch(ctx, "CLITrace", chunk=500)
    for cs in cases:
        b.add(dict(cs, phase="export"), {})
    meant = b.run()
    b = Batch(ctx, "CLITrace", chunk=500)
    for k, cs in enumerate(cases):
        x = meant["c%d" % k]
        kw = {}
        for a, kind, vs in x["args"] if not x["why"] else []:
            kw[a] = {"text": lambda: vs[0], "true": lambda: True, "false": lambda: False}[kind]()
        text, err = reported(m.main, cs["argv"])
        want, werr = (["refused"], "") if x["why"] else reported(nappy.compareNA, *x["rest"], **kw)
        b.add(dict(cs, phase="judge", out={"text": text + [err], "compared": any("Comparing" in t for t in text)}, call={"text": want + [werr]}),
              {"what": "compare %s" % " ".join(map(repr, cs["argv"])), "reports": text, "error": err, "should report": want})
        ctx.count("comparison_commands")
    b.report()
