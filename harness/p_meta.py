"""P16: metadata queries (spec/Meta.tla)."""
import os
import re

from . import core, na
from .core import Batch, call, flat

HEADER = ["getNumHeaderLines", "getFFI", "getOriginator", "getOrganisation", "getOrg", "getSource", "getMission",
          "getVolumes", "getFileDates", "getNormalComments", "getSpecialComments"]
ITEMS = ["FFI", "ONAME", "ORG", "SNAME", "MNAME", "DATE", "RDATE", "NV", "VSCAL", "VMISS", "VNAME", "XNAME",
         "SCOM", "NCOM", "NSCOML", "NNCOML", "NLHEAD", "NIV"]

NAMES = ["temp (K)", "u (m s-1) east", "(K) temp", "a (b) (c)", "a (b (c))", "a ()", "a ( )", "a (()", "f(x)(y",
         "no units", ")(", "x )y( z (w) ", "p [hPa]", "p [hPa] (raw)", "[a][b]", "((K))", "a (b)) c", "q(1)",
         "time (days since 2000-01-01 00:00:00)", "a  (b)  c", "(a)", "()", "( a ) b", "x<K>", "<<K>", "m{s}(K)", "a(b)c(d"]


def p16(ctx):
    nappy = core.nappy()
    rng = ctx.sub("p16")
    b = Batch(ctx, "Meta")
    tmp = ctx.newdir()
    for k in range(ctx.n(1100, 8000)):
        ffi = na.FFIS[k % len(na.FFIS)]
        sh = na.shape(rng, ffi)
        d = na.dataset(rng, sh)
        for key in ("XNAME", "VNAME", "ANAME"):
            for j in range(len(d.get(key, []))):
                if rng.random() < 0.8:
                    d[key][j] = rng.choice(NAMES).strip()
                    if rng.random() < 0.3:
                        d[key][j] += " " + rng.choice(NAMES).strip()
        lines = na.layout(rng, d, {"wrap": "random"})
        skip = rng.choice([0, 0, 2])
        path = na.put(os.path.join(tmp, "f.na"), ["# x"] * skip + lines)
        lines = ["# x"] * skip + lines
        rule = rng.choice(["default", "default", "pattern", "callback"])
        case = {"skip": skip, "lines": [core.line_rec(x) for x in lines], "rule": "brackets", "lb": "(", "rb": ")",
                "table": {}}
        kw = {}
        if rule == "callback":
            every = d["XNAME"] + d["VNAME"] + d.get("ANAME", [])
            table = {x: (" <%s> " % x[::-1], rng.choice([None, "u", x[:1], "", " "])) for x in every}
            kw["var_and_units_callback"] = lambda item: table[item]
            case.update(rule="callback", table={x: [t[0], t[1] if t[1] is not None else "none"] for x, t in table.items()})
        h, err = call(nappy.openNAFile, path, ignore_header_lines=skip, **kw)
        info = {"what": "metadata query", "file": "\n".join(lines), "rule": rule}
        if err:
            ctx.violation("cannot open: %r" % err, info)
            continue
        if rule == "pattern":
            lb, rb = rng.choice([("[", "]"), ("<", ">"), ("(", ")")])
            h.var_and_units_pattern = re.compile(r"^\s*(.*)%s(.+?)%s(.*)\s*$" % (re.escape(lb), re.escape(rb)))
            case.update(lb=lb, rb=rb)
        if rng.random() < 0.5:
            call(h.readData)
        qs = []
        info["answers"] = answers = []

        def ask(q, fn, *args, k=0, f=""):
            got, err = call(fn, *args)
            a = ["error: %r" % err] if err else flat(got)
            qs.append({"q": q, "k": k, "f": f, "a": a})
            answers.append((q, k or f, a))
        todo = []
        na_ = d.get("NAUXV", 0) if ffi != 1001 else 0
        nc = d.get("NAUXC", 0) if ffi == 2160 else 0
        for j in range(d["NV"]):
            todo += [("getVariable", j), ("getMissingValue", j), ("getScaleFactor", j)]
        for j in range(na_):
            todo += [("getAuxVariable", j), ("getAuxMissingValue", j)]
            if j < na_ - nc:
                todo += [("getAuxScaleFactor", j)]
        for j in range(d["NIV"]):
            todo += [("getIndependentVariable", j)]
        todo += [("getVariables", None), ("getAuxVariables", None), ("getIndependentVariables", None)]
        todo += [(q, None) for q in HEADER] + [("item", f) for f in ITEMS]
        rng.shuffle(todo)
        for q, j in todo:
            if q == "item":
                ask("item", h.__getitem__, j, f=j)
            elif j is None:
                ask(q, getattr(h, q))
            else:
                ask(q, getattr(h, q), j, k=j + 1)
        h.close()
        case["queries"] = qs
        b.add(case, info)
        ctx.sample({"names": d["VNAME"], "rule": rule, "answers": answers[:8]})
    b.report()
