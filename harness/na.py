"""NASA Ames data sets and files: generators, projections, layouts, nappy calls."""
import copy
import os

from . import core
from .core import canon, flat

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
DEFAULT_FMT = "%.10g"
# fields of NAFormat that are presented with the number format of the file
FMT_FIELDS = ("X", "A", "V", "VMISS", "AMISS")

WORDS = ["Pressure", "temperature", "O3", "ozone mixing ratio", "u-wind", "Lat", "flag_1",
         "NO2/NO", "CH4*10", "50%", "a,b", "#1", "x'", "é-flux", "T^2", "1.5", "data: raw",
         "alpha;beta", "Wind  speed", "=", "\\n", "level 10", "& more", "-9.9", "{x} y", "(", "%s", "%d",
         "form\x0cfeed", "v\x0btab", "file\x1csep", "next\x85line", "line\u2028sep", "no\u00a0break", "\u03bcm", "\\",
         "a\tb", "end}", "Wind speed of 10 m above the ground, averaged over ten minutes, by the second instrument"]
UNITS = ["K", "hPa", "m s-1", "ppbv", "degrees_north", "1", "kg/m^2", "%", "days since 2001-03-05"]


def text(rng, what="word"):
    """A single line of text without surrounding blanks or trailing {annotation}."""
    if what == "comment":
        n = rng.choice([0, 1, 1, 2, 4])
        s = " ".join(rng.choice(WORDS) for _ in range(n))
        return s.strip() + rng.choice(["", "", " {note}", ",", " 1 2 3", "'"]) if s else ""
    s = rng.choice(WORDS)
    k = rng.random()
    if k < 0.5:
        s += " (%s)" % rng.choice(UNITS)
    elif k < 0.6:
        s += " " + rng.choice(WORDS)
    return s.strip()


def label(rng, usual):
    """A character value: any text of a single line that is not blank."""
    if rng.random() < 0.7:
        return rng.choice(usual)
    return rng.choice(["Smith, J.", "a,b,", ",", "x ,", "'quoted'", '"', "1 2 3", "1e5", "St. John's", "Orl\u00e9ans", "a\tb", "a  b",
                       "sep\x1carated", "form\x0cfeed", "\\n", "%s", "{a", "b}", "0", "nan", "#", "-,-,"])


def number(rng, kind=None):
    """A number that the default format writes without loss."""
    kind = kind or rng.choice("iiiddddez")
    if kind == "i":
        return rng.randint(-999, 9999)
    if kind == "d":
        return round(rng.uniform(-500, 500), rng.randint(1, 5))
    if kind == "e":
        return float("%.9g" % (rng.uniform(-10, 10) * 10.0 ** rng.randint(-30, 30)))
    return rng.choice([0, 0.0, 1, -1, 1e-5, 123456789, 1234567890.0, -0.5, 9.999999999e9, 1e15, 1e16, 7e22])


def missing(rng):
    return rng.choice([-9999, -999.99, 1e20, -1e20, 9.9e36, 999999, -9999.9, 99, -1e-30])


def scale(rng):
    return rng.choice([1, 1.0, 1.0, 0.1, 10, 0.01, 1e-3, 2.5, 1e6, -1.0, 1.0 / 3])


def shape(rng, ffi, big=False):
    """A random structure for an index."""
    niv = ffi // 1000
    top = 5 if big else 3
    s = {"ffi": ffi, "nv": rng.choice([1, 1, 2, 3, top]), "marks": rng.choice([0, 1, 1, 2, 3, top + 1]),
         "nscom": rng.choice([0, 0, 1, 2, 4]), "nncom": rng.choice([0, 0, 1, 2, 5]),
         "naux": rng.choice([0, 0, 1, 2, 3]), "nauxc": 0, "nvpm": rng.choice([1, 2, 3]), "dims": [], "rows": []}
    if ffi in (2010, 3010, 4010):
        s["dims"] = [rng.choice([1, 1, 2, 3, top, rng.choice([top, 7]) if niv == 2 else top])
                     for _ in range(niv - 1)]                                    # slowest first
        s["nxdef"] = [rng.choice([1, d, d, rng.randint(1, d)]) for d in s["dims"]]
    if ffi in (2110, 2160):
        s["naux"] += 1
    if ffi == 2310:
        s["naux"] += 3
    if ffi == 2160:
        s["naux"] += rng.choice([0, 0, 1, 2])
        s["nauxc"] = rng.choice([c for c in (0, 0, 1, 2, 3, 4) if c < s["naux"]])
    if ffi in (2110, 2160, 2310):
        s["rows"] = [rng.choice([0, 1, 2, 3, top]) for _ in range(s["marks"])]
    return s


def enlarge(rng, sh, most=130):
    """The same kind of structure, with one of its numbers far larger."""
    ffi, n = sh["ffi"], rng.choice([11, 30, 64, 101, most])
    what = rng.choice(["marks", "marks", "marks", "nv", "comments", "aux", "dim"])
    if what == "dim" and sh["dims"]:
        k = rng.randrange(len(sh["dims"]))
        sh["nxdef"][k] = rng.choice([1, n, n, 11])
        sh["dims"][k] = n
        sh["marks"] = min(sh["marks"], 2)
    elif what == "dim" and sh["rows"]:
        sh["rows"][rng.randrange(len(sh["rows"]))] = n
    elif what == "nv":
        sh["nv"] = min(n, 30)
    elif what == "comments":
        sh[rng.choice(["nscom", "nncom"])] = n
    elif what == "aux" and ffi != 1001:
        sh["naux"] = min(n, 30)
    else:
        sh["marks"] = n
        sh["nv"] = min(sh["nv"], 2)
        if ffi in (2110, 2160, 2310):
            sh["rows"] = [rng.choice([0, 1, 1, 2]) for _ in range(n)]
        sh["dims"] = [min(d, 2) for d in sh["dims"]]
        if sh["dims"]:
            sh["nxdef"] = [min(a, b) for a, b in zip(sh["nxdef"], sh["dims"])]
    return sh


def nonempty(sh):
    """The same structure with at least one mark."""
    sh["marks"] = max(1, sh["marks"])
    if sh["rows"] == []:
        sh["rows"] = [2] * sh["marks"]
    return sh


def nested(rng, dims, gen):
    if not dims:
        return gen()
    return [nested(rng, dims[1:], gen) for _ in range(dims[0])]


def dataset(rng, sh):
    """A complete dictionary with the structure sh."""
    ffi = sh["ffi"]
    niv, nv, marks = ffi // 1000, sh["nv"], sh["marks"]
    d = {"FFI": ffi, "NLHEAD": rng.randint(0, 99), "NIV": niv,
         "ONAME": rng.choice(["", "Smith, John", text(rng)]), "ORG": rng.choice(["CEDA (RAL)", text(rng)]),
         "SNAME": rng.choice([text(rng)] * 5 + ["\"GPS' sonde", "'t Harde", "O'", "'", "\"", "the 'big' one", "\"A' to 'B'"]),
         "MNAME": rng.choice(["Mission 7", text(rng)]),
         "IVOL": rng.randint(1, 3), "NVOL": rng.randint(3, 12),
         "DATE": [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)],
         "RDATE": [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)],
         "NV": nv, "VSCAL": [scale(rng) for _ in range(nv)], "VMISS": [missing(rng) for _ in range(nv)],
         "VNAME": [text(rng) for _ in range(nv)],
         "XNAME": [text(rng) for _ in range(niv)],
         "NSCOML": sh["nscom"], "SCOM": [text(rng, "comment") for _ in range(sh["nscom"])],
         "NNCOML": sh["nncom"], "NCOM": [text(rng, "comment") for _ in range(sh["nncom"])]}
    ndx = 1 if ffi in (2160, 2310) else niv
    d["DX"] = [rng.choice([0, 1, 0.5, -2, 1e-3, 10.0, 0.0078125, 1234567.5, -1e-7, 86400]) for _ in range(ndx)]
    val = lambda: number(rng)
    if ffi != 1001:
        na, nc = sh["naux"], sh["nauxc"]
        d["NAUXV"] = na
        d["A"] = []
        d["ASCAL"] = [scale(rng) for _ in range(na - nc)]
        d["AMISS"] = [missing(rng) for _ in range(na - nc)]
        d["ANAME"] = [text(rng) for _ in range(na)]
        d["A"] = [[val() for _ in range(marks)] for _ in range(na - nc)]
        if ffi == 2160:
            d["NAUXC"] = nc
            d["LENA"] = [None] * (na - nc) + rng.sample([4, 10, 20, 7, 35], nc)
            d["AMISS"] += [rng.choice(["ZZZ", "no data", "9999", "none,", "-,-"]) for _ in range(nc)]
            d["A"] += [[label(rng, ["ab", "x y", "12.5", "Station (K)", "-"]) for _ in range(marks)] for _ in range(nc)]
        if na == 0:
            for k in ("ASCAL", "AMISS", "ANAME", "A"):
                d[k] = []
    if niv == 1:
        d["X"] = axis(rng, marks)
        n = marks * (sh["nvpm"] if ffi == 1020 else 1)
        d["V"] = [[val() for _ in range(n)] for _ in range(nv)]
        if ffi == 1020:
            d["NVPM"] = sh["nvpm"]
            d["DX"] = [rng.choice([1, 0.5, -2, 0.25, 0.0078125, 1234567.5, -1e-7])]
    elif ffi in (2010, 3010, 4010):
        d["NX"] = list(sh["dims"])
        d["NXDEF"] = list(sh["nxdef"])
        d["X"] = [axis(rng, marks)] + [axis(rng, k) for k in sh["nxdef"]]
        d["V"] = [nested(rng, [marks] + sh["dims"], val) for _ in range(nv)]
    else:
        rows = sh["rows"]
        if ffi == 2160:
            d["LENX"] = rng.choice([5, 20])
            xs = [label(rng, ["Reading", "East Anglia", "st-12", "51.5 N", "X {b} y"]) for _ in range(marks)]
        else:
            xs = axis(rng, marks)
        d["NX"] = list(rows)
        d["A"][0] = list(rows)
        if ffi == 2310:
            d["A"][1] = [number(rng, "d") for _ in range(marks)]
            d["A"][2] = [rng.choice([1, 0.5, -0.1, 25]) for _ in range(marks)]
            d["X"] = [[xs[m], [d["A"][1][m]]] for m in range(marks)]
        else:
            d["X"] = [[xs[m], axis(rng, rows[m])] for m in range(marks)]
        d["V"] = [[[val() for _ in range(rows[m])] for m in range(marks)] for _ in range(nv)]
    # some of the values are missing
    for n in range(nv):
        poke_missing(rng, d["V"][n], d["VMISS"][n])
    return d


def poke_missing(rng, arr, miss):
    for k, v in enumerate(arr):
        if isinstance(v, list):
            poke_missing(rng, v, miss)
        elif rng.random() < 0.12:
            arr[k] = miss


def numeric(v):
    return all(numeric(x) for x in v) if isinstance(v, (list, tuple)) else isinstance(v, (int, float))


def as_arrays(rng, d):
    """The same data set with some of its lists as arrays or tuples."""
    import numpy as np

    def dress(v):
        if rng.random() < 0.4 or not isinstance(v, list):
            return v
        if numeric(v):
            try:
                a = np.array(v)
                if a.dtype.kind in "if":
                    return a if rng.random() < 0.7 else tuple(v)
            except ValueError:                           # ragged
                pass
        return tuple(v)
    d = dict(d)
    for k in ("V", "A"):
        if k in d:
            d[k] = [dress(v) for v in d[k]] if rng.random() < 0.8 or d["FFI"] == 2160 else dress(d[k])
    ffi = d["FFI"]
    if ffi in (1001, 1010, 1020):
        d["X"] = dress(d["X"])
    elif ffi in (2010, 3010, 4010):
        d["X"] = [dress(x) for x in d["X"]]
    for k in ("VSCAL", "VMISS", "ASCAL", "AMISS", "VNAME", "ANAME", "SCOM", "NCOM", "DATE", "RDATE"):
        if k in d and rng.random() < 0.3:
            d[k] = tuple(d[k])
    return d


def axis(rng, n):
    start = rng.choice([0, 1, 10.5, -90, 1e5, 0.001])
    step = rng.choice([1, 0.5, -2.5, 100, 0.125])
    xs = [start + k * step for k in range(n)]
    if rng.random() < 0.3:
        xs = [x + rng.choice([0, 0.01]) for x in xs]
    return [float("%.9g" % x) if rng.random() < 0.8 else x for x in xs]


# ---------------------------------------------------------------- projection
def project(d, fmt=None, header_lines=False):
    """A dictionary as NAFormat presents it: field -> flat value.

    Values are rounded as the number format `fmt` writes them.
    """
    ffi = int(d["FFI"])
    out = {}

    def put(name, v, f=None):
        out[name] = flat(v, f)
    put("FFI", ffi)
    for k in ("ONAME", "ORG", "SNAME", "MNAME", "NV", "XNAME", "VNAME", "SCOM", "NCOM",
              "NSCOML", "NNCOML", "DATE", "RDATE", "VSCAL", "NIV"):
        put(k, d[k])
    out["VOLS"] = [canon(d["IVOL"]), canon(d["NVOL"])]
    put("VMISS", d["VMISS"], fmt)
    put("V", d["V"], fmt)
    put("DX", d["DX"][:1] if ffi in (2160, 2310) else d["DX"])
    if ffi in (2110, 2160, 2310):
        out["X"] = ["["]
        for x in d["X"]:
            out["X"] += ["["] + [canon(x[0], None if ffi == 2160 else fmt)] + flat(x[1], fmt) + ["]"]
        out["X"] += ["]"]
    else:
        put("X", d["X"], fmt)
    out["NX"] = flat(d["NX"]) if ffi // 1000 > 1 else ["none"]
    out["NXDEF"] = flat(d["NXDEF"]) if ffi in (2010, 3010, 4010) else ["none"]
    out["NVPM"] = flat(d["NVPM"]) if ffi == 1020 else ["none"]
    out["LENX"] = flat(d["LENX"]) if ffi == 2160 else ["none"]
    na = d.get("NAUXV") if ffi != 1001 else None
    out["NAUXV"] = flat(na)
    out["NAUXC"] = flat(d["NAUXC"]) if ffi == 2160 else ["none"]
    nc = d["NAUXC"] if ffi == 2160 else 0
    if na:
        put("ASCAL", d["ASCAL"])
        put("ANAME", d["ANAME"])
        out["AMISS"] = ["["] + flat(d["AMISS"][:na - nc], fmt)[1:-1] + flat(d["AMISS"][na - nc:])[1:-1] + ["]"]
        out["A"] = ["["]
        for a in range(na):
            out["A"] += flat(d["A"][a], fmt if a < na - nc else None)
        out["A"] += ["]"]
    else:
        for k in ("ASCAL", "ANAME", "AMISS", "A"):
            out[k] = ["none"]
    out["LENA"] = flat(d["LENA"]) if ffi == 2160 and na else ["none"]
    if header_lines:
        put("NLHEAD", d["NLHEAD"])
    return out


# ---------------------------------------------------------------- nappy calls
def write(nappy, d, path, **kw):
    f = nappy.openNAFile(path, mode="w", na_dict=d)
    f.write(**kw)
    f.close()


def read(nappy, path, skip=0):
    """The dictionary nappy reads from a file."""
    f = nappy.openNAFile(path, ignore_header_lines=skip)
    try:
        f.readData()
        return f.getNADict()
    finally:
        f.close()


# ---------------------------------------------------------------- layouts
def render(rng, d, style):
    """A legal layout of a data set, as lines of a file (independent of nappy).

    style: wrap   how lists are spread over lines: "one" line each, "each" item on its
                  own line, or at "random" places
           space  whether white space varies
           notes  whether {annotations} trail the numeric header lines
    """
    ffi = int(d["FFI"])
    niv = ffi // 1000
    out = []

    def lit(v):
        if isinstance(v, str):
            return v
        base = repr(v) if isinstance(v, float) else str(v)
        if style.get("literals") and rng.random() < 0.3:
            f = float(v)
            alts = [base, "%r" % f, "%.17e" % f, ("+" if f > 0 else "") + base, base.upper()]
            base = rng.choice([a for a in alts if float(a) == f])
        return base

    def sep():
        return rng.choice([" ", "  ", "\t", "    ", " \t "]) if style.get("space") else " "

    def dress(s, header=True, ints=False):
        if style.get("space"):
            s = rng.choice(["", " ", "\t"]) + s + rng.choice(["", " ", "  \t"])
        if header and style.get("notes") and s.strip() and rng.random() < 0.6:
            s += rng.choice([" {note}", "{N}", "   {NX(1) K^2}  ", "\t{a, b: 1 2}"])
        out.append(s)

    def one(vals, ints=True):
        dress(sep().join(str(v) if ints else lit(v) for v in vals))

    def many(vals, header):
        vals = list(vals)
        if not vals:
            return
        k = 0
        while k < len(vals):
            if style["wrap"] == "one":
                step = len(vals)
            elif style["wrap"] == "each":
                step = 1
            else:
                step = rng.choice([1, 2, 3, len(vals)])
            dress(sep().join(lit(v) for v in vals[k:k + step]), header)
            k += step

    def texts(ts, header=True):
        for t in ts:
            s = t
            if style.get("space"):
                s = rng.choice(["", "  "]) + s + rng.choice(["", " "])
            if header == "name" and style.get("notes") and t and rng.random() < 0.3:
                s += " {a name}"
            out.append(s)

    one([d["_NLHEAD"], ffi])
    texts([d["ONAME"], d["ORG"], d["SNAME"], d["MNAME"]])
    one([d["IVOL"], d["NVOL"]])
    one(list(d["DATE"]) + list(d["RDATE"]))
    one(list(d["DX"])[::-1], ints=False)
    if ffi in (2010, 3010, 4010):
        one(list(d["NX"])[::-1])
        one(list(d["NXDEF"])[::-1])
        for k in range(niv - 1, 0, -1):
            many(d["X"][k], True)
    if ffi == 1020:
        one([d["NVPM"]])
    if ffi == 2160:
        one([d["LENX"]])
    texts(list(d["XNAME"])[::-1], "name")
    one([d["NV"]])
    many(d["VSCAL"], True)
    many(d["VMISS"], True)
    texts(d["VNAME"], "name")
    nc = 0
    na = 0
    if ffi != 1001:
        na = d["NAUXV"]
        one([na])
        if ffi == 2160:
            nc = d["NAUXC"]
            one([nc])
        if na:
            many(d["ASCAL"], True)
            many(d["AMISS"][:na - nc], True)
            if nc:
                many([str(int(x)) for x in d["LENA"][na - nc:]], True)
                texts(d["AMISS"][na - nc:], "name")
            texts(d["ANAME"], "name")
    one([d["NSCOML"]])
    texts(d["SCOM"])
    one([d["NNCOML"]])
    texts(d["NCOM"])
    nhead = len(out)
    A = d.get("A") or []
    for m in range(len(d["X"][0] if ffi in (2010, 3010, 4010) else d["X"])):
        a = [A[k][m] for k in range(na - nc)]
        if ffi == 1001:
            many([d["X"][m]] + [v[m] for v in d["V"]], False)
        elif ffi == 1010:
            many([d["X"][m]] + a, False)
            many([v[m] for v in d["V"]], False)
        elif ffi == 1020:
            many([d["X"][m]] + a, False)
            n = d["NVPM"]
            many([x for v in d["V"] for x in v[m * n:(m + 1) * n]], False)
        elif ffi in (2010, 3010, 4010):
            many([d["X"][0][m]] + a, False)
            for v in d["V"]:
                many(leaves(v[m]), False)
        elif ffi == 2110:
            many([d["X"][m][0]] + a, False)
            for k in range(d["NX"][m]):
                many([d["X"][m][1][k]] + [v[m][k] for v in d["V"]], False)
        elif ffi == 2160:
            dress(d["X"][m][0], False)
            many(a, False)
            for k in range(nc):
                dress(A[na - nc + k][m], False)
            for k in range(d["NX"][m]):
                many([d["X"][m][1][k]] + [v[m][k] for v in d["V"]], False)
        elif ffi == 2310:
            many([d["X"][m][0]] + a, False)
            many([x for v in d["V"] for x in v[m]], False)
    return out, nhead


def leaves(v):
    if not isinstance(v, (list, tuple)):
        return [v]
    return [x for w in v for x in leaves(w)]


def layout(rng, d, style):
    """The lines of a legal file for d, with its true number of header lines."""
    d = dict(d, _NLHEAD=0)
    state = rng.getstate()
    out, nhead = render(rng, d, style)
    rng.setstate(state)
    d["_NLHEAD"] = nhead
    out, nhead2 = render(rng, d, style)
    assert nhead == nhead2
    return out


def put(path, lines, end="\n", final=True):
    with open(path, "w", encoding="utf-8", newline="") as fh:
        fh.write(end.join(lines) + (end if lines and (final or not lines[-1]) else ""))
    return path


def fresh(d):
    return copy.deepcopy(d)
