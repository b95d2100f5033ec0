"""P23: the commands do what the library calls their options mean do (spec/CLI.tla)."""
import concurrent.futures
import os
import shutil
import subprocess
import sys

from . import child, core, na, nc, p_na2nc
from .core import Batch
from .p_nc import attributes, gridded

KINDS = {"text": lambda v: v[0], "list": list, "int": lambda v: int(v[0]), "true": lambda v: True, "false": lambda v: False,
         "pairs": lambda v: dict(zip(v[::2], v[1::2])), "tuples": lambda v: [[a, b] for a, b in zip(v[::2], v[1::2])]}
STRANGE = ["-x", "--foo", "--ffi", "-q", "--names", "-h", "--annotated=1", "-v", "-a", "-d", "-d,", "-z9", "--mode", "-p", "--no-such=3"]


def spell(rng, o, val):
    """One of the ways to give an option and its value."""
    if o.startswith("--"):
        return [o + "=" + val] if rng.random() < 0.5 else [o, val]
    return [o + val] if val and rng.random() < 0.2 else [o, val]


def nc_args(rng, cmd, p):
    ids = [v["id"] for v in p["vars"]]
    some = lambda: ",".join(rng.sample(ids, rng.randint(1, len(ids))))
    words = []
    fit = {1: ["1001"], 2: ["2010", "2110", "2310"], 3: ["3010"], 4: ["4010"]}[max(len(v["dims"]) for v in p["vars"])]
    pool = [("-v", some), ("-e", lambda: rng.choice([rng.choice(ids), some()])), ("-f", lambda: rng.choice(["%s", "%.3f", "%12.5e", "%g"])),
            ("-l", lambda: rng.choice(["1", "2", "3", "5", "1000", "x", "2.5"])),
            ("--ffi", lambda: rng.choice(fit) if rng.random() < 0.6 else rng.choice(["1001", "2010", "2110", "2310", "1010", "1020", "3010", "4010", "abc"])),
            ("--overwrite-metadata", lambda: rng.choice(["MNAME,my mission", "ONAME,me,ORG,here and there", "SNAME,x,NCOM,a note",
                                                         "DATE,2001 2 3,RDATE,2002 3 4", "MNAME", "MNAME,a,ORG", "FFI,2010",
                                                         "SCOM,one,SNAME,"]))]
    if cmd == "nc2na":
        pool.append(("-d", lambda: rng.choice([",", "\t", "  ", ";"])))
    for o, val in rng.sample(pool, rng.choice([0, 0, 1, 1, 2, 3, 4])):
        words.append(spell(rng, o, val()))
        if rng.random() < 0.05:
            words.append(spell(rng, o, val()))
    for o in ("--names-only", "--no-header", "--annotated"):
        if rng.random() < 0.2:
            words.append([o])
    if rng.random() < 0.75:
        words.append(spell(rng, "-o", rng.choice(["out.na", "out.csv", "o.u.t", "d/out.na", "out"])))
    return words


def na_args(rng, d):
    names = ["v0", "a0", "axis_0", "temperature", "ozone", "none"]
    pool = [("-g", lambda: rng.choice(["a,b", "title,mine,x,3", "history,h,comment,c", "odd", "a,b,c", "n, 5 ", "a,1,b,2,c,3", "x,1,y,2"])),
            ("-r", lambda: rng.choice(["v0,new", "%s,n1,%s,n2" % tuple(rng.sample(names, 2)), "v0", "v0,x,v1"])),
            ("-t", lambda: rng.choice(["hours since 2003-04-30 10:00:00", "days since 2000-01-01"])),
            ("-m", lambda: rng.choice(["w", "w", "a", "x"]))]
    words = [spell(rng, o, val()) for o, val in rng.sample(pool, rng.choice([0, 1, 1, 2, 3, 4]))]
    if rng.random() < 0.7:
        words.append(["-n"])
    if rng.random() < 0.6:
        words.append(spell(rng, "-o", rng.choice(["out.nc", "o.u.t", "d/out.nc", "old.nc"])))
    return words


def a_case(ctx, rng):
    """A command, its arguments and two equal directories to run it and the library call in."""
    nappy = core.nappy()
    d = ctx.newdir()
    a = os.path.join(d, "a")
    os.makedirs(os.path.join(a, "d"))
    cmd = rng.choice(["nc2na", "nc2na", "nc2csv", "na2nc", "na2nc"])
    if cmd == "na2nc":
        src = rng.choice(["in.na", "d/in.na", "a.b.na"])
        r = rng.random()
        s = p_na2nc.timed(rng) if r < 0.4 else p_na2nc.plain(rng) if r < 0.7 else p_na2nc.source(rng)
        na.put(os.path.join(a, src), na.layout(rng, s, {"wrap": "one"}))
        other = p_na2nc.plain(rng, 1001)
        other["VNAME"] = ["old%d (K)" % j for j in range(other["NV"])]
        other["XNAME"] = ["old axis (m)"]
        na.put(os.path.join(d, "old.na"), na.layout(rng, other, {"wrap": "one"}))
        core.call(nappy.convertNAToNC, os.path.join(d, "old.na"), os.path.join(a, "old.nc"))
        words = na_args(rng, s)
    else:
        src = rng.choice(["in.nc", "d/in.nc", "a.b.nc"])
        p = gridded(rng, naxes=rng.choice([1, 1, 2, 3]))
        attributes(rng, p)
        nc.write_nc(p, os.path.join(a, src))
        words = nc_args(rng, cmd, p)
    if rng.random() < 0.97:
        words.append(spell(rng, "-i", src if rng.random() < 0.97 else "missing.x"))
    if rng.random() < 0.12:
        words.append([rng.choice(STRANGE)])
    rng.shuffle(words)
    argv = [w for ws in words for w in ws]
    if rng.random() < 0.03 and argv:
        argv = argv[:-1]
    shutil.copytree(a, os.path.join(d, "b"))
    return {"dir": d, "cmd": cmd, "argv": argv, "start": child.contents(a)}


def alone(cs):
    """The command as a process of its own, the way its console script runs it."""
    a = os.path.join(cs["dir"], "a")
    code = "import sys; from nappy.script.%s import %s; sys.exit(%s())" % ((cs["cmd"],) * 3)
    env = dict(os.environ, PYTHONPATH=core.REPO)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code] + cs["argv"], cwd=a, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    text = p.stdout.decode("utf-8", "replace")
    return {"ended": "ok" if p.returncode == 0 else "failed", "why": p.stderr.decode("utf-8", "replace")[-500:],
            "shown": child.listed(text)}


def p23(ctx):
    rng = ctx.sub("p23")
    cases = [a_case(ctx, rng) for _ in range(ctx.n(700, 4000))]
    b = Batch(ctx, "CLITrace", chunk=500)
    for cs in cases:
        b.add({"phase": "export", "cmd": cs["cmd"], "argv": cs["argv"]}, {})
    calls = b.run()
    n = max(1, len(cases) // ctx.n(8, 40))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for k, cs in enumerate(cases):
            m = calls["c%d" % k]
            cs["why"], cs["fn"] = m["why"], m["call"]
            cs["kw"] = {} if m["why"] else {a: KINDS[kind](vs) for a, kind, vs in m["args"]}
            cs["alone"] = k % 7 == 0
        parts = [cases[j:j + n] for j in range(0, len(cases), n)]
        ops = lambda part: [o for cs in part for o in
                            ([] if cs["alone"] else [{"op": "command", "cmd": cs["cmd"], "argv": cs["argv"], "cwd": os.path.join(cs["dir"], "a")}])
                            + ([] if cs["why"] else [{"op": "library", "fn": cs["fn"], "kw": cs["kw"], "cwd": os.path.join(cs["dir"], "b")}])]
        done = [pool.submit(child.run, ctx, ops(part)) for part in parts]
        own = {id(cs): pool.submit(alone, cs) for cs in cases if cs["alone"]}
        done = [f.result() for f in done]
        own = {k: f.result() for k, f in own.items()}
    b = Batch(ctx, "CLITrace", chunk=500)
    for part, got in zip(parts, done):
        got = iter(got)
        for cs in part:
            # NetCDF files are read here, not in the threads: the library is not made for that
            cs["out"] = dict(own[id(cs)], files=child.contents(os.path.join(cs["dir"], "a"))) if cs["alone"] else good(next(got))
            cs["call"] = {"failed": False, "files": {}, "names": []} if cs["why"] else good(next(got))
            b.add({"phase": "judge", "cmd": cs["cmd"], "argv": cs["argv"], "start": cs["start"], "out": cs["out"], "call": cs["call"]},
                  {"what": "%s %s" % (cs["cmd"], " ".join(map(repr, cs["argv"]))), "case": cs})
            ctx.count("refused_argument_lists" if cs["why"] else "failing_calls" if cs["call"]["failed"] else "successful_calls")
            ctx.count("run_as_commands", cs["alone"])
            ctx.sample({"cmd": cs["cmd"], "argv": cs["argv"], "means": cs["kw"], "refused": cs["why"]})
            core.shutil.rmtree(cs["dir"], ignore_errors=True)
    b.report()


def good(r):
    if r["error"]:
        raise core.CheckError(r["error"])
    return r["result"]
