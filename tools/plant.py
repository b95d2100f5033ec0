"""Plants bugs: builds /verif/seeded/<id>/ from edits and tries them out on scratch copies of /repo.

    plant.py make SEEDS.py [id ...]   write seeded/<id>/ for the seeds of SEEDS.py and try each one
    plant.py try [id ...]             try the seeded changes again (demo, stable tests, check of its property)
    plant.py check [-a] [id ...]      only run the check of its property (-a: every check) on the patched copy

A seed is {"id", "property", "needs", "breaks", "edits": [(file, old, new)], "demo": python source}.
Scratch copies are made under /tmp and removed.  No check reads seeded/.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
BASE = "820cc26"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC %s -W ignore "$(dirname "$0")/demo.py"\n' % PY


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy_repo(tmp):
    dst = Path(tmp) / "repo"
    run(["cp", "-a", "/repo", str(dst)])
    run(["git", "-C", str(dst), "checkout", "-q", "--", "."])
    return dst


def stable_tests(repo, tmp):
    """The names of the stable tests that do not pass on repo."""
    work = Path(tmp) / "work"
    work.mkdir()
    run(["cp", "-a", str(repo / "tests"), str(work / "tests")])
    for f in ("pytest.ini", "pyproject.toml", "tox.ini", "setup.cfg", "conftest.py", "example_files"):
        if (repo / f).exists():
            run(["cp", "-a", str(repo / f), str(work)])
    env = dict(os.environ, PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               TZ="UTC", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", GIT_ALLOW_PROTOCOL="file", NAPPY_AUTO_UPDATE_TEST_DATA="false",
               GIT_TERMINAL_PROMPT="0")
    run(["prlimit", "--as=6000000000", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=300",
         "--continue-on-collection-errors", f"--rootdir={work}", f"--basetemp={work}/tmp", "-o", "junit_family=xunit2",
         f"--junitxml={work}/junit.xml", "tests"], cwd=work, env=env)
    out = work / "out.json"
    run([PY, "/opt/vp/results.py", str(out), f"junit:{work}/junit.xml"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(out))
    return sorted(set(base['stable']) - set(got['passed']))


def blame_ok(repo, patch):
    """Whether the patch removes a line, and only lines, of the original repository."""
    removed, bad = 0, []
    path = None
    for line in patch.split("\n"):
        if line.startswith("--- a/"):
            path = line[6:].strip()
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if line.startswith("---") or line.startswith("+++") or path is None or line.startswith("diff") or line.startswith("index"):
            continue
        if line.startswith("-"):
            b = run(["git", "-C", str(repo), "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", path]).stdout
            removed += 1
            if not b.lstrip("^").startswith(BASE):
                bad.append((path, n))
            n += 1
        elif line.startswith(" "):
            n += 1
    return removed, bad


def demo(repo, d):
    r = run(["sh", str(d / "demo.sh")], cwd=repo, timeout=300)
    return r


def check(prop, repo, **more):
    env = dict(os.environ, **more, NAPPY_REPO=str(repo), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    env["VERIF_EVIDENCE"] = str(Path(repo).parent / "evidence")
    r = run([str(VERIF / "check"), prop], env=env, timeout=900)
    return r


def one(sid, tests=True, every=False):
    d = SEEDED / sid
    meta = json.load(open(d / "meta.json"))
    res = {"id": sid, "property": meta["property"]}
    with tempfile.TemporaryDirectory(prefix="plant_") as tmp:
        repo = copy_repo(tmp)
        patch = open(d / "patch.diff", newline="").read()
        removed, bad = blame_ok(repo, patch)
        if bad or not removed:
            res["blame"] = f"removed {removed} bad {bad}"
        if tests:
            r = demo(repo, d)
            res["demo_clean"] = r.returncode
            if r.returncode:
                res["demo_clean_err"] = (r.stdout + r.stderr)[-500:]
        a = run(["git", "-C", str(repo), "apply", str(d / "patch.diff")])
        if a.returncode:
            res["apply"] = a.stderr
            return res
        if tests:
            r = demo(repo, d)
            res["demo_patched"] = r.returncode
            res["demo_says"] = (r.stdout + r.stderr).strip().split("\n")[-1][-150:]
            res["tests_broken"] = stable_tests(repo, tmp)
        props = [meta["property"]]
        if every:
            props = [p["id"] for p in map(json.loads, open(VERIF / "properties.jsonl"))]
        res["caught"] = []
        for p in props:
            r = check(p, repo)
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                res["caught"].append(p)
            elif r.returncode:
                res["broken_" + p] = (r.returncode, (r.stdout + r.stderr)[-400:])
    return res


def make(seed):
    sid = seed["id"]
    d = SEEDED / sid
    with tempfile.TemporaryDirectory(prefix="plant_") as tmp:
        repo = copy_repo(tmp)
        for f, old, new in seed["edits"]:
            p = repo / f
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            t = s.replace("\r\n", "\n")
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            t = t.replace(old, new)
            if crlf:
                t = t.replace("\n", "\r\n")
            with open(p, "w", newline="") as fh:
                fh.write(t)
        patch = subprocess.run(["git", "-C", str(repo), "diff"], capture_output=True).stdout
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / "patch.diff").write_bytes(patch)
    (d / "demo.sh").write_text(DEMO_SH)
    (d / "demo.sh").chmod(0o755)
    (d / "demo.py").write_text(seed["demo"].lstrip("\n"))
    json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
              open(d / "meta.json", "w"), indent=1)


def report(res):
    ok = (res.get("demo_clean", 0) == 0 and res.get("demo_patched", 1) != 0 and not res.get("tests_broken")
          and "blame" not in res and "apply" not in res)
    caught = res["property"] in res.get("caught", [])
    print(("COUNTS " if ok else "NOT-OK ") + ("caught " if caught else "MISSED ") + json.dumps(res), flush=True)


def main(argv):
    cmd, rest = argv[0], argv[1:]
    tests, every = True, False
    if cmd == "make":
        ns = {}
        exec(compile(open(rest[0]).read(), rest[0], "exec"), ns)
        seeds = [s for s in ns["SEEDS"] if not rest[1:] or s["id"] in rest[1:]]
        for s in seeds:
            make(s)
        ids = [s["id"] for s in seeds]
    else:
        if "-a" in rest:
            every = True
            rest.remove("-a")
        tests = cmd == "try"
        ids = rest or sorted(p.name for p in SEEDED.iterdir())
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as pool:
        for res in pool.map(lambda i: one(i, tests, every), ids):
            report(res)


if __name__ == "__main__":
    main(sys.argv[1:])
