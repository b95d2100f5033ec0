"""Writes known_findings.txt: the fix commits of /repo (and open findings, listed here)."""
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = dict(x.split(":") for x in """512a3bd:P06 59feb28:P02 4ac3388:P06 be7648f:P03 12e7d5e:P04 2acfcae:P04 a9b61fe:P01 afcf530:P03
d5300ea:P01 359c02e:P15 84c41e3:P17 ed3d773:P09 bdcd8a0:P10 6112da4:P09 a0bf0f7:P08 33d8773:P09 d3de256:P21 07e411c:P21 f809fb2:P17
c70ad4e:P18 2cd4e92:P18 be2822b:P12 5618490:P13 be8d4b4:P13 2987ce4:P06 1b41abd:P07 a38d72e:P23 08f79a0:P23 fc93f80:P24 ec3a124:P09
c7e285e:P11 8a452e7:P22 9a263b9:P22 dccd788:P17 55959ea:P17 7f15abf:P03 f42ac53:P01 be2cd82:P04 b9226e0:P03 b930bde:P15 a62a032:P07""".split())
FINDINGS = []  # (property, key, what)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %H %s%x09%b%x00"], capture_output=True, text=True).stdout
out = ["# Genuine defects of nappy found while building the checks.",
       "# 'finding:' lines are reported as KNOWN-FINDING; 'fixed:' lines suppress nothing."]
out += ["finding: property=%s key=%s %s" % f for f in FINDINGS]
import re
for rec in log.split("\0"):
    rec = rec.strip()
    if not rec or " fix: " not in rec.split("\t")[0]:
        continue
    head, _, body = rec.partition("\t")
    h, full, subj = head.split(" ", 2)
    p = next((PROPS[k] for k in PROPS if full.startswith(k)), None)
    m = re.search(r"property=(P\d\d)", body)
    if m:
        p = m.group(1)
    assert p, subj
    out.append("fixed: property=%s %s %s" % (p, h, subj[5:]))
open(V + "/known_findings.txt", "w").write("\n".join(out) + "\n")
print(len(out) - 2, "entries")
