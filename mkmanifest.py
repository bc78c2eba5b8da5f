#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTE = {}
def n(pid, technique, level, note):
    NOTE[pid] = (technique, level, note)
ENUM = "exhaustive bounded enumeration on the real code against an independent reference model"
n("C01", ENUM, "model_checking", "Complete within the stated input alphabet and builds; trusts the reference model and that reduced-n instances only differ in n.")
n("C02", ENUM, "model_checking", "Complete within the stated input alphabet and builds; trusts the reference model.")
n("C03", ENUM, "model_checking", "Complete within the stated key/ciphertext alphabet and builds; trusts the reference model.")
n("C04", "exhaustive enumeration of error values with crafted keys on the real decapsulation", "model_checking", "Every error value at every coefficient; other coefficients follow a rotation or are zero.")
n("C05", "exhaustive enumeration of ciphertext modifications on the real decapsulation", "model_checking", "Single changes complete; combinations complete for pairs on reduced n and for the listed families.")
n("C06", "exhaustive enumeration of build configurations x input alphabet", "model_checking", "x86-64 execution only; other architecture options are built for this CPU.")
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")) else None
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = [dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
               evidence_file="evidence/%s.json" % i, technique=NOTE[i][0], level=NOTE[i][1], level_note=NOTE[i][2]) for i in ids if i in NOTE]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks,
         not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in NOTE],
         notes="Checks build everything they need from /repo's working tree into /verif/out (git-ignored). No hooks in /repo are needed.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
