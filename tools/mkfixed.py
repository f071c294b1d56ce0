#!/usr/bin/env python3
"""Writes known_findings.json: the recorded defects. A "fixed" entry is a record only: it suppresses nothing."""
import json, subprocess, os
M = {"1f5de47":"C07 C03","8d84fe9":"C04","a6d883d":"C04 C03","b677309":"C01","38aec3b":"C24","3d10805":"C02","286957d":"C07 C08","d530e78":"C07","6c31ca2":"C04 C08",
 "b15c99a":"C07 C08","43010f2":"C05 C06","63edb02":"C06","5e82a9d":"C08","b0784f8":"C25 C04","27371a4":"C25 C04","186f5c5":"C25 C04","a6e7364":"C25",
 "c96698a":"C15","c5a8f9d":"C15","b6d6e3f":"C15","0bbe347":"C15","ef609cc":"C15","a43a151":"C15","8e16aa5":"C15","7a4f4f9":"C06 C05","ecf921b":"C17","8bd9554":"C17","85bd5d0":"C17",
 "ef2a96a":"C16","ead1375":"C15","3fa74b6":"C16","bccdf91":"C15","2465c96":"C15","c15fed3":"C15","e614bf9":"C15","2a107b5":"C16","353b6ba":"C15","aca1868":"C15",
 "63f2372":"C20","d34f557":"C20","d5aa578":"C20","96aa72c":"C20","0688c06":"C14","a97070a":"C14","98cdc92":"C10","ef43ea8":"C10","9226457":"C19","b3f0c5d":"C19","d624a97":"C19","bfdfa8d":"C19","67d67e4":"C26","d9d546f":"C26","b87cace":"C09","3725677":"C09","8c2adbf":"C09","76e6e01":"C09"}
EXTRA = {}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed_extra.json")
if os.path.exists(p): M.update(json.load(open(p)))
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","92caa36..HEAD"],capture_output=True,text=True).stdout.strip().split("\n")
out = []
for l in log:
    h, s = l.split(" ", 1); h = h[:7]
    if not s.startswith("fix: "): continue
    for c in M[h].split():
        out.append({"status": "fixed", "property": c, "commit": h, "record": "fixed: property=%s %s %s" % (c, h, s[5:])})
old = os.path.join(os.path.dirname(p), "..", "known_findings.json")
if os.path.exists(old): out += [e for e in json.load(open(old)) if e.get("status") != "fixed"]
json.dump(out, open(old, "w"), indent=1); open(old, "a").write("\n")
