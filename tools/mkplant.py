#!/usr/bin/env python3
"""mkplant.py ID PROPERTY : reads seeded/ID/edit.json [{file,old,new}] , writes patch.diff and demo.sh if demo.cpp given"""
import sys, json, subprocess, os
i = sys.argv[1]; d = f"/verif/seeded/{i}"
ed = json.load(open(d + "/edit.json"))
assert not subprocess.run(["git","-C","/repo","status","--porcelain"],capture_output=True,text=True).stdout.strip(), "repo dirty"
for e in ed:
    p = "/repo/" + e["file"]; b = open(p, newline="").read()
    crlf = "\r\n" in b
    old, new = e["old"], e["new"]
    if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
    assert b.count(old) == 1, (e["file"], b.count(old))
    open(p, "w", newline="").write(b.replace(old, new))
diff = subprocess.run(["git","-C","/repo","diff"],capture_output=True).stdout
open(d + "/patch.diff","wb").write(diff)
subprocess.run(["git","-C","/repo","checkout","-q","--","."])
os.remove(d + "/edit.json")
