#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/bugs/*.py (BUGS = [dict(id, property, needs,
breaks, edits=[(file, old, new)...], demo)])."""
import glob, json, os, re, runpy, shutil, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
only = sys.argv[1:]
for f in sorted(glob.glob(T + "/bugs/*.py")):
    for b in runpy.run_path(f)["BUGS"]:
        if only and b["id"] not in only:
            continue
        w = "/tmp/mkbug"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for path, old, new in b["edits"]:
            s = open(f"{w}/{path}").read()
            if s.count(old) != 1:
                print(b["id"], path, "matches", s.count(old))
                break
            open(f"{w}/{path}", "w").write(s.replace(old, new))
        else:
            d = f"{V}/seeded/{b['id']}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            shutil.copy(T + "/bugs/demo.sh", d + "/demo.sh")
            shutil.copy(T + "/bugs/jfdemo.h", d + "/jfdemo.h")
            open(d + "/demo.cc", "w").write('#include "jfdemo.h"\n' + b["demo"].strip() + "\n")
        shutil.rmtree(w, ignore_errors=True)
