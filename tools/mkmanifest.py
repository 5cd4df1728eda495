#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import mkprops
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C={}   # property -> (command, technique, note)
C["P01"]=("python3 checks/p01.py P01","TLA+ state machine of the build life cycle (TLC, exhaustive small instances + simulation), every transition replayed into the real class",
  "exhaustive for 1 object up to 2x2 (all modes); simulated histories up to 4x5; outcome and full observation compared after every call; ASan")
C["P02"]=("python3 checks/p01.py P02","TLA+ state machine of several matrix objects (TLC), transitions and simulated histories replayed into the real class",
  "exhaustive for 2 objects 1x2; simulated histories of 3 objects up to 3x4; ASan")
exec(open(os.path.join(ROOT,"tools","checks_table.py")).read()) if os.path.exists(os.path.join(ROOT,"tools","checks_table.py")) else None
NA={}
def main():
    m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":[],"not_applicable":[],
       "hooks":{"guard":"NONE","enable":"no hooks are needed: harnesses in /verif/harness include /repo's headers and use public interfaces only","source_commits":[]},
       "notes":"TLA+ checked with TLC; see DESIGN.md. Checks build their harness from /repo's working tree in a scratch directory."}
    for p in mkprops.P:
        i=p["id"]
        if i in C:
            cmd,tech,note=C[i]
            m["checks"].append({"property":i,"quick_cmd":cmd,"thorough_cmd":cmd+" --thorough","technique":tech,"level":"model_checking","level_note":note})
        else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built for this property yet")})
    json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
    print(len(m["checks"]),"checks")
main()
