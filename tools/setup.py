#!/usr/bin/env python3
"""Nothing needs to be built in advance; verifies that the tools are there."""
import shutil, sys, os
missing=[t for t in ("g++","java","mpirun","python3") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"): missing.append("tla2tools.jar")
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"evidence"),exist_ok=True)
if missing: print("missing:",missing); sys.exit(1)
print("ok")
