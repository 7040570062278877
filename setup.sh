#!/bin/bash
# builds the fact exporter, the native solver of the linear domain and the dependencies of the analysed crate
cd "$(dirname "$0")" || exit 1
python3 - <<'P' || exit 1
import sys
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from vt6sa import run, dom
for c in run.CONFIGS:
    d, err = run.facts_dir(c)
    print(c, d or err)
print("native:", bool(dom._load_native()) if hasattr(dom, "_load_native") else None)
P
