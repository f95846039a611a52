#!/bin/bash
# rp.sh cxx : run replay with the extension module built from the current tree
cd /verif; D=$(python3-vt -c "import sys;sys.path.insert(0,'.');import check,os;r=check.ensure_so(check.source_hash());r=r[0] if isinstance(r,tuple) else r;print(r if os.path.isdir(str(r)) else os.path.dirname(str(r)))" | tail -1)
D=${D%/pydantic_core}
PYTHONPATH=$D:/verif/replay timeout 800 /opt/vp/venv/bin/python replay/$1.py 2>&1 | cut -c1-600
