#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import runner
from dst.common import HarnessError
try:
    rc = runner.main(sys.argv[1:])
except HarnessError as e:
    print("ERROR:", e); rc = 2
sys.stdout.flush()
sys.exit(rc)
