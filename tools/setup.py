#!/usr/bin/env python3
# Builds the framework from the committed files (checks also build on demand).
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from dst import common as K
K.build_rvsim(); K.host_toycc()
from dst import simos as SO
SO.build()
print("ok")
