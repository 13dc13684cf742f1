#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import prog, native
wrap = os.path.join(prog.VERIF, "harness", "wrap.sh")
print(prog.build_program())
print(prog.build_crate("oracle", wrap))
print(prog.build_crate("client"))
print(native.build_shim(prog.BUILD))
