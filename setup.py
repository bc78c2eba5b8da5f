#!/usr/bin/env python3
"""Nothing is kept between runs: checks build what they need. This only verifies the toolchain and the model."""
import os, subprocess, sys, tempfile
d = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as t:
    open(t + "/m.c", "w").write('#include "model.h"\nint main(void){m_init();return 0;}\n')
    subprocess.check_call(["/usr/bin/gcc", "-O1", "-I", d + "/c", "-o", t + "/m", t + "/m.c", d + "/c/model.c"])
    subprocess.check_call([t + "/m"])
    for tool in (["clang-18", "--version"], ["make", "--version"], ["nm", "--version"]):
        subprocess.check_call(tool, stdout=subprocess.DEVNULL)
print("ok")
