"""Nothing is built ahead: every check reads /repo's current sources. Only checks the tools are there."""
import os
import subprocess
import sys
for t in ("/usr/lib/llvm-18/bin/clang", "/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-link"):
    if not os.path.exists(t):
        sys.exit("missing " + t)
import Cython  # noqa: the Cython parser reads the .pyx
import yaml  # noqa
print("ok", subprocess.run([sys.executable, "--version"], stdout=subprocess.PIPE, text=True).stdout.strip())
