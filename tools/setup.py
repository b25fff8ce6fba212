#!/usr/bin/env python3
"""Nothing is compiled ahead: the encodings are regenerated from /repo on every run.  Checks the tools are there."""
import subprocess
import sys

r = subprocess.run(["/opt/venv/bin/python", "-B", "-c",
                    "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
                    "import numpy, numba, z3; print('numpy', numpy.__version__, 'numba', numba.__version__,"
                    "'z3', z3.get_version_string())"])
sys.exit(r.returncode)
