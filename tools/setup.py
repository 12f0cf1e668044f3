"""nothing to build: check that the two interpreters and the solver are there"""
import subprocess, sys
for cmd in (["/opt/venv/bin/python", "-c", "import numpy, h5py, netCDF4"], ["python3-vt", "-c", "import z3, numpy"]):
    r = subprocess.run(cmd)
    if r.returncode:
        sys.exit(1)
