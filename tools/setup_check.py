"""Nothing to build: checks that the interpreters and solvers the framework needs are present."""
import subprocess, sys
for cmd in (["/opt/venv/bin/python", "-c", "import numpy, scipy"], ["python3-vt", "-c", "import z3"]):
    subprocess.check_call(cmd)
print("ok")
