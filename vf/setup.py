"""setup_cmd: nothing to build ahead; checks that the tools are present"""
import subprocess, sys, z3
from . import build
for c in (['clang++', '--version'], ['g++', '--version'], [build.PY, '-c', 'import numpy']):
    if subprocess.run(c, capture_output=True).returncode: sys.exit('missing tool: ' + c[0])
print('ok: z3', z3.get_version_string())
