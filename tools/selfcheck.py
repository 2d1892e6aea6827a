"""setup: confirm that the interpreters and solvers the checks use are present"""
import subprocess, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import numpy, scipy, pandas'], ['python3-vt', '-c', 'import z3, numpy, scipy, cvc5']):
    if subprocess.run(cmd).returncode:
        sys.exit('missing: %s' % cmd)
print('ok')
