"""setup: nothing to build; checks that the tools the checks need are present"""
import os, subprocess, sys
for f in ('/opt/veriftools/pyvenv/bin/python3', '/opt/venv-pypy/bin/pypy3'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
subprocess.check_call(['/opt/veriftools/pyvenv/bin/python3', '-B', '-c', 'import z3; print("z3", z3.get_version_string())'])
