"""Nothing has to be built: checks that the installed tools are there."""
import subprocess, sys
for c in (['/opt/venv/bin/python', '-c', 'import numpy, healpy'], ['python3-vt', '-c', 'import z3'], ['gfortran', '--version']):
    if subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        print('missing: %s' % ' '.join(c))
        sys.exit(1)
