'''Setup: the simulator works here (import, fork server, one seed of one check, twice, same events)'''
import os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), 'C04', '--seeds', '4', '--no-evidence'],
                   capture_output=True, text=True)
print(r.stdout[-2000:], r.stderr[-2000:])
sys.exit(0 if r.returncode in (0, 1) else 1)
