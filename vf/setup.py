"""setup_cmd: check that the tools the checks need are present (nothing to build)."""
import os, shutil, subprocess, sys
import z3
ok = True
for t in ('cvc5', 'python3-vt'):
    if shutil.which(t) is None:
        print('missing', t)
        ok = False
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import networkx, numpy, omega, ply'], capture_output=True)
ok = ok and r.returncode == 0
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replay', '.cache'):
    os.makedirs(os.path.join(root, d), exist_ok=True)
print('z3', z3.get_version_string(), 'ok' if ok else 'NOT ok')
sys.exit(0 if ok else 1)
