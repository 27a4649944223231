"""Nothing to build: the checks are Python and use clang-18/opt-18. This verifies that the tools are present."""
import shutil, subprocess, sys
for t in ('/usr/bin/clang-18', '/usr/bin/opt-18'):
    p = subprocess.run([t, '--version'], capture_output=True, text=True)
    if p.returncode:
        sys.exit('missing ' + t)
print('ok')
