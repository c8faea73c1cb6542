"""tools/mkbug.py ID PROPERTY NEEDS BREAKS < patch+demo: takes the current diff of /tmp/bugwork as patch and demo.py from stdin."""
import json, os, shutil, subprocess, sys
bid, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + bid
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', '/tmp/bugwork', 'diff'], text=True)
assert diff
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(sys.stdin.read())
shutil.copy('/verif/tools/dsim.py', d + '/dsim.py')
open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nexport PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1\n'
                                'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
