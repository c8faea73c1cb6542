"""tools/hunks.py FILE 1,3,5: stages the given hunks of the working-tree diff of a file of /repo."""
import re, subprocess, sys
f, sel = sys.argv[1], [int(x) for x in sys.argv[2].split(',')]
d = subprocess.check_output(['git', '-C', '/repo', 'diff', '-U1', f], text=True)
parts = re.split(r'(?m)^(?=@@)', d)
t = parts[0] + ''.join(parts[i] for i in sel)
subprocess.run(['git', '-C', '/repo', 'apply', '--cached', '--recount', '--unidiff-zero', '-'], input=t, text=True, check=True)
