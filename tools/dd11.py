"""tools/dd11.py REPLAY: line-level reduction of a C11 failure (development aid)."""
import json, sys, os, tempfile
sys.path.insert(0, '/verif')
import vlib
from checks import c11
from vlib.core import Violation
os.chdir(tempfile.mkdtemp())
s = json.load(open(sys.argv[1]))['spec']
def fails(s):
    try:
        if c11.run(s)['labels'] == ['budget']: return None
    except Violation as e:
        return str(e)
    except Exception as e:
        if 'CompileError' in type(e).__name__ and 'CompileError' in first:
            return 'CompileError %s' % e
        return None
    return None
first = ''
try:
    first = fails(s) or ''
except Exception as e: first = repr(e)
try:
    c11.run(s)
except Violation: pass
except Exception as e: first = 'CompileError' + repr(e)
def indent(l): return len(l) - len(l.lstrip())
def reduce(lines, put):
    changed = True
    while changed:
        changed = False
        i = 0
        while i < len(lines):
            j = i + 1
            while j < len(lines) and indent(lines[j]) > indent(lines[i]): j += 1
            for cand in (lines[:i] + lines[j:], lines[:i] + [l[4:] for l in lines[i+1:j]] + lines[j:] if j > i + 1 else None,
                         lines[:i] + lines[i+1:]):
                if cand is None: continue
                t = put(cand)
                if fails(t):
                    lines = cand; changed = True
                    break
            else:
                i += 1
    return lines
def p(key, idx=None):
    def put(l):
        t = json.loads(json.dumps(s))
        if idx is None: t[key] = l
        else: t[key][idx] = l
        return t
    return put
s['main'] = reduce(s['main'], p('main'))
for k in ('funs', 'meths'):
    i = 0
    while i < len(s[k]):
        t = json.loads(json.dumps(s)); del t[k][i]
        if fails(t): s = t
        else: i += 1
    for i in range(len(s[k])):
        s[k][i] = reduce(s[k][i], p(k, i))
print(fails(s)); print(json.dumps(s))
