"""tools/trybug.py [--notest] [--nocheck] ID...: confirm planted bugs in a scratch copy, then run the check of their property on it."""
import json, os, shutil, subprocess, sys
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opts = [a for a in sys.argv[1:] if a.startswith('--')]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for b in args:
    d = '/verif/seeded/' + b
    meta = json.load(open(d + '/meta.json'))
    w = '/tmp/bug_' + b
    if os.path.exists(w):
        shutil.rmtree(w)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    res = []
    try:
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res.append('demo %d/%d' % (r0.returncode, r1.returncode))
        if r0.returncode or not r1.returncode:
            res.append('BAD DEMO ' + r0.stdout.decode()[-600:] + '|||' + r1.stdout.decode()[-600:])
        if '--notest' not in opts:
            env = dict(os.environ, PYTHONPATH=w, PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'], MPLBACKEND='Agg',
                       PYTHONDONTWRITEBYTECODE='1')
            t = w + '_t'
            os.makedirs(t, exist_ok=True)
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '-n', '8', '-x',
                            '-c', w + '/pytest.ini', '--rootdir=' + w, '--junitxml=' + t + '/j.xml', '-o', 'junit_family=xunit2'] +
                           [w + '/' + x for x in ('tests', 'examples', 'tests_obsolete', 'examples_obsolete')],
                           cwd=t, env=env, stdout=open(t + '/log', 'w'), stderr=subprocess.STDOUT)
            subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', t + '/o.json', 'junit:' + t + '/j.xml'], stdout=subprocess.DEVNULL)
            ps = set(json.load(open(t + '/o.json'))['passed'])
            miss = sorted(base - ps)
            res.append('tests missing %d %s' % (len(miss), miss[:2]))
            shutil.rmtree(t)
        if '--nocheck' not in opts:
            env = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
            r = subprocess.run(['/verif/run.sh', meta['property']], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode()
            l = [x for x in out.splitlines() if x.startswith(('VIOLATION', 'OK'))]
            res.append('check rc=%d %s' % (r.returncode, l[:1]))
            res.append(out[:300].replace('\n', ' | ') if r.returncode else '')
    finally:
        shutil.rmtree(w)
    print(b, meta['property'], *res, flush=True)
