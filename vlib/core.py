"""Hypothesis driver: parallel generated-input search, shrinking, replay, evidence.

A check is a list of Parts.  A Part has a Hypothesis strategy producing a *spec* (plain JSON
data) and a function that runs one spec against /repo and raises Violation when the property
is broken.  Everything random comes from the strategy; a run is a function of the code,
VERIF_SEED and the case counts (wall-clock caps only ever make a run shorter, never fail it).
"""
import argparse
import collections
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import REPO
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class Violation(Exception):
    """The property is broken on this spec."""


class Inconclusive(Exception):
    """The case could not be decided (wall-clock limit of a tool); counted, never reported."""


class Part(object):
    def __init__(self, name, strategy, fn, quick, thorough=None, examples=(), shrink=True):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick            # number of generated cases, all workers together
        self.thorough = thorough if thorough is not None else quick * 12
        self.examples = list(examples)  # specs always run (regression corpus)
        self.shrink = shrink


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))


def _in_repo(tb):
    """True when the innermost non-library frame of the traceback belongs to the code under test."""
    frames = traceback.extract_tb(tb)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(os.path.join(REPO, 'veriloggen') + os.sep):
            return True
        if fn.startswith(VERIF + os.sep):
            return False
    return False


def run_spec(part, spec):
    """Run one spec; returns the label set; raises Violation / Inconclusive / harness error."""
    try:
        r = part.fn(spec)
    except (Violation, Inconclusive):
        raise
    except (MemoryError, OSError, KeyboardInterrupt, hypothesis.errors.HypothesisException):
        raise
    except BaseException as e:   # an exception out of the code under test on a legal input
        if isinstance(e, (SystemExit,)) or isinstance(e, Exception):
            if _in_repo(e.__traceback__):
                tb = traceback.format_exception(type(e), e, e.__traceback__)
                raise Violation('exception from the code under test on a legal input: %s: %s\n%s'
                                % (type(e).__name__, e, ''.join(tb[-4:]))) from e
        raise
    return r or {}


class _Stop(Exception):
    pass


def _worker(idx, nworkers, parts, tier, seed, outdir, time_cap, shrink_cap):
    os.setpgrp() if hasattr(os, 'setpgrp') else None
    scratch = os.path.join(outdir, 'w%d' % idx)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    logf = os.open(os.path.join(outdir, 'log%d' % idx), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(logf, 1)
    os.dup2(logf, 2)
    t0 = time.time()
    res = dict(idx=idx, evaluations=0, inconclusive=0, labels=collections.Counter(),
               nontrivial=set(), samples=[], fail=None, error=None, parts=collections.Counter())

    def evaluate(part, spec):
        spec = json.loads(json.dumps(spec))
        res['evaluations'] += 1
        res['parts'][part.name] += 1
        try:
            lab = run_spec(part, spec)
        except Inconclusive:
            res['inconclusive'] += 1
            return
        for l in lab.get('labels', ()):
            res['labels'][part.name + ':' + str(l)] += 1
        if lab.get('nontrivial'):
            h = hashlib.sha1((part.name + canon(spec)).encode()).hexdigest()[:16]
            if h not in res['nontrivial']:
                res['nontrivial'].add(h)
                s = canon(spec)
                if len([1 for x in res['samples'] if x['part'] == part.name]) < 2 and len(s) < 6000:
                    d = dict(part=part.name, spec=spec)
                    if 'note' in lab:
                        d['note'] = lab['note']
                    res['samples'].append(d)

    def record(part, spec, e, shrunk):
        res['fail'] = dict(part=part.name, spec=json.loads(json.dumps(spec)), message=str(e)[:6000],
                           shrunk=shrunk)

    try:
        for part in parts:
            # fixed examples are dealt out over the workers
            for k, spec in enumerate(part.examples):
                if k % nworkers == idx:
                    try:
                        evaluate(part, spec)
                    except Violation as e:
                        record(part, spec, e, False)
                        raise _Stop()
            total = part.quick if tier == 'quick' else part.thorough
            n = total // nworkers + (1 if idx < total % nworkers else 0)
            if n <= 0:
                continue
            best = {}

            def body(spec):
                now = time.time()
                msg = None
                if best:
                    if canon(spec) == best['canon']:
                        msg = best['msg']
                    elif now - best['t'] > shrink_cap:
                        return
                elif now - t0 > time_cap:
                    return
                if msg is None:
                    try:
                        evaluate(part, spec)
                    except Violation as e:
                        best.setdefault('t', now)
                        best['canon'] = canon(spec)
                        best['spec'] = json.loads(json.dumps(spec))
                        best['msg'] = msg = str(e)
                if msg is not None:     # one raise site: one failure as far as the library can tell
                    raise Violation('property violated')

            phases = [Phase.generate] + ([Phase.shrink] if part.shrink else [])
            pseed = int(hashlib.sha256(('%d/%s/%d' % (seed, part.name, idx)).encode()).hexdigest()[:12], 16)
            test = hypothesis.seed(pseed)(settings(
                max_examples=n, deadline=None, database=None, phases=phases,
                report_multiple_bugs=False, print_blob=False,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                       HealthCheck.large_base_example])(given(part.strategy)(body)))
            try:
                test()
            except (Violation, hypothesis.errors.FlakyFailure, hypothesis.errors.Flaky,
                    BaseExceptionGroup) as e:
                if not best:
                    raise
                # confirm outside the library: the same spec must fail again
                try:
                    run_spec(part, json.loads(json.dumps(best['spec'])))
                except Violation as e2:
                    record(part, best['spec'], e2, True)
                    raise _Stop()
                else:
                    raise RuntimeError('violation did not reproduce: %s\n%s'
                                       % (best['msg'][:2000], best['canon'][:2000]))
    except _Stop:
        pass
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-8000:]
    res['nontrivial'] = sorted(res['nontrivial'])
    res['labels'] = dict(res['labels'])
    res['parts'] = dict(res['parts'])
    res['wall'] = time.time() - t0
    with open(os.path.join(outdir, 'res%d.tmp' % idx), 'w') as f:
        json.dump(res, f)
    os.rename(os.path.join(outdir, 'res%d.tmp' % idx), os.path.join(outdir, 'res%d.json' % idx))
    os._exit(0)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return [x for x in data['findings'] if x['property'] == pid]


def main(*args, **kwargs):
    sys.exit(_main(*args, **kwargs))


def _main(pid, parts, rule, level='exploration', assumptions=(), time_cap=None, workers=8):
    """Entry point of a check.  time_cap: seconds of generation per worker (quick, thorough)."""
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=workers)
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    caps = time_cap or (200, 3000)
    cap = caps[0] if tier == 'quick' else caps[1]
    if a.only:
        parts = [p for p in parts if p.name in a.only.split(',')]
    if a.scale != 1.0:
        for p in parts:
            p.quick = int(p.quick * a.scale)
            p.thorough = int(p.thorough * a.scale)
    outdir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        if a.replay:
            with open(a.replay) as f:
                rp = json.load(f)
            part = [p for p in parts if p.name == rp['part']][0]
            os.chdir(outdir)
            try:
                run_spec(part, rp['spec'])
            except Violation as e:
                print(str(e))
                print('VIOLATION property=%s replay=%s' % (pid, a.replay))
                return 1
            print('replay passes')
            return 0
        # known findings: re-run each recorded failing input against the current tree
        known_lines = []
        bypart = {p.name: p for p in parts}
        for k in load_known(pid):
            part = bypart.get(k['part'])
            if part is None:
                continue
            cwd = os.getcwd()
            os.chdir(outdir)
            try:
                run_spec(part, k['spec'])
            except Violation:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            except Inconclusive:
                pass
            finally:
                os.chdir(cwd)
        for l in known_lines:
            print(l)
        nw = max(1, a.workers)
        ctx = multiprocessing.get_context('fork')
        sys.stdout.flush()
        procs = []
        for i in range(nw):
            pr = ctx.Process(target=_worker, args=(i, nw, parts, tier, a.seed, outdir, cap,
                                                   40 if tier == 'quick' else 300))
            pr.start()
            procs.append(pr)
        hard = cap * 2 + (300 if tier == 'quick' else 1200)
        results = {}
        failed_at = None
        while True:
            for i, pr in enumerate(procs):
                path = os.path.join(outdir, 'res%d.json' % i)
                if i not in results and os.path.exists(path):
                    with open(path) as f:
                        results[i] = json.load(f)
                    if results[i]['fail'] and failed_at is None:
                        failed_at = time.time()
            if len(results) == nw:
                break
            if failed_at is not None:
                break
            dead = [i for i, pr in enumerate(procs) if not pr.is_alive() and i not in results
                    and not os.path.exists(os.path.join(outdir, 'res%d.json' % i))]
            if dead:
                for i in dead:
                    results[i] = dict(idx=i, evaluations=0, inconclusive=0, labels={}, nontrivial=[],
                                      samples=[], fail=None, parts={}, wall=0,
                                      error='worker %d died (exit code %s)' % (i, procs[i].exitcode))
            if time.time() - t0 > hard:
                break
            time.sleep(0.1)
        for pr in procs:
            if pr.is_alive():
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except OSError:
                    pr.kill()
        for pr in procs:
            pr.join(5)
        rs = [results[i] for i in sorted(results)]
        fails = [r for r in rs if r['fail']]
        errors = [r for r in rs if r['error']]
        ev = sum(r['evaluations'] for r in rs)
        inc = sum(r['inconclusive'] for r in rs)
        nt = set()
        labels = collections.Counter()
        pcount = collections.Counter()
        samples = []
        for r in rs:
            nt.update(r['nontrivial'])
            labels.update(r['labels'])
            pcount.update(r['parts'])
        seen = collections.Counter()
        for r in rs:
            for s in r['samples']:
                if seen[s['part']] < 2:
                    seen[s['part']] += 1
                    samples.append(s)
        evidence = dict(
            property=pid, tier=tier, seed=a.seed, level=level,
            coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=rule, samples=samples[:10],
                          cases_per_part=dict(pcount), labels=dict(sorted(labels.items())),
                          inconclusive=inc, known_findings=len(known_lines)),
            assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(fails))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        if fails:
            f0 = sorted(fails, key=lambda r: len(canon(r['fail']['spec'])))[0]['fail']
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            h = hashlib.sha1(canon(f0['spec']).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, h))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, part=f0['part'], spec=f0['spec'], message=f0['message']),
                          f, indent=1)
            print('part %s: %s' % (f0['part'], f0['message'][:4000]))
            print('spec: %s' % canon(f0['spec'])[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        if errors:
            for r in errors[:2]:
                sys.stderr.write('harness error in worker %d:\n%s\n' % (r['idx'], r['error']))
            return 2
        if len(results) < nw:
            sys.stderr.write('harness error: workers did not finish\n')
            return 2
        if inc > max(3, ev // 10):
            sys.stderr.write('harness error: %d of %d cases inconclusive\n' % (inc, ev))
            return 2
        print('OK property=%s cases=%d nontrivial=%d inconclusive=%d wall=%.1fs parts=%s' % (
            pid, ev, len(nt), inc, time.time() - t0, dict(pcount)))
        return 0
    finally:
        os.chdir('/')
        shutil.rmtree(outdir, ignore_errors=True)
