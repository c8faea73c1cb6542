"""C04: code generation is a pure, deterministic function of the design.

The designs are those of the generators of the other checks (their simulation step is cut off).  Oracle: the text of the first generation; every other
generation of the same design (again, from a deep copy, after more designs, after inspection, after generations during its construction, after reset,
in a process with another hash seed and another memory layout) has to give the same text.
"""
import copy
import importlib
import json
import os
import random
import subprocess
import sys

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, Inconclusive, main
from vlib import sim

import veriloggen
from veriloggen.core.module import Module

SOURCES = {'seq': ('c08', ['seq']), 'fsm': ('c09', ['fsm']), 'outline': ('c10', ['outline']), 'thread': ('c11', ['thread']),
           'pool': ('c12', ['lifecycle']), 'sync': ('c13', ['sync']), 'ram': ('c14', ['rtl', 'thread', 'access', 'burst']), 'fifo': ('c15', None),
           'axi': ('c16', ['dma', 'lite']), 'regs': ('c17', None), 'axis': ('c18', None), 'stream': ('c20', None), 'graph': ('c19', None),
           'flow': ('c21', None), 'pipe': ('c22', None), 'core': ('c03', None), 'gen': ('c31', None), 'copy': ('c07', ['tree']), 'arith': ('c30', None)}


class Captured(BaseException):
    pass


_parts = {}


def parts_of(group):
    if group not in _parts:
        mod, names = SOURCES[group]
        ps = {p.name: p for p in importlib.import_module('checks.' + mod).PARTS}
        _parts[group] = {n: ps[n] for n in names or ps}
    return _parts[group]


GROUPS = list(SOURCES)
WATCHED = ['Input', 'Output', 'Wire', 'Reg', 'OutputReg', 'Localparam', 'Always', 'Assign', 'Instance', 'Integer', 'Initial']


def design(d, groups):
    g = d.pick(groups)
    ps = parts_of(g)
    n = d.pick(sorted(ps))
    return [g, n, d.draw(ps[n].strategy)]


@spec
def case(d, groups):
    return dict(a=design(d, groups), b=design(d, groups) if d.chance(3) else None, ops=[d.pick(['gen', 'deep', 'inspect', 'gendeep', 'reset', 'hash']) for _ in range(d.int(1, 3))],
                mid=[d.int(1, 60) for _ in range(d.int(0, 2))], junk=d.int(0, 3000))


def same(name, want, got):
    if want == got:
        return
    a, b = want.splitlines(), got.splitlines()
    i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    raise Violation('%s differs in line %d (%d and %d lines):\n  %s\n  %s\nbefore it:\n%s' % (
        name, i + 1, len(a), len(b), '\n  '.join(a[i:i + 3]), '\n  '.join(b[i:i + 3]), '\n'.join(a[max(0, i - 3):i])))


def state(m, seen=None):
    """what a user sees of a module"""
    seen = seen if seen is not None else set()
    if id(m) in seen or not hasattr(m, 'items'):
        return getattr(m, 'name', None)
    seen.add(id(m))
    return [m.name, list(m.io_variable), list(m.variable), list(m.global_constant), list(m.local_constant), len(m.items), len(m.always), len(m.assign),
            [(k, state(x, seen)) for k, x in m.submodule.items()], len(m.hook)]


def history(m, t, ops):
    for op in ops:
        if op == 'gen':
            same('the second generation', t, m.gen_text())
        elif op == 'deep':
            same('the text of a deep copy', t, copy.deepcopy(m).gen_text())
            same('the generation after a copy', t, m.gen_text())
        elif op == 'gendeep':
            c = copy.deepcopy(m)
            same('the text of a copy', t, c.gen_text())
            same('the second text of a copy', t, c.gen_text())
        elif op == 'inspect':
            m.get_modules()
            m.get_all_modules()
            m.get_ports()
            m.get_params()
            m.get_vars()
            m.has_hook()
            str(m)
            hash(m)
            same('the generation after inspection', t, m.gen_text())


def capture(dsg, ops=(), mid=()):
    """runs the generator's check up to its simulation; returns the texts and the modules"""
    g, n, s = dsg
    veriloggen.reset()
    texts, mods = [], []
    orig = Module.to_verilog
    depth = [0]
    calls = [0]
    saved = {}

    def to_verilog(self, filename=None, for_verilator=False):
        if depth[0]:
            return orig(self, filename, for_verilator)
        depth[0] += 1
        try:
            before = state(self)
            self.gen_text = lambda: orig(self)
            t = orig(self, filename, for_verilator)
            if state(self) != before:
                raise Violation('generation changes the design: %s, then %s' % (before, state(self)))
            Module.gen_text = lambda x: orig(x)
            del self.gen_text
            if ops:
                history(self, t, ops)
        finally:
            depth[0] -= 1
        texts.append(t)
        mods.append(self)
        return t

    def watch(name):
        f = saved[name] = getattr(Module, name)

        def wrapped(self, *a, **k):
            r = f(self, *a, **k)
            if depth[0] == 0:
                calls[0] += 1
                if calls[0] in mid:
                    depth[0] += 1
                    try:
                        orig(self)
                    except Exception:
                        pass            # an unfinished design
                    finally:
                        depth[0] -= 1
            return r
        setattr(Module, name, wrapped)

    def stop(text, *a, **k):
        raise Captured()
    run = sim.compile_and_run
    sim.compile_and_run = stop
    Module.to_verilog = to_verilog
    if mid:
        for name in WATCHED:
            watch(name)
    try:
        parts_of(g)[n].fn(s)
    except Captured:
        pass
    finally:
        sim.compile_and_run = run
        Module.to_verilog = orig
        for name, f in saved.items():
            setattr(Module, name, f)
    return texts, mods, calls[0]


# ---------------------------------------------------------------------------------------------- other processes
_servers = {}


def server(seed):
    key = (os.getpid(), seed)
    if key not in _servers:
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=root + os.pathsep + os.environ.get('PYTHONPATH', ''))
        code = 'import os, sys; sys.path.insert(0, %r); import checks.c04 as c; c.serve()' % root
        _servers[key] = subprocess.Popen([sys.executable, '-c', code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    return _servers[key]


def serve():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for line in sys.stdin.buffer:
        dsg, junk = json.loads(line)
        parts_of(dsg[0])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                rnd = random.Random(junk)
                keep = [bytearray(rnd.randrange(8, 600)) for _ in range(junk)]
                objs = [object() for _ in range(junk)]
                del keep[::2]
                del objs[::3]
                try:
                    res = ['ok', capture(dsg)[0]]
                except BaseException as e:
                    res = ['error', '%s: %s' % (type(e).__name__, e)]
                with os.fdopen(w, 'wb') as f:
                    f.write(json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.write(data.replace(b'\n', b' ') + b'\n')
        out.flush()


def elsewhere(dsg, seed, junk):
    p = server(seed)
    try:
        p.stdin.write(json.dumps([dsg, junk]).encode() + b'\n')
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError:
        line = b''
    if not line.strip():
        _servers.pop((os.getpid(), seed), None)
        p.kill()
        raise Inconclusive('no answer from the other process')
    kind, val = json.loads(line)
    if kind == 'error':
        raise Violation('construction fails in another process: ' + val)
    return val


def run(s):
    a, b, ops = s['a'], s['b'], s['ops']
    want, mods, _ = capture(a)
    t1 = [m.to_verilog() for m in mods]
    if not want:
        return dict(nontrivial=False, labels=['none'])
    labels = ['%s-%s' % (a[0], a[1])]

    def again(name, got):
        if len(got) != len(want):
            raise Violation('%s gives %d texts, not %d' % (name, len(got), len(want)))
        for x, y in zip(want, got):
            same(name, x, y)
    if b:
        capture(b)
        for m, t in zip(mods, t1):
            same('the generation after another design', t, m.to_verilog())
        labels.append('other design')
    if 'reset' in ops:
        veriloggen.reset()
        for m, t in zip(mods, t1):
            same('the generation after reset()', t, m.to_verilog())
    again('the text of a rebuilt design', capture(a, [o for o in ops if o not in ('reset', 'hash')])[0])
    if s['mid']:
        got, _, calls = capture(a, (), s['mid'])
        again('the text of a design generated during its construction', got)
        if any(k <= calls for k in s['mid']):
            labels.append('mid')
    if 'hash' in ops:
        again('the text from another process', elsewhere(a, 1 + s['junk'] % 3, s['junk']))
        labels.append('process')
    return dict(nontrivial=any('module ' in t and len(t) > 200 for t in want), labels=labels + ops)


PARTS = [Part('control', case(['seq', 'fsm', 'outline', 'core', 'gen', 'copy']), run, quick=700, thorough=20000),
         Part('thread', case(['thread', 'pool', 'sync', 'ram', 'fifo', 'regs', 'axi']), run, quick=350, thorough=10000),
         Part('stream', case(['stream', 'graph', 'flow', 'pipe', 'axis', 'arith']), run, quick=350, thorough=10000)]

if __name__ == '__main__':
    main('C04', PARTS,
         rule='designs of the generators of the other checks (sequential blocks, FSMs, outlined blocks, statements, generate blocks, submodules, threads, '
              'pools, locks, RAMs, FIFOs, AXI masters and slaves, streams, dataflow, pipelines, arithmetic cores); each is generated again, from a deep '
              'copy, after another design, after reset(), after inspection, rebuilt, with generations at random points of its construction, and in another '
              'process with another hash seed and memory layout; non-trivial = the text is a module of more than 200 characters',
         assumptions=['a design is rebuilt after veriloggen.reset()', 'generation of an unfinished design may fail'])
