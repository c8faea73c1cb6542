"""C13: mutexes, barriers and shared variables.

Oracle: an invariant over the history: the event lines printed by the threads are replayed on a model that tracks the holder of
every mutex, the generation of every barrier and the total of every shared counter.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.thread as vthread
import veriloggen.types.fixed as fx  # noqa


KINDS = ['mutex', 'mutex', 'lock', 'shared', 'ram', 'fifo']


@spec
def case(d):
    n = d.int(2, 5)
    pool = d.bool()
    nm = d.int(1, 3)
    mut = [dict(kind=d.pick(KINDS), width=d.pick([32, 32, 8, 3])) for _ in range(nm)]
    # barriers: every party executes the global sequence of the barriers it takes part in
    bars = []
    for _ in range(d.pick([0, 1, 1, 2])):
        ps = list(range(n)) if pool or d.bool() else sorted(d.subset(list(range(n)))) or [0]
        bars.append(dict(parties=ps))
    order = [d.int(0, len(bars) - 1) for _ in range(d.int(1, 4))] if bars else []

    def seg():
        out = []
        for _ in range(d.int(0, 3)):
            k = d.int(0, 9)
            i = d.int(0, nm - 1)
            if k <= 3:
                ms = sorted(d.subset(list(range(nm)))) or [i]
                out.append(['crit', ms, d.pick(['lock', 'lock', 'acquire', 'spin', 'spina']), d.bool(), d.pick([0, 0, 0, d.int(1, 9)]),
                            d.pick(['inc', 'inc', 'rmw', 'none', 'two'])])
            elif k <= 6:
                out.append(['try', i, d.bool(), d.pick([0, 0, d.int(1, 5)])])
            elif k == 7:
                out.append(['delay', d.int(0, 12), d.int(0, 5)])
            elif k == 8:
                out.append(['own'])
            else:
                out.append(['free', i])
        return out

    def script():
        return dict(rep=d.int(1, 4), segs=[seg() for _ in range(len(order) + 1)], last=seg())
    scripts = [script()] if pool else [script() for _ in range(n)]
    # barriers inside a repetition: all parties need the same repetition count
    if order:
        r = d.int(1, 3)
        for x in scripts:
            x['rep'] = r
    return dict(n=n, pool=pool, mut=mut, bars=bars, order=order, scripts=scripts, skew=[d.pick([0, 0, d.int(0, 20)]) for _ in range(n)],
                asm=d.chance(8), own=d.pick(['bit', 'part', 'part', 'elem', 'elembit']), stagger=d.bool(), width=d.pick([32, 32, 24]))


def source(s):
    out = ['def build(mk, mkpool, mu, cnt, mem, ownv, bars, fin):']
    for i in range(len(s['mut'])):
        out.append('    m%d = mu[%d]' % (i, i))
        out.append('    c%d = cnt[%d]' % (i, i))
        out.append('    r%d = mem[%d]' % (i, i))
    for b in range(len(s['bars'])):
        out.append('    b%d = bars[%d]' % (b, b))
    uid = [0]

    def fn(name, sc, tids):
        out.append('    def %s(tid, skew):' % name)
        e = lambda i, t: out.append('    ' * (2 + i) + t)
        e(0, 'own = 0')
        e(0, 'for w in range(skew):')
        e(1, 'pass')

        def delay(i, n):
            if n:
                uid[0] += 1
                e(i, 'for w%d in range(%d):' % (uid[0], n))
                e(i + 1, 'pass')

        def ops(i, l):
            for op in l:
                k = op[0]
                if k == 'crit':
                    _, ms, st, rel, dl, upd = op
                    for m in ms:
                        e(i, 'print("R %d %%d" %% tid)' % m)
                        if st == 'lock':
                            e(i, 'm%d.lock()' % m)
                        elif st == 'acquire':
                            e(i, 'm%d.%s()' % (m, 'acquire' if s['mut'][m]['kind'] in ('mutex', 'lock') else 'lock'))
                        else:
                            f = 'm%d.try_lock()' % m
                            if st == 'spina' and s['mut'][m]['kind'] in ('mutex', 'lock'):
                                f = 'm%d.acquire(%s)' % (m, ['False', '0', 'blocking=False'][(m + dl) % 3])
                            e(i, 'g = %s' % f)
                            e(i, 'while not g:')
                            e(i + 1, 'g = %s' % f)
                        e(i, 'print("E %d %%d" %% tid)' % m)
                    for m in ms:
                        for _ in range({'none': 0, 'two': 2}.get(upd, 1)):
                            if upd == 'rmw':
                                e(i, 't = c%d.read()' % m)
                                delay(i, dl)
                                e(i, 'c%d.write(t + 1)' % m)
                            else:
                                e(i, 'c%d.write(c%d.value + 1)' % (m, m))
                        if s['mut'][m]['kind'] == 'ram' and upd != 'none':
                            e(i, 't = r%d.read(3)' % m)
                            e(i, 'r%d.write(3, t + 1)' % m)
                    delay(i, dl)
                    for m in reversed(ms):
                        e(i, 'print("X %d %%d" %% tid)' % m)
                        e(i, 'm%d.%s()' % (m, 'release' if rel and s['mut'][m]['kind'] in ('mutex', 'lock') else 'unlock'))
                        e(i, 'print("L %d %%d" %% tid)' % m)
                elif k == 'try':
                    m = op[1]
                    e(i, 'print("R %d %%d" %% tid)' % m)
                    e(i, 'g = m%d.try_lock()' % m)
                    e(i, 'if g:')
                    e(i + 1, 'print("E %d %%d" %% tid)' % m)
                    if op[2]:
                        e(i + 1, 'c%d.write(c%d.value + 1)' % (m, m))
                        e(i + 1, 'print("I %d %%d" %% tid)' % m)
                    delay(i + 1, op[3])
                    e(i + 1, 'print("X %d %%d" %% tid)' % m)
                    e(i + 1, 'm%d.unlock()' % m)
                    e(i + 1, 'print("L %d %%d" %% tid)' % m)
                    e(i, 'else:')
                    e(i + 1, 'print("F %d %%d" %% tid)' % m)
                elif k == 'delay':
                    uid[0] += 1
                    e(i, 'for w%d in range(%d + tid * %d):' % (uid[0], op[1], op[2]))
                    e(i + 1, 'pass')
                elif k == 'own':
                    # an update of the part of the shared variable that belongs to this thread alone: no lock needed
                    if s['own'] in ('bit', 'elembit'):
                        e(i, 'own = 1 - own')
                        ix = ['%d']
                    else:
                        e(i, 'own += 1')
                    for t in tids:
                        ind = i
                        if len(tids) > 1:
                            e(i, 'if tid == %d:' % t)
                            ind = i + 1
                        if s['own'] == 'bit':
                            e(ind, 'ownv.write(own, %d)' % t)
                        elif s['own'] == 'elem':
                            e(ind, 'ownv.write(own, %d)' % t)
                        elif s['own'] == 'elembit':
                            e(ind, 'ownv.write(own, %d, 3)' % t)
                        else:
                            e(ind, 'ownv.write(own, (%d, %d))' % (t * 6 + 5, t * 6))
                elif k == 'free':
                    # releasing a mutex this thread does not hold
                    e(i, 'print("R %d %%d" %% tid)' % op[1])
                    e(i, 'm%d.unlock()' % op[1])
                    e(i, 'print("L %d %%d" %% tid)' % op[1])
        e(0, 'for rep in range(%d):' % sc['rep'])
        for j, b in enumerate(s['order']):
            ops(1, sc['segs'][j])
            mine = [t for t in tids if t in s['bars'][b]['parties']]
            if mine:
                e(1, 'print("b %d %%d" %% tid)' % b)
                e(1, 'b%d.wait()' % b)
                e(1, 'print("a %d %%d" %% tid)' % b)
        ops(1, sc['segs'][-1])
        e(1, 'pass')
        ops(0, sc['last'])
        e(0, 'print("Q %d" % tid)')
        e(0, 'return own')
    n = s['n']
    if s['pool']:
        fn('w', s['scripts'][0], list(range(n)))
    else:
        for t in range(n):
            fn('w%d' % t, s['scripts'][t], [t])
    out.append('    def mn():')
    if s['own'].startswith('elem'):
        for t in range(n):
            out.append('        ownv.write(0, %d)' % t)
    st = list(range(n))
    for t in st:
        if s['pool']:
            out.append('        pl.run(%d, %d, %d)' % (t, t, s['skew'][t]))
        else:
            out.append('        t%d.run(%d, %d)' % (t, t, s['skew'][t]))
        if s['stagger']:
            out.append('        for w in range(5):')
            out.append('            pass')
    for t in st:
        if s['pool']:
            out.append('        pl.join(%d)' % t)
            out.append('        print("O %d %%d" %% pl.ret(%d))' % (t, t))
        else:
            out.append('        t%d.join()' % t)
            out.append('        print("O %d %%d" %% t%d.ret())' % (t, t))
    # a register nobody writes has no reset
    if not s['own'].startswith('elem'):
        out.append('        ownv.write(ownv.value)')
    for i, x in enumerate(s['mut']):
        out.append('        c%d.write(c%d.value + 0)' % (i, i))
        out.append('        print("C %d %%d" %% c%d.value)' % (i, i))
        if x['kind'] == 'ram':
            out.append('        t = r%d.read(3)' % i)
            out.append('        print("M %d %%d" %% t)' % i)
    for t in range(n):
        ix = {'bit': '[%d]' % t, 'part': '[%d:%d]' % (t * 6, t * 6 + 6)}.get(s['own'], '[%d]' % t)
        ix += {'elembit': ' >> 3'}.get(s['own'], '')
        out.append('        print("W %d %%d" %% (ownv.value%s))' % (t, ix))
    out.append('        print("Z")')
    out.append('        fin.value = 1')
    if s['pool']:
        out.append('    pl = mkpool("th_w", w, %d)' % n)
    else:
        for t in range(n):
            out.append('    t%d = mk("th_w%d", w%d, %r)' % (t, t, t, s['asm']))
    out.append('    q = mk("th_mn", mn, False)')
    out.append('    q.start()')
    return '\n'.join(out) + '\n'


def plan(s, t):
    """The operations thread t performs, in order, with the barrier waits."""
    sc = s['scripts'][0 if s['pool'] else t]
    ops = []
    for _ in range(sc['rep']):
        for j, b in enumerate(s['order']):
            ops += sc['segs'][j]
            if t in s['bars'][b]['parties']:
                ops.append(['bar', b])
        ops += sc['segs'][-1]
    return ops + sc['last']


def run(s):
    src = source(s)
    n = s['n']
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    mu, cnt, mem = [], [], []
    for i, x in enumerate(s['mut']):
        r = m.Reg('count%d' % i, 32, initval=0)
        c = vthread.Shared(r)
        k = x['kind']
        mm = None
        if k == 'mutex':
            o = vthread.Mutex(m, 'mtx%d' % i, clk, rst, x['width'])
        elif k == 'lock':
            o = vthread.Lock(m, 'mtx%d' % i, clk, rst, x['width'])
        elif k == 'shared':
            o = c
        elif k == 'ram':
            o = mm = vthread.RAM(m, 'ram%d' % i, clk, rst, 32, 4, initvals=[0] * 16)
        else:
            o = vthread.FIFO(m, 'fifo%d' % i, clk, rst, 8, 4)
        mu.append(o)
        cnt.append(c)
        mem.append(mm)
    ow = m.Reg('ownreg', 8, n, initval=0) if s['own'].startswith('elem') else m.Reg('ownreg', 36, initval=0)
    bars = [vthread.Barrier(m, 'bar%d' % i, clk, rst, len(b['parties'])) for i, b in enumerate(s['bars'])]

    def mk(name, f, asm):
        return vthread.Thread(m, name, clk, rst, f, datawidth=s['width'], fsm_as_module=asm)

    def mkpool(name, f, k):
        return vthread.ThreadPool(m, name, clk, rst, f, k, datawidth=s['width'])
    ns, path = thr.load(src, {})
    try:
        ns['build'](mk, mkpool, mu, cnt, mem, vthread.Shared(ow), bars, m.OutputReg('fin', initval=0))
        text = m.to_verilog()
    finally:
        thr.unload(path)
    plans = [plan(s, t) for t in range(n)]
    work = 0
    for p in plans:
        for op in p:
            work += 40 + 3 * (sum(x for x in op[1:] if isinstance(x, int)) if op[0] in ('try', 'delay') else 0)
            if op[0] == 'crit':
                work += 60 * len(op[1]) + 10 * op[4] * (1 + len(op[1]))
    tb = thr.TB % (3000 + 4 * work, 'wire fin; dut d(.CLK(CLK), .RST(RST), .fin(fin)); '
                                    'initial begin wait(cyc > 14 && fin === 1); #300 $finish(0); end')
    out = sim.compile_and_run(text + tb, top='tb')
    lines = [' '.join(l.split()) for l in out.splitlines()]
    tail = [l for l in lines if 'TIMEOUT' in l]
    lines = [l for l in lines if l and 'TIMEOUT' not in l and '$finish' not in l]

    def bad(msg):
        raise Violation('%s\n%s\nsimulated:\n%s\n' % (msg, src, '\n'.join(lines[:200])))
    if 'Z' not in lines:
        bad('the threads do not finish: some thread waits forever for a mutex or a barrier (%s)' % tail)
    hold = {}
    total = [0] * len(s['mut'])
    ramtot = [0] * len(s['mut'])
    req = {}                      # mutex -> list of [tid, first line, last line or None]
    per = [[] for _ in range(n)]
    gen_in = [[0] * n for _ in s['bars']]
    gen_out = [[0] * n for _ in s['bars']]
    fails = []
    for i, l in enumerate(lines):
        w = l.split()
        k = w[0]
        if k in 'REXLFI':
            mi, t = int(w[1]), int(w[2])
            per[t].append((k, mi))
            if k == 'R':
                req.setdefault(mi, []).append([t, i, None])
            elif k == 'E':
                if hold.get(mi) is not None:
                    bad('line %d: thread %d entered the critical section of mutex %d while thread %d is inside' % (i, t, mi, hold[mi]))
                hold[mi] = t
            elif k == 'X':
                if hold.get(mi) != t:
                    bad('line %d: thread %d leaves mutex %d, which it does not hold' % (i, t, mi))
                hold[mi] = None
            elif k == 'I':
                total[mi] += 1
            if k in 'LF':
                for r in reversed(req[mi]):
                    if r[0] == t:
                        r[2] = i
                        break
                if k == 'F':
                    fails.append((mi, t, r[1], i))
        elif k == 'b':
            gen_in[int(w[1])][int(w[2])] += 1
            per[int(w[2])].append(('b', int(w[1])))
        elif k == 'a':
            b, t = int(w[1]), int(w[2])
            per[t].append(('a', b))
            gen_out[b][t] += 1
            for p in s['bars'][b]['parties']:
                if gen_in[b][p] < gen_out[b][t]:
                    bad('line %d: barrier %d releases thread %d in round %d before thread %d has arrived' % (i, b, t, gen_out[b][t], p))
        elif k == 'Q':
            per[int(w[1])].append(('Q', 0))
    for mi, t, a, b in fails:
        if not any(r[0] != t and r[1] <= b and (r[2] is None or r[2] >= a) for r in req.get(mi, [])):
            bad('lines %d-%d: try_lock of mutex %d by thread %d failed although no other thread was using it' % (a, b, mi, t))
    own = []
    for t in range(n):
        ev = per[t]
        i = 0
        o = 0

        def take(k, x):
            nonlocal i
            if i >= len(ev) or ev[i] != (k, x):
                bad('thread %d: event %d is %s, expected %s' % (t, i, ev[i] if i < len(ev) else None, (k, x)))
            i += 1
        for op in plans[t]:
            k = op[0]
            if k == 'crit':
                for x in op[1]:
                    take('R', x)
                    take('E', x)
                for x in op[1]:
                    total[x] += {'none': 0, 'two': 2}.get(op[5], 1)
                    ramtot[x] += op[5] != 'none'
                for x in reversed(op[1]):
                    take('X', x)
                    take('L', x)
            elif k == 'try':
                take('R', op[1])
                if i < len(ev) and ev[i] == ('F', op[1]):
                    i += 1
                else:
                    take('E', op[1])
                    if op[2]:
                        take('I', op[1])
                    take('X', op[1])
                    take('L', op[1])
            elif k == 'own':
                o = 1 - o if s['own'] in ('bit', 'elembit') else o + 1
            elif k == 'free':
                take('R', op[1])
                take('L', op[1])
            elif k == 'bar':
                take('b', op[1])
                take('a', op[1])
        take('Q', 0)
        if i != len(ev):
            bad('thread %d: events after its end' % t)
        own.append(o)
    want = ['O %d %d' % (t, own[t]) for t in range(n)]
    for i, x in enumerate(s['mut']):
        want.append('C %d %d' % (i, total[i]))
        if x['kind'] == 'ram':
            want.append('M %d %d' % (i, ramtot[i]))
    want += ['W %d %d' % (t, own[t] & {'bit': 1, 'elembit': 1, 'elem': 255}.get(s['own'], 63)) for t in range(n)] + ['Z']
    got = [l for l in lines if l.split()[0] in 'OCMWZ']
    if got != want:
        bad('updates of the shared variables were lost: read %s, expected %s' % (got, want))
    cont = sum(1 for l in req.values() for r in l for q in l if q[0] != r[0] and q[1] > r[1] and (r[2] is None or q[1] < r[2]))
    labels = [x['kind'] for x in s['mut'] if any(op[0] in ('crit', 'try') for p in plans for op in p)]
    labels += ['fail'] * bool(fails) + ['barrier'] * bool(s['order']) + ['contended'] * bool(cont) + ['pool' if s['pool'] else 'threads']
    return dict(nontrivial=cont > 0 or len(s['order']) > 0, labels=sorted(set(labels)))


PARTS = [Part('sync', case(), run, quick=900, thorough=30000)]

if __name__ == '__main__':
    main('C13', PARTS,
         rule='2-5 threads or pool members with random start skew executing random critical sections on 1-3 mutexes (Mutex, Lock, '
              'Shared, RAM and FIFO locks; blocking, try, spinning; nested in a fixed order), unprotected updates of disjoint parts, '
              'unlocks without holding, and repeated barriers; non-trivial = two threads contend for a mutex or a barrier is used',
         assumptions=['Icarus Verilog 12 executes the threads', 'mutexes are nested in one global order, as deadlock freedom requires'])
