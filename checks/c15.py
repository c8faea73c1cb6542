"""C15: FIFOs deliver every accepted item once, in order.

Oracle: a reference queue.  RTL interfaces are driven with random enq/deq patterns and every flag, count and data word is compared in
every cycle; thread programs with one thread are executed in Python on a model FIFO (exact results); programs with producers and
consumers are judged by the history they print (accepted = dequeued, in order, no deadlock).
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr
from checks.c14 import stim, hexval, Direct

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.thread as vthread
import veriloggen.types.fifo as tfifo
import veriloggen.types.fixed as fxd


# ---------------------------------------------------------------------------------------- interfaces, cycle by cycle
@spec
def rtl_case(d):
    kind = d.pick(['def', 'ext', 'extw', 'extr', 'connect', 'rtl', 'rtl', 'rtl', 'split'])
    aw = d.int(1, 5) if kind != 'rtl' else d.int(1, 4)
    dw = d.pick([1, 4, 8, 32, 33, 64])
    ne, nd = (d.int(1, 3), d.int(1, 3)) if kind == 'rtl' else (1, 1)
    seq = []
    phases = d.int(1, 5)
    for _ in range(phases):
        pe, pd = d.int(0, 4), d.int(0, 4)
        for _ in range(d.int(1, 2 ** aw + 4)):
            seq.append([[d.int(0, 3) < pe for _ in range(ne)], [d.int(0, 3) < pd for _ in range(nd)], [d.int(0, (1 << dw) - 1) for _ in range(ne)]])
    return dict(kind=kind, aw=aw, dw=dw, sync=d.int(0, 2) > 0, ne=ne, nd=nd, seq=seq, fixed=d.chance(4), always=d.chance(5), num=d.int(0, 3), rst=d.int(0, len(seq)) if d.chance(4) else -1)


def rtl_run(s):
    kind, aw, dw, sync = s['kind'], s['aw'], s['dw'], s['sync']
    ne, nd = s['ne'], s['nd']
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    outs = ['full', 'afull', 'empty', 'aempty', 'rdata']
    obs = {}
    cls = lambda **kw: (vthread.FixedFIFO(m, 'q', clk, rst, dw, aw, 0, sync, **kw) if s['fixed'] else
                        vthread.FIFO(m, 'q', clk, rst, dw, aw, sync, **kw))
    enq = [m.Input('enq%d' % i) for i in range(ne)] if kind not in ('ext', 'extw') else None
    wd = [m.Input('wd%d' % i, dw) for i in range(ne)] if kind not in ('ext', 'extw') else None
    deq = [m.Input('deq%d' % i) for i in range(nd)] if kind not in ('ext', 'extr') else None
    extra_o = []
    f = None

    def out(n, w, v):
        o = m.Output(n, w)
        o.assign(v)
        obs[n] = n
    rename = {}
    if kind == 'def':
        fd = tfifo.mkFifoDefinition('q', dw, aw, sync)
        o = [m.Output(n, dw if n == 'rdata' else None) for n in outs]
        m.Instance(fd, 'u', ports=[('CLK', clk), ('RST', rst), ('q_enq', enq[0]), ('q_wdata', wd[0]), ('q_full', o[0]), ('q_almost_full', o[1]),
                                   ('q_deq', deq[0]), ('q_rdata', o[4]), ('q_empty', o[2]), ('q_almost_empty', o[3])])
    else:
        ew, er = kind in ('ext', 'extw'), kind in ('ext', 'extr')
        f = cls(external_write=ew, external_read=er)
        if ew:
            rename.update(enq0='q_enq', wd0='q_wdata', full='q_full', afull='q_almost_full')
        elif kind == 'rtl':
            for i in range(ne):
                ack, ready = f.enq_rtl(wd[i], None if s['always'] and ne == 1 else enq[i])
                out('ack%d' % i, None, ack)
                out('eready%d' % i, None, ready)
                extra_o += ['ack%d' % i, 'eready%d' % i]
        else:
            f.connect_enq_rtl(enq[0], wd[0])
        if er:
            rename.update(deq0='q_deq', rdata='q_rdata', empty='q_empty', aempty='q_almost_empty')
        elif kind == 'rtl':
            for i in range(nd):
                data, valid, ready = f.deq_rtl(None if s['always'] and nd == 1 else deq[i])
                out('data%d' % i, dw, data)
                out('valid%d' % i, None, valid)
                out('dready%d' % i, None, ready)
                extra_o += ['data%d' % i, 'valid%d' % i, 'dready%d' % i]
        elif kind == 'split':
            ww = m.Wire('ww', dw)
            we = m.Wire('we')
            f.connect_deq_rtl(deq[0], ww, we)
            out('sd', dw, ww)
            out('se', None, we)
        else:
            f.connect_deq_rtl(deq[0])
        for n, a in zip(outs, ['full', 'almost_full', 'empty', 'almost_empty', 'rdata']):
            if n not in rename:
                out(n, dw if n == 'rdata' else None, getattr(f, a))
        out('count', 32, f.count)
        out('space', 32, f.space)
        hs = f.has_space(s['num'])
        out('has', None, hs if not isinstance(hs, bool) else vt.Int(int(hs)))
        extra_o += ['count', 'space', 'has']
    text = m.to_verilog()
    always_e = s['always'] and ne == 1 and kind == 'rtl'
    always_d = s['always'] and nd == 1 and kind == 'rtl'
    cap = 2 ** aw - 1
    q = []
    reg = 0
    pushed = popped = 0
    vec, want = [], []
    for c, (e, de, w) in enumerate(s['seq']):
        e = [1] if always_e else [int(x) for x in e]
        de = [1] if always_d else [int(x) for x in de]
        r = c == s['rst'] or (c == 0 and (always_e or always_d))
        # one enq and one deq site at a time
        if sum(e) > 1:
            k = e.index(1)
            e = [int(i == k) for i in range(ne)]
        if sum(de) > 1:
            k = de.index(1)
            de = [int(i == k) for i in range(nd)]
        vec.append(e + w + de + [int(r)])
        n = len(q)
        full, empty = n == cap, n == 0
        afull, aempty = n >= cap - 1, n <= 1
        st = dict(full=full, afull=afull, empty=empty, aempty=aempty)
        if kind != 'def':
            st.update(count=n, space=cap - n, has=True if s['num'] < 1 else n + s['num'] < cap)
        ready = not afull if kind == 'rtl' else not full
        do_e = any(e) and ready
        do_d = any(de) and not empty
        if kind == 'rtl':
            for i in range(ne):
                st['eready%d' % i] = not afull
            for i in range(nd):
                st['dready%d' % i] = not empty
        post = {}
        if not sync and not empty:
            st['rdata'] = q[0]
            for i in range(nd if kind == 'rtl' else 0):
                st['valid%d' % i] = bool(de[i]) and not empty
                st['data%d' % i] = q[0]
        if kind == 'rtl':
            for i in range(ne):
                post['ack%d' % i] = not afull and not r
            if sync:
                for i in range(nd):
                    post['valid%d' % i] = bool(de[i]) and do_d and not r
                    if de[i] and do_d and not r:
                        post['data%d' % i] = q[0]
        if do_d:
            v = q.pop(0)
            popped += 1
            if sync:
                reg = v
        if do_e:
            q.append(w[e.index(1)])
            pushed += 1
        if r:
            q, reg = [], 0
        if sync:
            post['rdata'] = reg
        want.append((st if c or not (always_e or always_d) else {}, post))
    ports = [('enq%d' % i, 1) for i in range(ne)] + [('wd%d' % i, dw) for i in range(ne)] + [('deq%d' % i, 1) for i in range(nd)] + [('R', 1)]
    names = outs + extra_o
    extra = ''.join('  wire [%d:0] %s;\n' % (63, n) for n in names)
    extra += '  dut d(.CLK(CLK), .RST(RST | R)%s);' % ''.join(', .%s(%s)' % (rename.get(n, n), n) for n in [x[0] for x in ports if x[0] != 'R'] + names)
    disp = '$display("%s", %s);' % (' '.join(['%h'] * len(names)), ', '.join(names))
    tb = stim(ports, vec, (disp, disp), extra)
    lines = [l.split() for l in sim.compile_and_run(text + tb, top='tb').splitlines() if l.strip()]
    if len(lines) != 2 * len(want):
        raise Violation('no output\n' + text)
    msk = lambda n: ((1 << dw) - 1) if n.startswith(('rdata', 'data')) else (1 << 32) - 1 if n in ('count', 'space') else 1

    def val(n, h):
        h = h.replace('z', '0')
        v = hexval(h) if 'x' not in h.lower() else None
        return None if v is None else v & msk(n)
    for c, (st, post) in enumerate(want):
        for phase, (exp, line) in enumerate([(st, lines[2 * c]), (post, lines[2 * c + 1])]):
            got = dict(zip(names, line))
            for n, v in exp.items():
                if val(n, got[n]) != int(v):
                    raise Violation('cycle %d %s the edge: %s is %s, expected %d (inputs %s)\nkind %s aw %d dw %d sync %s\n%s' % (
                        c, ['before', 'after'][phase], n, got[n], v, vec[:c + 1], kind, aw, dw, sync, text))
    return dict(nontrivial=pushed >= 2 and popped >= 2, labels=[kind, 'sync' if sync else 'async', 'aw%d' % aw])


# ---------------------------------------------------------------------------------------- thread programs
class Blocked(Exception):
    pass


class MFifo(object):
    """The FIFO as seen by threads: an enqueue of a thread needs two free words of the 2^n - 1."""

    def __init__(self, dw, aw, point=0):
        self.dw, self.aw, self.q = dw, aw, []
        self.cap = 2 ** aw - 1

    def lock(self): pass

    def unlock(self): pass

    def try_enq(self, v, raw=False):
        if len(self.q) >= self.cap - 1:
            return False
        self.q.append(thr.signed(int(v), self.dw))
        return True

    def enq(self, v, raw=False):
        if not self.try_enq(v):
            raise Blocked()

    def try_deq(self, raw=False):
        if not self.q:
            return 0, False
        return self.q.pop(0), True

    def deq(self, raw=False):
        if not self.q:
            raise Blocked()
        return self.q.pop(0)

    def is_empty(self): return not self.q
    def is_almost_empty(self): return len(self.q) <= 1
    def is_full(self): return len(self.q) >= self.cap
    def is_almost_full(self): return len(self.q) >= self.cap - 1
    count = property(lambda self: len(self.q))
    space = property(lambda self: self.cap - len(self.q))


@spec
def one_case(d):
    fifos = [dict(aw=d.int(2, 4), sync=d.int(0, 2) > 0, fixed=d.chance(4)) for _ in range(d.int(1, 2))]
    dw = d.pick([8, 16, 32, 5])

    def ops(depth):
        out = []
        for _ in range(d.int(1, 6)):
            k = d.pick(['enq', 'enq', 'deq', 'tenq', 'tdeq', 'tdeq', 'flag', 'drain', 'fill', 'loop', 'count', 'if', 'calc', 'dq2'])
            i = d.int(0, len(fifos) - 1)
            if k in ('loop',):
                if depth:
                    out.append([k, d.int(1, 5), ops(depth - 1)])
            elif k == 'if':
                if depth:
                    out.append([k, i, d.pick(['is_empty', 'is_full', 'is_almost_empty', 'is_almost_full']), ops(0), ops(0)])
            else:
                out.append([k, i, d.int(-9, 99), d.pick(['is_empty', 'is_full', 'is_almost_empty', 'is_almost_full']), d.bool()])
        return out
    return dict(fifos=fifos, dw=dw, ops=ops(2), point=d.int(0, 3))


def one_source(s):
    out = ['def build(F, make):']
    for i in range(len(s['fifos'])):
        out.append('    F%d = F[%d]' % (i, i))
    out.append('    def body():')
    e = lambda ind, x: out.append('    ' * (2 + ind) + x)
    e(0, 'x = 1')
    e(0, 'y = 2')
    e(0, 'i = 0')
    e(0, 'j = 0')

    def raw(i, first=False):
        return ('' if first else ', ') + 'raw=True' if s['fifos'][i]['fixed'] else ''

    def emit(ops, ind, depth):
        for op in ops or [['calc', 0]]:
            k, i = op[0], op[1]
            if k == 'enq':
                e(ind, 'if not F%d.is_almost_full():' % i)
                e(ind + 1, 'F%d.enq(x * 3 + %d%s)' % (i, op[2], raw(i)))
                e(ind, 'x += 1')
            elif k == 'tenq':
                e(ind, 'ok = F%d.try_enq(x + %d%s)' % (i, op[2], raw(i)))
                e(ind, 'x += 2')
                e(ind, 'if ok: print("Y", x)')
                e(ind, 'else: print("N", x)')
            elif k == 'deq':
                e(ind, 'if not F%d.is_empty():' % i)
                e(ind + 1, 'y = F%d.deq(%s)' % (i, raw(i, True)))
                e(ind + 1, 'print("D %d", y)' % i)
            elif k == 'tdeq':
                e(ind, 'v, ok = F%d.try_deq(%s)' % (i, raw(i, True)))
                e(ind, 'if ok:')
                e(ind + 1, 'y = v')
                e(ind + 1, 'print("D %d", v)' % i)
                e(ind, 'else: print("E %d")' % i)
            elif k == 'dq2':
                e(ind, 'if F%d.count >= 2:' % i)
                e(ind + 1, 'y = F%d.deq(%s) * 5 - F%d.deq(%s)' % (i, raw(i, True), i, raw(i, True)))
                e(ind + 1, 'print("DD %d", y)' % i)
            elif k == 'flag':
                e(ind, 'if %sF%d.%s(): print("f1")' % ('not ' if op[4] else '', i, op[3]))
                e(ind, 'else: print("f0")')
            elif k == 'drain':
                e(ind, 'while not F%d.is_empty():' % i)
                e(ind + 1, 'y = F%d.deq(%s)' % (i, raw(i, True)))
                e(ind + 1, 'print("R %d", y)' % i)
            elif k == 'fill':
                e(ind, 'while not F%d.is_almost_full():' % i)
                e(ind + 1, 'F%d.enq(x%s)' % (i, raw(i)))
                e(ind + 1, 'x += 1')
            elif k == 'count':
                e(ind, 'print("C", F%d.count, F%d.space)' % (i, i))
            elif k == 'calc':
                e(ind, 'x = x + y')
            elif k == 'loop':
                v = 'ij'[min(1, depth)]
                e(ind, 'for %s in range(%d):' % (v, i))
                emit(op[2], ind + 1, depth + 1)
            elif k == 'if':
                e(ind, 'if F%d.%s():' % (i, op[2]))
                emit(op[3], ind + 1, depth + 1)
                e(ind, 'else:')
                emit(op[4], ind + 1, depth + 1)
                e(ind, 'print("x", x)')
    emit(s['ops'], 0, 0)
    e(0, 'print("end", x, y)')
    out.append('    make(0, body).start()')
    return '\n'.join(out) + '\n'


def mkfifos(m, clk, rst, s):
    hw = []
    for i, f in enumerate(s['fifos']):
        if f['fixed']:
            hw.append(vthread.FixedFIFO(m, 'f%d' % i, clk, rst, s['dw'], f['aw'], s['point'], f['sync']))
        else:
            hw.append(vthread.FIFO(m, 'f%d' % i, clk, rst, s['dw'], f['aw'], f['sync']))
    return hw


def one_run(s):
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    hw = mkfifos(m, clk, rst, s)
    src = one_source(s)
    I = thr.make_int(32)
    ns, path = thr.load(src, {})
    want = []
    try:
        ns['build'](hw, lambda t, b: vthread.Thread(m, 'th%d' % t, clk, rst, b))
        text = m.to_verilog()

        def pr(*a):
            want.append(' '.join(str(int(x)) if not isinstance(x, str) else x for x in a))
        ns['print'] = pr
        models = [MFifo(s['dw'], f['aw']) for f in s['fifos']]
        ns['build'](models, lambda t, b: Direct(b))
    finally:
        thr.unload(path)
    want = [' '.join(w.split()) for w in want]
    tb = thr.TB % (600 + 60 * len(want) + 2000, 'dut d(.CLK(CLK), .RST(RST));\n  always @(posedge CLK) if(d.th0 == %d) $finish(0);' % 1000000)
    got = [' '.join(l.split()) for l in sim.compile_and_run(text + tb, top='tb').splitlines()]
    got = [g for g in got if g and 'TIMEOUT' not in g]
    norm = lambda l: [' '.join(str(thr.signed(int(t), 32)) if t.lstrip('-').isdigit() else t for t in x.split()) for x in l]
    if norm(got) != norm(want):
        i = next((i for i, (a, b) in enumerate(zip(norm(got), norm(want))) if a != b), min(len(got), len(want)))
        raise Violation('line %d is %s, the queue gives %s\n%s\n%s' % (i, got[i:i + 1], want[i:i + 1], got[:i + 1], src))
    return dict(nontrivial=len([w for w in want if w[0] in 'DR']) >= 2,
                labels=['n%d' % len(s['fifos'])] + ['sync' if f['sync'] else 'async' for f in s['fifos']] + ['fixed'] * any(f['fixed'] for f in s['fifos']))


# ---------------------------------------------------------------------------------------- producers and consumers
@spec
def many_case(d):
    nf = d.int(1, 2)
    fifos = [dict(aw=d.int(2, 4), sync=d.int(0, 2) > 0, fixed=d.chance(5)) for _ in range(nf)]
    ths = []
    for f in range(nf):
        np_, nc = d.pick([1, 1, 2, 3]), d.pick([1, 1, 2, 3])
        for i in range(np_):
            ths.append(dict(f=f, prod=True, lock=np_ > 1 or d.chance(4), segs=[[d.pick(['enq', 'try', 'tryonce']), d.int(1, 7), d.int(0, 12)]
                                                                             for _ in range(d.int(1, 4))], start=d.int(0, 20)))
        for i in range(nc):
            ths.append(dict(f=f, prod=False, lock=nc > 1 or d.chance(4), segs=[[d.pick(['try', 'try', 'poll', 'deq']), d.int(1, 7), d.int(0, 12)]
                                                                              for _ in range(d.int(1, 4))], start=d.int(0, 20), both=d.chance(3)))
    return dict(fifos=fifos, ths=ths, dw=d.pick([16, 32]), point=d.int(0, 3))


def many_source(s):
    out = ['def build(F, make):']
    for i in range(len(s['fifos'])):
        out.append('    F%d = F[%d]' % (i, i))
    supply = [0] * len(s['fifos'])
    for t in s['ths']:
        if t['prod']:
            supply[t['f']] += sum(g[1] for g in t['segs'] if g[0] != 'tryonce')
    for t, th in enumerate(s['ths']):
        f = th['f']
        raw = 'raw=True' if s['fifos'][f]['fixed'] else ''
        craw = ', ' + raw if raw else ''
        out.append('    def body%d():' % t)
        e = lambda ind, x: out.append('    ' * (2 + ind) + x)
        L = (lambda ind: e(ind, 'F%d.lock()' % f)) if th['lock'] else (lambda ind: None)
        shared = len([x for x in s['ths'] if x['f'] == f and x['lock']])

        def U(ind):
            # the lock is not fair: leave it alone for a while after each use
            if th['lock']:
                e(ind, 'F%d.unlock()' % f)
                e(ind, 'for w in range(%d): pass' % (12 * shared - 10))
        e(0, 'for w in range(%d): pass' % th['start'])
        e(0, 'n = %d' % (t * 1000))
        e(0, 'k = 0')
        for g in th['segs']:
            if th['prod']:
                e(0, 'for i in range(%d):' % g[1])
                if g[0] == 'enq' and not th['lock']:
                    e(1, 'F%d.enq(n%s)' % (f, craw))
                    e(1, 'print("A", %d, n)' % t)
                elif g[0] == 'tryonce':
                    L(1)
                    e(1, 'ok = F%d.try_enq(n%s)' % (f, craw))
                    e(1, 'if ok: print("A", %d, n)' % t)
                    U(1)
                else:
                    e(1, 'ok = False')
                    e(1, 'while not ok:')
                    L(2)
                    e(2, 'ok = F%d.try_enq(n%s)' % (f, craw))
                    e(2, 'if ok: print("A", %d, n)' % t)
                    U(2)
                e(1, 'n += 1')
                e(1, 'for w in range(%d): pass' % g[2])
            else:
                cnt = min(g[1], supply[f])
                supply[f] -= cnt
                e(0, 'for i in range(%d):' % cnt)
                if g[0] == 'deq' and not th['lock']:
                    e(1, 'v = F%d.deq(%s)' % (f, raw))
                    e(1, 'print("B", %d, v)' % t)
                elif g[0] == 'poll':
                    e(1, 'ok = False')
                    e(1, 'while not ok:')
                    L(2)
                    e(2, 'if not F%d.is_empty():' % f)
                    e(3, 'v = F%d.deq(%s)' % (f, raw))
                    e(3, 'print("B", %d, v)' % t)
                    e(3, 'ok = True')
                    U(2)
                else:
                    e(1, 'ok = False')
                    e(1, 'while not ok:')
                    L(2)
                    e(2, 'v, ok = F%d.try_deq(%s)' % (f, raw))
                    e(2, 'if ok: print("B", %d, v)' % t)
                    U(2)
                e(1, 'for w in range(%d): pass' % g[2])
        e(0, 'print("Z", %d, 0)' % t)
        if not th['prod'] and all(x is th or x['prod'] or x['f'] != f for x in s['ths'][t:]):
            # the last consumer takes the rest
            e(0, 'while True:')
            L(1)
            e(1, 'v, ok = F%d.try_deq(%s)' % (f, raw))
            e(1, 'if ok: print("B", %d, v)' % t)
            U(1)
    for t in range(len(s['ths'])):
        out.append('    make(%d, body%d).start()' % (t, t))
    return '\n'.join(out) + '\n'


def many_run(s):
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    hw = mkfifos(m, clk, rst, s)
    src = many_source(s)
    ns, path = thr.load(src, {})
    try:
        ns['build'](hw, lambda t, b: vthread.Thread(m, 'th%d' % t, clk, rst, b))
        text = m.to_verilog()
    finally:
        thr.unload(path)
    nt = len(s['ths'])
    tb = thr.TB % (4000 + nt * 3000, 'dut d(.CLK(CLK), .RST(RST));\n')
    got = [l.split() for l in sim.compile_and_run(text + tb, top='tb').splitlines()]
    done = set()
    acc = [[] for _ in s['fifos']]
    dq = [[] for _ in s['fifos']]
    for l in got:
        if l[0] not in 'ABZ' or len(l) != 3:
            continue
        t = int(l[1])
        f = s['ths'][t]['f']
        if l[0] == 'Z':
            done.add(t)
        elif l[0] == 'A':
            acc[f].append(int(l[2]))
        else:
            dq[f].append(int(l[2]))
    info = 'accepted %s\ndequeued %s\n%s' % (acc, dq, src)
    for f in range(len(s['fifos'])):
        prods = [t for t, x in enumerate(s['ths']) if x['prod'] and x['f'] == f]
        cons = [t for t, x in enumerate(s['ths']) if not x['prod'] and x['f'] == f]
        if sorted(acc[f]) != sorted(dq[f]):
            raise Violation('FIFO %d: %d items accepted, %d dequeued: lost %s, invented or doubled %s\n%s' % (
                f, len(acc[f]), len(dq[f]), [x for x in acc[f] if x not in dq[f]], [x for x in dq[f] if dq[f].count(x) > acc[f].count(x)], info))
        if (len(prods) == 1 and len(cons) == 1) and acc[f] != dq[f]:
            raise Violation('FIFO %d delivers in another order\n%s' % (f, info))
        if len(cons) == 1:
            for p in prods:
                if [x for x in dq[f] if x // 1000 == p] != [x for x in acc[f] if x // 1000 == p]:
                    raise Violation('FIFO %d delivers the items of thread %d in another order\n%s' % (f, p, info))
    # the last consumer may take the items that another consumer waits for
    need = [t for t, x in enumerate(s['ths']) if x['prod'] or all(y['prod'] or y['f'] != x['f'] for y in s['ths'][t + 1:])]
    if any(t not in done for t in need):
        raise Violation('threads %s do not finish\n%s' % ([t for t in need if t not in done], info))
    return dict(nontrivial=any(len(x) >= 4 for x in dq), labels=['t%d' % nt, 'f%d' % len(s['fifos'])] + ['lock'] * any(x['lock'] for x in s['ths']))


PARTS = [Part('rtl', rtl_case(), rtl_run, quick=700, thorough=25000),
         Part('one', one_case(), one_run, quick=350, thorough=12000),
         Part('many', many_case(), many_run, quick=200, thorough=8000)]

if __name__ == '__main__':
    main('C15', PARTS,
         rule='FIFOs of 1-31 words and 1-64 bits, synchronous and asynchronous read, external or internal interfaces, several RTL sites, '
              'random phases of enqueue and dequeue pressure, thread programs on 1-2 FIFOs, 1-3 producers and consumers; non-trivial = at least '
              'two words through the FIFO (four with several threads)',
         assumptions=['Icarus Verilog 12 executes the FIFOs', 'one enqueue and one dequeue site at a time (threads use the lock)'])
