"""C14: on-chip memories behave as arrays.

Oracle: a reference array per memory.  RTL ports are driven with random access sequences and compared cycle by cycle; thread
programs are executed in Python on model memories and the printed values are compared; bursts are compared as value sequences.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.thread as vthread
import veriloggen.types.ram as tram
import veriloggen.types.rom as trom


def stim(ports, vectors, sample, extra=''):
    """Testbench text: drives ports (name, width) at negedge with the vectors, prints the sampled expressions before the next one."""
    t = ['module tb;', '  reg CLK, RST;', '  initial begin CLK = 0; forever #5 CLK = !CLK; end']
    for n, w in ports:
        t.append('  reg [%d:0] %s;' % (w - 1, n))
    t.append(extra)
    t.append('  initial begin')
    t.append('    RST = 1;' + ''.join(' %s = 0;' % n for n, w in ports))
    t.append('    repeat(4) @(negedge CLK); RST = 0; @(negedge CLK);')
    for v in vectors:
        t.append('   ' + ''.join(' %s = %d\'d%d;' % (n, w, x & ((1 << w) - 1)) for (n, w), x in zip(ports, v)))
        t.append('    #4 %s @(negedge CLK); %s' % (sample[0], sample[1]))
    t.append('    $finish(0);')
    t.append('  end')
    t.append('endmodule')
    return '\n'.join(t) + '\n'


def hexval(x):
    return None if set(x) & set('xXzZ') else int(x, 16)


# ---------------------------------------------------------------------------------------- RTL RAM
@spec
def rtl_case(d):
    np_ = d.int(1, 4)
    aw = d.pick([1, 2, 2, 3, 4, 5])
    dw = d.pick([1, 2, 8, 8, 13, 32, 33, 64])
    init = None
    if d.bool():
        n = d.pick([2 ** aw, d.int(1, 2 ** aw)])
        init = [d.pick([0, 1, d.int(0, (1 << dw) - 1), -d.int(0, 1 << (dw - 1))]) for _ in range(n)]
    seq = []
    for _ in range(d.int(8, 40)):
        seq.append([[d.int(0, 3) > 0, d.chance(2), d.int(0, 2 ** aw - 1) if d.bool() else d.int(0, min(2, 2 ** aw - 1)),
                     d.int(0, (1 << dw) - 1)] for _ in range(np_)])
    return dict(np=np_, aw=aw, dw=dw, init=init, sync=d.int(0, 2) > 0, en=d.bool(), kind=d.pick(['def', 'class', 'class']),
                iform=d.pick(['list', 'tuple', 'int', 'hex', 'bin', 'nocheck']), share=d.bool(), seq=seq, style=d.chance(5))


@spec
def con_case(d):
    # the memories of the thread library wired to RTL signals
    kind = d.pick(['ram', 'multi', 'multi', 'packed'])
    banks = 1 if kind == 'ram' else d.pick([2, 4, 8]) if kind == 'multi' else d.pick([2, 4])
    baw = d.int(1, 3)
    aw = baw + (banks.bit_length() - 1)
    np_ = d.int(1, 3)
    dw = d.pick([1, 2, 8, 8, 13, 32, 33])
    init = None
    if kind == 'ram' and d.bool():
        init = [d.pick([0, 1, d.int(0, (1 << dw) - 1), -d.int(0, 1 << (dw - 1))]) for _ in range(d.int(1, 2 ** aw))]
    # what is connected to a port: both directions, reading only, writing only, nothing
    ways = [d.pick(['rw', 'rw', 'r', 'w']) for _ in range(np_)]
    if 'rw' not in ways:
        ways[0] = 'rw'
    seq = []
    for _ in range(d.int(10, 50)):
        seq.append([[d.int(0, 2) > 0, d.chance(2), d.int(0, 2 ** aw - 1) if d.bool() else d.int(0, min(3, 2 ** aw - 1)),
                     d.int(0, (1 << dw) - 1)] for _ in range(np_)])
    return dict(np=np_, aw=aw, baw=baw, banks=banks, dw=dw, init=init, sync=True, en=True, kind=kind, iform='list', share=False, seq=seq,
                style=d.chance(5), ways=ways)


def initvals(s):
    if s['init'] is None:
        return None
    v = s['init']
    if s['iform'] == 'tuple':
        return tuple(v)
    if s['iform'] == 'int':
        return [vt.Int(x) if k % 2 else x for k, x in enumerate(v)]
    if s['iform'] == 'hex':
        return [vt.Int(abs(x), width=70, base=16) if x >= 0 else x for x in v]
    if s['iform'] == 'bin':
        return [vt.Int("%d'b%s" % (s['dw'], bin(x & ((1 << s['dw']) - 1))[2:])) for x in v]
    return list(v)


def rtl_run(s):
    dw, aw, np_ = s['dw'], s['aw'], s['np']
    mask = (1 << dw) - 1
    m = Module('dut')
    clk = m.Input('CLK')
    iv = initvals(s)
    before = None if iv is None else (list(iv), len(iv))
    kind = s['kind']
    if kind == 'def' and s['iform'] == 'nocheck' and iv is not None and any(x < 0 for x in s['init']):
        kind = 'class'
    ins = []
    outs = []
    for p in range(np_):
        ins.append([m.Input('addr%d' % p, aw), m.Input('wdata%d' % p, dw), m.Input('we%d' % p), m.Input('en%d' % p)])
        outs.append(m.Output('rdata%d' % p, dw))
    ways = s.get('ways')
    if ways is not None:
        rst = m.Wire('RST')
        rst.assign(0)
        st = '(* ram_style = "block" *)' if s['style'] else None
        if kind == 'ram':
            r = vthread.RAM(m, 'ram', clk, rst, dw, aw, numports=np_, initvals=iv, ram_style=st)
        elif kind == 'multi':
            r = vthread.MultibankRAM(m, 'ram', clk, rst, dw, s['baw'], numports=np_, numbanks=s['banks'], ram_style=st)
        else:
            r = vthread.to_multibank_ram([vthread.RAM(m, 'ram%d' % k, clk, rst, dw, s['baw'], numports=np_, ram_style=st) for k in range(s['banks'])])
        for p in range(np_):
            a, w, we, en = ins[p]
            kw = {}
            if 'w' in ways[p]:
                kw.update(wdata=w, wenable=we)
            if 'r' in ways[p]:
                kw.update(rdata=outs[p])
            else:
                outs[p].assign(0)
            r.connect_rtl(p, a, enable=en, **kw)
    elif kind == 'class':
        cls = tram.SyncRAM if s['sync'] else tram.AsyncRAM
        r = cls(m, 'ram', clk, datawidth=dw, addrwidth=aw, numports=np_, initvals=iv, with_enable=s['en'])
        if s['share'] and iv is not None:
            # the same list describes a second, smaller memory
            r2 = cls(m, 'ram_b', clk, datawidth=dw, addrwidth=aw + 1, numports=1, initvals=iv, with_enable=s['en'])
            r2.connect(0, 0, 0, 0, 0) if s['en'] else r2.connect(0, 0, 0, 0)
        for p in range(np_):
            a, w, we, en = ins[p]
            if s['en']:
                r.connect(p, a, w, we, en)
            else:
                r.connect(p, a, w, we)
            outs[p].assign(r.rdata(p))
    else:
        df = tram.mkRAMDefinition('ram', dw, aw, np_, iv, s['sync'], s['en'], nocheck_initvals=s['iform'] == 'nocheck' and iv is not None,
                                  ram_style='(* ram_style = "block" *)' if s['style'] else None)
        ports = [('CLK', clk)]
        for p in range(np_):
            a, w, we, en = ins[p]
            ports += [('ram_%d_addr' % p, a), ('ram_%d_rdata' % p, outs[p]), ('ram_%d_wdata' % p, w), ('ram_%d_wenable' % p, we)]
            if s['en']:
                ports.append(('ram_%d_enable' % p, en))
        m.Instance(df, 'inst', ports=ports)
    text = m.to_verilog()
    if before is not None and (len(iv) != before[1] or any(x is not y for x, y in zip(iv, before[0]))):
        raise Violation('the list of initial values given by the user is modified: %d values became %d' % (before[1], len(iv)))
    ports = []
    for p in range(np_):
        ports += [('addr%d' % p, aw), ('wdata%d' % p, dw), ('we%d' % p, 1), ('en%d' % p, 1)]
    vec, want = [], []
    mem = [None] * 2 ** aw
    if s['init'] is not None:
        mem = [0] * 2 ** aw
        for i, v in enumerate(s['init']):
            mem[i] = v & mask
    out = [None] * np_
    writes = 0
    for row in s['seq']:
        used = set()
        line = []
        old = list(mem)
        comb = []
        for p, (en, we, a, w) in enumerate(row):
            if not s['en']:
                en = True
            drive = we
            if ways is not None and 'w' not in ways[p]:
                we = False
            if we and en and a in used:
                we = False
            if we and en:
                used.add(a)
            line += [a, w, int(we if ways is None or 'w' in ways[p] else drive), int(en)]
            comb.append(old[a])
            if en:
                if we:
                    writes += 1
                    mem[a] = w
                    out[p] = w
                else:
                    out[p] = old[a]
        vec.append(line)
        want.append(comb if not s['sync'] else [x if ways is None or 'r' in ways[p] else None for p, x in enumerate(out)])
    # the asynchronous value is sampled before the clock edge, the synchronous one after it
    disp = '$display("%s", %s);' % (' '.join(['%h'] * np_), ', '.join('rdata%d' % p for p in range(np_)))
    extra = ''.join('  wire [%d:0] rdata%d;\n' % (dw - 1, p) for p in range(np_))
    extra += '  dut d(.CLK(CLK)%s);' % ''.join(', .%s(%s)' % (n, n) for n in [x[0] for x in ports] + ['rdata%d' % p for p in range(np_)])
    tb = stim(ports, vec, (disp, '') if not s['sync'] else ('', disp), extra)
    got = [[hexval(x) for x in l.split()] for l in sim.compile_and_run(text + tb, top='tb').splitlines() if l.strip()]
    if len(got) != len(want):
        raise Violation('no output\n' + text)
    for c, (g, w) in enumerate(zip(got, want)):
        for p in range(np_):
            if w[p] is not None and g[p] != w[p]:
                raise Violation('cycle %d port %d reads %s, the array holds %s\naccesses: %s\n%s' % (c, p, g[p], w[p], vec[:c + 1], text))
    return dict(nontrivial=writes > 2, labels=[kind, 'sync' if s['sync'] else 'async', 'p%d' % np_] + ['init'] * (s['init'] is not None) +
                ['en'] * s['en'])


# ---------------------------------------------------------------------------------------- ROM
@spec
def rom_case(d):
    dw = d.pick([1, 4, 8, 16, 40])
    n = d.pick([1, 2, 3, 4, 5, 8, d.int(1, 33)])
    vals = [d.pick([0, d.int(0, (1 << dw) - 1), d.int(0, (1 << dw) - 1), -d.int(0, 1 << (dw - 1))]) for _ in range(n)]
    sync = d.bool()
    return dict(vals=vals, dw=dw if d.bool() else None, sync=sync, en=sync and d.bool(), form=d.pick(['int', 'Int', 'sized']), w0=dw,
                seq=[[d.int(0, n - 1), d.int(0, 3) > 0] for _ in range(d.int(5, 30))], expr=d.chance(3))


def rom_run(s):
    vals = s['vals']
    n = len(vals)
    aw = max(1, (n - 1).bit_length())
    m = Module('dut')
    clk = m.Input('CLK')
    addr = m.Input('addr', aw)
    en = m.Input('en')
    # what a caller may pass as values
    if s['form'] == 'int' or any(v < 0 for v in vals):
        vs = list(vals)
    elif s['form'] == 'Int':
        vs = [vt.Int(v, width=s['w0']) for v in vals]
    else:
        vs = [vt.Int(v, width=s['w0'], base=16) if k % 2 else v for k, v in enumerate(vals)]
    a = addr if not s['expr'] else vt.Mux(en, addr, addr)
    if s['sync']:
        r = trom.SyncROM(m, 'rom', clk, a, vs, enable=en if s['en'] else None, datawidth=s['dw'])
    else:
        r = trom.AsyncROM(m, 'rom', a, vs, datawidth=s['dw'])
    w = s['dw'] or r.rdata.width
    o = m.Output('o', 64)
    o.assign(vt.Cat(vt.Repeat(vt.Int(0, width=1), 64 - w), r.rdata))
    text = m.to_verilog()
    if s['dw'] is None and any(v.bit_length() > w for v in vals):
        raise Violation('the automatic width %s of the ROM does not hold its values %s' % (w, vals))
    mask = (1 << w) - 1
    want = []
    cur = None
    for i, e in s['seq']:
        if not s['en'] or e:
            cur = vals[i] & mask
        want.append(cur)
    tb = stim([('addr', aw), ('en', 1)], [[i, int(e)] for i, e in s['seq']],
              ('', '$display("%h", o);') if s['sync'] else ('$display("%h", o);', ''),
              '  wire [63:0] o; dut d(.CLK(CLK), .addr(addr), .en(en), .o(o));')
    got = [hexval(l.split()[0]) for l in sim.compile_and_run(text + tb, top='tb').splitlines() if l.strip()]
    if s['sync'] is False:
        pass
    if len(got) != len(want) or any(w_ is not None and g != w_ for g, w_ in zip(got, want)):
        raise Violation('ROM of %s: reads of %s give %s, expected %s\n%s' % (vals, s['seq'], got, want, text))
    return dict(nontrivial=len(set(vals)) > 1, labels=['sync' if s['sync'] else 'async', 'en' if s['en'] else 'noen',
                                                       'auto' if s['dw'] is None else 'dw', 'n1' if n == 1 else 'n'])


# ---------------------------------------------------------------------------------------- thread programs
class MRam(object):
    """Model memory with the thread interface."""

    def __init__(self, dw, aw, init=None):
        self.dw, self.aw = dw, aw
        self.mem = [0] * 2 ** aw
        for i, v in enumerate(init or []):
            self.mem[i] = v & ((1 << dw) - 1)

    def get(self, a):
        return thr.signed(self.mem[a], self.dw)

    def put(self, a, v):
        self.mem[a] = int(v) & ((1 << self.dw) - 1)

    def read(self, addr, port=0, raw=True):
        return self.get(int(addr))

    def write(self, addr, wdata, port=0, raw=True):
        self.put(int(addr), wdata)

    def lock(self):
        pass

    def unlock(self):
        pass


class MBank(MRam):
    def __init__(self, rams):
        self.rams = rams
        self.dw = rams[0].dw

    def get(self, a):
        return self.rams[a % len(self.rams)].get(a // len(self.rams))

    def put(self, a, v):
        self.rams[a % len(self.rams)].put(a // len(self.rams), v)

    def read_bank(self, bank, addr, port=0):
        return self.rams[int(bank)].get(int(addr))

    def write_bank(self, bank, addr, wdata, port=0):
        self.rams[int(bank)].put(int(addr), wdata)


@spec
def th_case(d):
    nt = d.int(1, 3)
    dw = d.pick([8, 16, 32, 32, 5])
    kinds = []
    for _ in range(d.int(1, 3)):
        kinds.append(d.pick(['ram', 'ram', 'fixed', 'multi', 'multi', 'packed', 'packedh', 'multi3']))
    mems = []
    for k in kinds:
        nb = d.pick([2, 4]) if k in ('multi', 'packed', 'packedh') else 3 if k == 'multi3' else 1
        aw = d.int(2, 4)
        init = None
        if k in ('ram', 'fixed', 'packed') and d.bool():
            init = [d.int(-(1 << (dw - 1)), (1 << (dw - 1)) - 1) for _ in range(d.int(1, 2 ** aw))]
        mems.append(dict(kind=k, nb=nb, aw=aw, init=init))
    # port use: every thread its own port, or all threads one port under the lock
    own = d.bool()
    threads = []
    for t in range(nt):
        def ops(depth):
            out = []
            for _ in range(d.int(1, 5)):
                k = d.int(0, 9)
                i = d.int(0, len(mems) - 1)
                e = [d.pick(['i', 'j', 'x', d.int(0, 30), d.int(0, 30)]), d.int(0, 5), d.int(1, 3)]
                if k <= 3:
                    out.append(['w', i, e, [d.pick(['x', 'i', 'y', d.int(-200, 200)]), d.int(-3, 3), d.int(-9, 9)], d.bool()])
                elif k <= 6:
                    out.append(['r', i, e, d.pick(['x', 'y']), d.bool()])
                elif k == 7:
                    out.append(['rmw', i, e])
                elif k == 8 and depth:
                    out.append(['loop', d.int(1, 5), ops(depth - 1)])
                elif k == 9:
                    out.append(['if', d.pick(['x > y', 'x & 1', 'y < 3']), ops(0)])
                else:
                    out.append(['calc'])
            return out
        threads.append(ops(2))
    return dict(nt=nt, dw=dw, mems=mems, own=own, threads=threads, point=d.int(0, 4), dump=d.bool(), extra_ports=d.int(0, 1))


def th_source(s):
    out = ['def build(R, make):']
    for i in range(len(s['mems'])):
        out.append('    R%d = R[%d]' % (i, i))
    nt = s['nt']
    for t in range(nt):
        out.append('    def body%d():' % t)
        e = lambda ind, x: out.append('    ' * (2 + ind) + x)
        e(0, 'i = 0')
        e(0, 'j = 1')
        e(0, 'x = %d' % (t * 7))
        e(0, 'y = 3')
        port = t if s['own'] else 0
        lock = not s['own'] and nt > 1
        cnt = [0]

        def region(i, ex):
            """(bank, addr) or (None, flat) source inside the part of memory i that belongs to thread t."""
            mm = s['mems'][i]
            n = 2 ** mm['aw'] // 4 * (2 if mm['kind'] == 'packedh' else 1)             # rows per thread
            v = '(%s * %d + %d)' % (ex[0], ex[2], ex[1])
            if mm['nb'] == 1:
                return None, '%d + (%s & %d)' % (t * n, v, n - 1)
            row = '%d + (%s & %d)' % (t * n, v, n - 1)
            if mm['nb'] == 3:
                return d3(v), row
            if ex[1] & 1:
                return '(%s >> 1) & %d' % (v, mm['nb'] - 1), row
            return None, '%d + (%s & %d)' % (t * n * mm['nb'], v, n * mm['nb'] - 1)

        def d3(v):
            return '((%s & 1) + ((%s >> 1) & 1))' % (v, v)

        def pa(kw):
            return (', port=%d' if kw else ', %d') % port if port or kw else ''

        def fixed(i):
            return ', raw=True' if s['mems'][i]['kind'] == 'fixed' else ''

        def emit(ops, ind):
            for op in ops:
                k = op[0]
                if k in ('w', 'r', 'rmw') and lock:
                    e(ind, 'R%d.lock()' % op[1])
                if k == 'w':
                    b, a = region(op[1], op[2])
                    val = '(%s * %d + %d)' % (op[3][0], op[3][1], op[3][2])
                    if b is None:
                        e(ind, 'R%d.write(%s, %s%s%s)' % (op[1], a, val, pa(op[4]), fixed(op[1]) if op[4] or not port else ', raw=True' if fixed(op[1]) else ''))
                    else:
                        e(ind, 'R%d.write_bank(%s, %s, %s%s)' % (op[1], b, a, val, pa(op[4])))
                elif k == 'r':
                    b, a = region(op[1], op[2])
                    if b is None:
                        e(ind, '%s = R%d.read(%s%s%s)' % (op[3], op[1], a, pa(op[4]), fixed(op[1])))
                    else:
                        e(ind, '%s = R%d.read_bank(%s, %s%s)' % (op[3], op[1], b, a, pa(op[4])))
                    e(ind, 'print("T%d %%d" %% %s)' % (t, op[3]))
                elif k == 'rmw':
                    b, a = region(op[1], op[2])
                    if b is None:
                        e(ind, 'R%d.write(%s, R%d.read(%s%s%s) + 1%s%s)' % (op[1], a, op[1], a, pa(True), fixed(op[1]), pa(True), fixed(op[1])))
                    else:
                        e(ind, 'R%d.write_bank(%s, %s, R%d.read_bank(%s, %s%s) + 1%s)' % (op[1], b, a, op[1], b, a, pa(True), pa(True)))
                elif k == 'loop':
                    cnt[0] += 1
                    v = d_loop(ind)
                    e(ind, 'for %s in range(%d):' % (v, op[1]))
                    emit(op[2], ind + 1)
                    e(ind, '%s = %d' % (v, 2))
                elif k == 'if':
                    e(ind, 'if %s:' % op[1])
                    emit(op[2], ind + 1)
                else:
                    e(ind, 'x = x + y * 3')
                if k in ('w', 'r', 'rmw') and lock:
                    e(ind, 'R%d.unlock()' % op[1])

        def d_loop(ind):
            return 'i' if ind == 0 else 'j'
        emit(s['threads'][t], 0)
        e(0, 'print("T%d done %%d %%d" %% (x, y))' % t)
    out.append('    bodies = [%s]' % ', '.join('body%d' % t for t in range(nt)))
    out.append('    for t, b in enumerate(bodies): make(t, b).start()')
    return '\n'.join(out) + '\n'


class Direct(object):
    def __init__(self, body):
        self.start = body


def th_run(s):
    dw = s['dw']
    nt = s['nt']
    np_ = (nt if s['own'] else 1) + s['extra_ports']
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    hw, mod = [], []
    for i, mm in enumerate(s['mems']):
        k, aw = mm['kind'], mm['aw']
        nm = 'mem%d' % i
        kw = dict(datawidth=dw, addrwidth=aw, numports=np_)
        if k == 'ram':
            hw.append(vthread.RAM(m, nm, clk, rst, initvals=mm['init'], **kw))
            mod.append(MRam(dw, aw, mm['init']))
        elif k == 'fixed':
            hw.append(vthread.FixedRAM(m, nm, clk, rst, point=s['point'], initvals=mm['init'], noconvert_initvals=True, **kw))
            mod.append(MRam(dw, aw, mm['init']))
        elif k in ('multi', 'multi3'):
            hw.append(vthread.MultibankRAM(m, nm, clk, rst, numbanks=mm['nb'], **kw))
            mod.append(MBank([MRam(dw, aw) for _ in range(mm['nb'])]))
        elif k == 'packed':
            rams = [vthread.RAM(m, '%s_%d' % (nm, b), clk, rst, initvals=mm['init'], **kw) for b in range(mm['nb'])]
            hw.append(vthread.to_multibank_ram(rams, nm))
            mod.append(MBank([MRam(dw, aw, mm['init']) for _ in range(mm['nb'])]))
        else:
            # a bank of banks
            inner = [vthread.MultibankRAM(m, '%s_%d' % (nm, b), clk, rst, numbanks=2, datawidth=dw, addrwidth=aw, numports=np_)
                     for b in range(mm['nb'])]
            hw.append(vthread.to_multibank_ram(inner, nm, keep_hierarchy=True))
            mod.append(MBank([MBank([MRam(dw, aw) for _ in range(2)]) for _ in range(mm['nb'])]))
    # contents of memories without initial values: written by every thread in its own part first
    src = th_source(s)
    pre = []
    for t in range(nt):
        pre.append([])
        port = t if s['own'] else 0
        for i, mm in enumerate(s['mems']):
            n = 2 ** mm['aw'] // 4
            if mm['init'] is None or mm['kind'] not in ('ram', 'fixed', 'packed'):
                rows = n * (2 if mm['kind'] == 'packedh' else 1)
                if mm['nb'] == 1:
                    pre[t].append('for i in range(%d): R%d.write(%d + i, i * 5 + %d, %d%s)' % (
                        n, i, t * n, t, port, ', raw=True' if mm['kind'] == 'fixed' else ''))
                else:
                    pre[t].append('for i in range(%d): R%d.write_bank(%%d, %d + i, i * 5 + %d, %d)' % (rows, i, t * rows, t, port))
    lines = src.split('\n')
    res = []
    for l in lines:
        res.append(l)
        if l.strip().startswith('def body'):
            t = int(l.strip()[8:l.strip().index('(')])
            for i, mm in enumerate(s['mems']):
                for p in pre[t]:
                    if (' R%d.' % i) not in p:
                        continue
                    for b in range(mm['nb'] if '%d' in p else 1):
                        h, tail = (p % b if '%d' in p else p).split(': ', 1)
                        if not s['own'] and nt > 1:
                            res += ['        R%d.lock()' % i]
                        res += ['        ' + h + ':', '            ' + tail]
                        if not s['own'] and nt > 1:
                            res += ['        R%d.unlock()' % i]
    src = '\n'.join(res)
    ns, path = thr.load(src, {})
    want = []
    try:
        ns['build'](hw, lambda t, b: vthread.Thread(m, 'th%d' % t, clk, rst, b))
        text = m.to_verilog()
        ns['print'] = lambda *a: want.append(' '.join(map(str, a)))
        ns['build'](mod, lambda t, b: Direct(b))
    finally:
        thr.unload(path)
    want = [' '.join(w.split()) for w in want]
    tb = thr.TB % (20000, 'dut d(.CLK(CLK), .RST(RST));\n')
    # stop when all threads are done: counted from the output
    nops = len(want)
    tb = thr.TB % (1500 + 700 * nt + 60 * nops * nt + 400 * len(src) // 100, 'dut d(.CLK(CLK), .RST(RST));\n')
    got = [' '.join(l.split()) for l in sim.compile_and_run(text + tb, top='tb').splitlines()]
    got = [l for l in got if l.startswith('T') and 'TIMEOUT' not in l]
    for t in range(nt):
        g = [l for l in got if l.startswith('T%d ' % t)]
        w = [l for l in want if l.startswith('T%d ' % t)]
        if g != w:
            raise Violation('thread %d reads %s\nthe arrays hold %s\n%s' % (t, g, w, src))
    return dict(nontrivial=len(want) > nt, labels=[x['kind'] for x in s['mems']] + ['own' if s['own'] else 'lock', 't%d' % nt])


# ---------------------------------------------------------------------------------------- RTL accesses of thread memories
@spec
def acc_case(d):
    kind = d.pick(['ram', 'ram', 'multi', 'packed', 'packedh'])
    nb = 1 if kind == 'ram' else d.pick([2, 4])
    aw = d.int(1, 3)
    dw = d.pick([4, 8, 32, 40])
    np_ = d.int(1, 3)
    faw = aw + (0 if nb == 1 else nb.bit_length() - 1) + (1 if kind == 'packedh' else 0)
    sites = [[d.pick(['r', 'w', 'r', 'w']), p] for p in range(np_) for _ in range(d.int(1, 3))]
    conn = d.chance(3)
    if conn:
        sites = [['c', p] for p in range(np_)]
    seq = [[[d.bool(), d.chance(2), d.int(0, 2 ** faw - 1), d.int(0, (1 << dw) - 1)] for _ in sites] for _ in range(d.int(10, 40))]
    return dict(kind=kind, nb=nb, aw=aw, dw=dw, np=np_, sites=sites, conn=conn, seq=seq, always=d.chance(5))


def acc_run(s):
    dw, np_, nb = s['dw'], s['np'], s['nb']
    faw = s['aw'] + (0 if nb == 1 else nb.bit_length() - 1) + (1 if s['kind'] == 'packedh' else 0)
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    kw = dict(datawidth=dw, addrwidth=s['aw'], numports=np_)
    if s['kind'] == 'ram':
        r = vthread.RAM(m, 'mem', clk, rst, **kw)
    elif s['kind'] == 'multi':
        r = vthread.MultibankRAM(m, 'mem', clk, rst, numbanks=nb, **kw)
    elif s['kind'] == 'packed':
        r = vthread.to_multibank_ram([vthread.RAM(m, 'mem%d' % b, clk, rst, **kw) for b in range(nb)], 'mem')
    else:
        r = vthread.to_multibank_ram([vthread.MultibankRAM(m, 'mem%d' % b, clk, rst, numbanks=2, **kw) for b in range(nb)], 'mem',
                                     keep_hierarchy=True)
    ports = []
    outs = []
    always = s['always'] and not s['conn'] and len(s['sites']) == np_ == 1 and s['sites'][0][0] in 'rw'
    for k, (op, p) in enumerate(s['sites']):
        a = m.Input('a%d' % k, faw)
        c = m.Input('c%d' % k)
        ports += [('a%d' % k, faw), ('c%d' % k, 1), ('w%d' % k, dw), ('e%d' % k, 1)]
        w = m.Input('w%d' % k, dw)
        e = m.Input('e%d' % k)
        o = m.Output('o%d' % k, dw)
        v = m.Output('v%d' % k)
        if op == 'r':
            data, valid = r.read_rtl(a, p, None if always else c)
            o.assign(data)
            v.assign(valid)
        elif op == 'w':
            r.write_rtl(a, w, p, None if always else c)
            o.assign(0)
            v.assign(0)
        else:
            x = m.Wire('x%d' % k, dw)
            r.connect_rtl(p, a, w, e, x, c)
            o.assign(x)
            v.assign(0)
        outs += ['v%d' % k, 'o%d' % k]
    text = m.to_verilog()
    mem = [None] * 2 ** faw
    vec, want = [], []
    for row in s['seq']:
        used = set()
        busy = set()
        line, w = [], []
        old = list(mem)
        for (op, p), (c, we, a, wd) in zip(s['sites'], row):
            if always:
                c = True
            if p in busy:
                c = False
            is_w = op == 'w' or (op == 'c' and we)
            if c and is_w and a in used:
                c = False
            if c:
                busy.add(p)
                if is_w:
                    used.add(a)
                    mem[a] = wd
            line += [a, int(c), wd, int(is_w)]
            w.append((bool(c) and op in 'rc' and not is_w, old[a], op))
        vec.append(line)
        want.append(w)
    extra = ''.join('  wire [%d:0] %s;\n' % (dw - 1, n) for n in outs)
    extra += '  dut d(.CLK(CLK), .RST(RST)%s);' % ''.join(', .%s(%s)' % (n, n) for n in [x[0] for x in ports] + outs)
    disp = '$display("%s", %s);' % (' '.join(['%h'] * len(outs)), ', '.join(outs))
    tb = stim(ports, vec, ('', disp), extra)
    got = [l.split() for l in sim.compile_and_run(text + tb, top='tb').splitlines() if l.strip()]
    if len(got) != len(want):
        raise Violation('no output\n' + text)
    reads = 0
    for c, (g, w) in enumerate(zip(got, want)):
        for k, (rd, val, op) in enumerate(w):
            v, o = hexval(g[2 * k]), hexval(g[2 * k + 1])
            if op == 'r' and v != int(rd):
                raise Violation('cycle %d site %d %s: read valid is %s, expected %d\n%s' % (c, k, s['sites'][k], v, rd, text))
            if rd and val is not None:
                reads += 1
                if o != val:
                    raise Violation('cycle %d site %d %s reads %s, the array holds %s\n%s\n%s' % (c, k, s['sites'][k], o, val, vec[:c + 1], text))
    return dict(nontrivial=reads > 0, labels=[s['kind'], 'connect' if s['conn'] else 'rtl', 'always' if always else 'cond'])


# ---------------------------------------------------------------------------------------- bursts
@spec
def burst_case(d):
    kind = d.pick(['plain', 'plain', 'multi', 'packed', 'block', 'block', 'bcast'])
    nb = 1 if kind == 'plain' else d.pick([2, 4] if kind != 'block' else [2, 3, 4])
    aw = d.int(3, 5)
    dw = d.pick([8, 16])
    depth = 2 ** aw
    jobs = []
    for _ in range(d.int(1, 4)):
        bs = d.int(1, 4)
        stride = 1 if d.bool() else d.int(1, 3)
        n = d.int(1, 9)
        jobs.append(dict(rd=d.bool(), addr=d.int(0, depth - 1), stride=stride, n=n, bs=bs, gap=d.int(2, 6),
                         stall=[d.pick([0, 0, 0, d.int(0, 3)]) for _ in range(12)], data=[d.int(0, 255) for _ in range(12)]))
    return dict(kind=kind, nb=nb, aw=aw, dw=dw, jobs=jobs)


def burst_map(s, j):
    """Element order of a burst: list of (list of (bank, row)) in beats."""
    nb, depth = s['nb'], 2 ** s['aw']
    k = s['kind']
    if k == 'plain':
        return [[(0, (j['addr'] + i * j['stride']) % depth)] for i in range(j['n'])]
    if k in ('multi', 'packed'):
        # one row of all banks per beat; the address counts words of the flat memory
        base = j['addr'] * nb
        return [[(b, ((base + i * j['stride'] * nb) // nb) % depth) for b in range(nb)] for i in range(j['n'])]
    if k == 'bcast':
        return [[(b, (j['addr'] + i * j['stride']) % depth) for b in range(nb)] for i in range(j['n'])]
    out = []
    row = [j['addr']] * nb
    b = c = 0
    for _ in range(j['n']):
        out.append([(b, row[b] % depth)])
        row[b] += j['stride']
        c += 1
        if c == j['bs']:
            c = 0
            b = (b + 1) % nb
    return out


def burst_run(s):
    nb, aw, dw = s['nb'], s['aw'], s['dw']
    k = s['kind']
    depth = 2 ** aw
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    if k == 'plain':
        r = vthread.RAM(m, 'mem', clk, rst, datawidth=dw, addrwidth=aw, numports=3, initvals=[i * 3 + 1 for i in range(depth)])
        rams = [r]
    else:
        rams = [vthread.RAM(m, 'mem%d' % b, clk, rst, datawidth=dw, addrwidth=aw, numports=3,
                            initvals=[(i * 3 + b * 50 + 1) & ((1 << dw) - 1) for i in range(depth)]) for b in range(nb)]
        r = vthread.to_multibank_ram(rams, 'mem')
    bw = dw * (nb if k in ('multi', 'packed') else 1)
    faw = aw + 3
    wstart, rstart = m.Input('wstart'), m.Input('rstart')
    addr, stride, n, bs = m.Input('addr', faw), m.Input('stride', faw), m.Input('n', 8), m.Input('bs', 8)
    rready, wvalid, wlast, wdata = m.Input('rready'), m.Input('wvalid'), m.Input('wlast'), m.Input('wdata', bw)
    rdata, rvalid, rlast = m.Output('rdata', bw), m.Output('rvalid'), m.Output('rlast')
    wready, done = m.Output('wready'), m.Output('done')
    if k in ('plain',):
        rb, wb = r.read_burst, r.write_burst
    elif k in ('multi', 'packed'):
        rb, wb = r.read_burst_packed, r.write_burst_packed
    elif k == 'block':
        rb, wb = r.read_burst_block, r.write_burst_block
    else:
        rb, wb = None, r.write_burst_bcast
    if rb is not None:
        a, b, c = rb(addr, stride, n, bs, rready, port=0, cond=rstart)
        rdata.assign(a)
        rvalid.assign(b)
        rlast.assign(c)
    else:
        rdata.assign(0)
        rvalid.assign(0)
        rlast.assign(0)
    a, b = wb(addr, stride, n, bs, wdata, wvalid, wlast, port=1, cond=wstart)
    wready.assign(a)
    done.assign(b)
    # observation of the whole contents through a third port
    oa = m.Input('oa', aw)
    for i, x in enumerate(rams):
        w = m.Wire('ow%d' % i, dw)
        x.connect_rtl(2, oa, 0, 0, w, 1)
        o = m.Output('o%d' % i, dw)
        o.assign(w)
    text = m.to_verilog()
    mem = [[(i * 3 + (b * 50 if k != 'plain' else 0) + 1) & ((1 << dw) - 1) for i in range(depth)] for b in range(nb)]
    t = []
    want = []
    for q, j in enumerate(s['jobs']):
        mp = burst_map(s, j)
        mul = nb if k in ('multi', 'packed') else 1
        par = 'addr = %d; stride = %d; n = %d; bs = %d;' % (j['addr'] * mul, j['stride'] * mul, j['n'], j['bs'])
        if j['rd'] and rb is not None:
            t.append('  $display("J %d"); %s rstart = 1; @(negedge CLK); rstart = 0; addr = 0; stride = 0; n = 0; bs = 0;' % (q, par))
            for i in range(len(mp)):
                st = j['stall'][i % 12]
                t.append('  rready = 0; repeat(%d) @(negedge CLK); rready = 1; get;' % st)
            t.append('  rready = 0;')
            want.append('J %d' % q)
            for i, cells in enumerate(mp):
                v = 0
                for b, row in reversed(cells):
                    v = v << dw | mem[b][row]
                want.append('R %x %d' % (v, i == len(mp) - 1))
        else:
            t.append('  $display("J %d"); %s wstart = 1; @(negedge CLK); wstart = 0; addr = 0; stride = 0; n = 0; bs = 0;' % (q, par))
            want.append('J %d' % q)
            for i, cells in enumerate(mp):
                st = j['stall'][i % 12]
                v = 0
                for z in range(bw // dw):
                    v |= ((j['data'][i % 12] + z * 37 + i) & ((1 << dw) - 1)) << (z * dw)
                for z, (b, row) in enumerate(cells):
                    mem[b][row] = (v if k == 'bcast' else v >> (z * dw)) & ((1 << dw) - 1)
                t.append('  repeat(%d) @(negedge CLK); wdata = %d\'h%x; wlast = %d; wvalid = 1; put;' % (st, bw, v, i == len(mp) - 1))
            t.append('  #1 $display("D %b", done);')
            want.append('D 1')
        t.append('  repeat(%d) @(negedge CLK);' % j['gap'])
        t.append('  for(i = 0; i < %d; i = i + 1) begin oa = i; @(negedge CLK); $display("M%s", %s); end' % (
            depth, ' %h' * nb, ', '.join('o%d' % i for i in range(nb))))
        for row in range(depth):
            want.append('M ' + ' '.join('%x' % mem[b][row] for b in range(nb)))
    tb = '''
module tb;
  reg CLK, RST; integer i, w;
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  reg wstart, rstart, rready, wvalid, wlast; reg [%d:0] addr, stride; reg [7:0] n, bs; reg [%d:0] wdata; reg [%d:0] oa;
  wire [%d:0] rdata; wire rvalid, rlast, wready, done; %s
  dut d(.CLK(CLK), .RST(RST), .wstart(wstart), .rstart(rstart), .addr(addr), .stride(stride), .n(n), .bs(bs), .rready(rready),
        .wvalid(wvalid), .wlast(wlast), .wdata(wdata), .rdata(rdata), .rvalid(rvalid), .rlast(rlast), .wready(wready), .done(done), .oa(oa)%s);
  task get; begin w = 0; #4; while(!(rvalid && rready) && w < 20) begin @(negedge CLK); w = w + 1; #4; end
    $display("R %%h %%b", rdata, rlast); @(negedge CLK); end endtask
  task put; begin w = 0; #4; while(!(wvalid && wready) && w < 20) begin @(negedge CLK); w = w + 1; #4; end
    @(negedge CLK); wvalid = 0; wlast = 0; end endtask
  initial begin
    RST = 1; wstart = 0; rstart = 0; rready = 0; wvalid = 0; wlast = 0; addr = 0; stride = 0; n = 0; bs = 0; wdata = 0; oa = 0;
    repeat(4) @(negedge CLK); RST = 0; @(negedge CLK);
%s
    $finish(0);
  end
endmodule
''' % (faw - 1, bw - 1, aw - 1, bw - 1, ' '.join('wire [%d:0] o%d;' % (dw - 1, i) for i in range(len(rams))),
       ''.join(', .o%d(o%d)' % (i, i) for i in range(len(rams))), '\n'.join(t))
    norm = lambda l: ' '.join(x.lstrip('0') or '0' for x in l.split())
    got = [norm(l) for l in sim.compile_and_run(text + tb, top='tb').splitlines() if l.strip()]
    want = [norm(w) for w in want]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation('burst %s: line %d is %s, expected %s\n%s\ngot  %s\nwant %s' % (
            k, i, got[i:i + 1], want[i:i + 1], s['jobs'], got[:i + 6], want[:i + 6]))
    return dict(nontrivial=any(j['n'] > 1 for j in s['jobs']), labels=[k, 'nb%d' % nb] + ['stall'] * any(any(j['stall']) for j in s['jobs']))


PARTS = [Part('rtl', rtl_case(), rtl_run, quick=600, thorough=20000),
         Part('connect', con_case(), rtl_run, quick=400, thorough=15000),
         Part('rom', rom_case(), rom_run, quick=300, thorough=8000),
         Part('thread', th_case(), th_run, quick=500, thorough=15000),
         Part('access', acc_case(), acc_run, quick=500, thorough=15000),
         Part('burst', burst_case(), burst_run, quick=500, thorough=15000)]

if __name__ == '__main__':
    main('C14', PARTS,
         rule='RAMs of 1-4 ports, thread memories and banks wired to RTL signals, 1-64 bits and 2-32 words with initial values in several forms, ROMs of 1-33 words, thread programs of '
              '1-3 threads on RAM/FixedRAM/MultibankRAM/packed and nested banks, RTL accesses from several sites per port, bursts with '
              'stalls; non-trivial = several writes/reads of known words',
         assumptions=['Icarus Verilog 12 executes the memories', 'two ports do not write one word in the same cycle'])
