"""C28: UART transmits every byte unchanged.

Oracle: the sequence of bytes given; an independent 8N1 receiver and transmitter written in the testbench.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.thread as vthread
from veriloggen.thread.uart import UartTx, UartRx, mkUartTx, mkUartRx

RATIOS = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33]


def byte(d):
    return d.pick([0, 255, 0x55, 0xaa, 1, 0x80, 0x7f, 0xfe, d.int(0, 255), d.int(0, 255), d.int(0, 255), d.int(0, 255)])


def rates(d):
    """baud rate and clock frequency; the fraction stays within the tolerance of half a bit over ten bits"""
    r = d.pick(RATIOS + [64, 100])
    baud = d.pick([1, 1, 9600, 19200, 115200])
    # the accumulated error of 10 bits must stay below a quarter of a bit
    frac = d.pick([0, 0, d.int(0, 100) / 100.0 * r * 0.025 if r * 0.025 < 1 else 0.5])
    return baud, int((r + frac) * baud) if baud > 1 else r


@spec
def tx_case(d):
    baud, clk = rates(d)
    return dict(baud=baud, clk=clk, data=d.list(1, 6, lambda: [byte(d), d.pick([0, 0, 1, 2, d.int(0, 60)])]), late=d.bool(), busy=d.bool())


def tx_run(s):
    m = mkUartTx(baudrate=s['baud'], clockfreq=s['clk'])
    text = m.to_verilog()
    ratio = s['clk'] / float(s['baud'])
    n = len(s['data'])
    t = ['module tb;', '  reg CLK, RST, enable; reg [7:0] din; wire ready, txd;', '  initial begin CLK = 0; forever #5 CLK = !CLK; end',
         '  UartTx u(.CLK(CLK), .RST(RST), .din(din), .enable(enable), .ready(ready), .txd(txd));',
         '  integer cyc = 0; always @(negedge CLK) cyc = cyc + 1;',
         '  initial begin RST = 1; enable = 0; din = 0; repeat(4) @(negedge CLK); RST = 0; repeat(3) @(negedge CLK);']
    for v, gap in s['data']:
        t.append('    while(ready !== 1) @(negedge CLK); repeat(%d) @(negedge CLK); if(ready !== 1) $display("LOST");' % gap)
        t.append('    din = %d; enable = 1; @(negedge CLK); if(ready !== 0) $display("STILLREADY"); enable = %d; din = %d;' % (
            v, int(s['busy']), 255 ^ v))
        # a request while the transmitter is busy must be ignored
        t.append('    repeat(%d) @(negedge CLK); enable = 0;' % (3 if s['busy'] else 0))
    t.append('    while(ready !== 1) @(negedge CLK); repeat(%d) @(negedge CLK); $display("END %%b", txd); $finish(0); end' % int(12 * ratio))
    # receiver: samples in the middle of each bit
    t.append('  integer i; reg [7:0] b; integer c0; reg stop, start;')
    t.append('  initial begin @(negedge RST); forever begin')
    t.append('    while(txd !== 0) begin if(txd !== 1) $display("TXD %b", txd); @(negedge CLK); end')
    t.append('    c0 = cyc; while(cyc < c0 + %d) @(negedge CLK); start = txd;' % int(0.5 * ratio))
    for i in range(8):
        t.append('    while(cyc < c0 + %d) @(negedge CLK); b[%d] = txd;' % (int((1.5 + i) * ratio), i))
    t.append('    while(cyc < c0 + %d) @(negedge CLK); stop = txd; $display("B %%b %%0d %%b", start, b, stop); end end' % int(9.5 * ratio))
    t.append('  initial begin repeat(%d) @(negedge CLK); $display("TIMEOUT"); $finish(0); end' % (int((n + 3) * 14 * ratio) + 1000))
    t.append('endmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb').split('\n')
    got = [l.split()[1:] for l in out if l.startswith('B ')]
    want = [['0', str(v), '1'] for v, _ in s['data']]
    if got != want or 'END 1' not in out:
        raise Violation('sent %s, received (start, byte, stop) %s; %s\n%s' % ([v for v, _ in s['data']], got, [l for l in out if not l.startswith('B ')], text))
    bad = [l for l in out if l in ('LOST', 'STILLREADY') or l.startswith('TXD')]
    if bad:
        raise Violation('%s\n%s' % (bad, text))
    return dict(nontrivial=n > 1, labels=['fraction' if s['clk'] % s['baud'] else 'exact'])


@spec
def rx_case(d):
    baud, clk = rates(d)
    return dict(baud=baud, clk=clk, skew=d.int(-15, 15) / 1000.0, off=d.int(0, 9),
                data=d.list(1, 6, lambda: [byte(d), d.pick([0, 0, 0.5, 1, d.int(0, 300) / 100.0]), d.chance(4)]))


def rx_run(s):
    text = mkUartRx(baudrate=s['baud'], clockfreq=s['clk']).to_verilog()
    ratio = s['clk'] / float(s['baud'])
    # within the tolerance of the receiver: sampling points are quantized to cycles
    skew = s['skew'] if ratio >= 12 else 0
    T = ratio * (1 + skew) * 100       # bit time in units of 1/100 cycle
    t = ['module tb;', '  reg CLK, RST, rxd; wire [7:0] dout; wire valid;', '  initial begin CLK = 0; forever #50 CLK = !CLK; end',
         '  UartRx u(.CLK(CLK), .RST(RST), .rxd(rxd), .dout(dout), .valid(valid));',
         '  reg was = 0; always @(negedge CLK) begin if(valid && !RST) $display("B %0d", dout); if(was && valid) $display("LONG"); was = valid; end',
         '  initial begin RST = 1; rxd = 1; #400 RST = 0; #%d;' % (int(T * 2) + s['off'] * 10)]
    now = 0.0

    def wait(x):
        a = int(round(now + x)) - int(round(now))
        t.append('    #%d;' % a)
        return now + x
    for v, gap, glitch in s['data']:
        if glitch and ratio >= 10:
            t.append('    rxd = 0;')
            now = wait(100)
            t.append('    rxd = 1;')
            now = wait(2 * T)
        for bit in [0] + [(v >> i) & 1 for i in range(8)]:
            t.append('    rxd = %d;' % bit)
            now = wait(T)
        t.append('    rxd = 1;')
        now = wait(T + gap * T)
    t.append('    #%d $display("END"); $finish(0); end\nendmodule' % int(4 * T))
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb').split('\n')
    got = [int(l.split()[1]) for l in out if l.startswith('B ') and l.split()[1].isdigit()]
    if got != [v for v, _, _ in s['data']] or 'END' not in out or 'LONG' in out:
        raise Violation('the line carried %s, the receiver reported %s %s\n%s' % ([v for v, _, _ in s['data']], got, out[-4:], text))
    return dict(nontrivial=len(got) > 1, labels=['skew' if skew else 'exact', 'glitch' if any(g for _, _, g in s['data']) and ratio >= 10 else 'clean'])


@spec
def loop_case(d):
    baud, clk = rates(d)
    if clk / baud > 20:
        baud, clk = 9600, 9600 * 6
    return dict(baud=baud, clk=clk, a=d.list(1, 5, lambda: byte(d)), b=d.list(1, 5, lambda: byte(d)), gap=d.list(1, 5, lambda: d.pick([0, 0, 0, 1, 20])),
                style=d.pick(['pos', 'args', 'args', 'wire']), share=d.bool(), lock=d.chance(3), twice=d.chance(4))


def loop_run(s):
    m = Module('test')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    l1 = m.Wire('line1')
    l2 = m.Wire('line2')
    kw = dict(baudrate=s['baud'], clockfreq=s['clk'])
    lists = []

    def mk(cls, name, line):
        port = 'txd' if cls is UartTx else 'rxd'
        if s['style'] == 'pos':
            return cls(m, 'inst_' + name, name + '_', clk, rst, line, **kw)
        if s['style'] == 'args':
            a = [(port, line)]
            if s['share']:
                # the same list object describes the connection of another endpoint of the same kind
                key = [l for l in lists if l[0][0] == port]
                if key:
                    a = key[0]
                    a[0] = (port, line)
                    if len(a) != 1:
                        raise Violation('the list of ports given by the user was modified: %s' % [x[0] for x in a])
                else:
                    lists.append(a)
            return cls(m, 'inst_' + name, name + '_', clk, rst, arg_ports=a, **kw)
        r = cls(m, 'inst_' + name, name + '_', clk, rst, as_wire=(port,), **kw)
        if cls is UartTx:
            line.assign(r[port])
        else:
            r[port].assign(line)
        return r
    txa = mk(UartTx, 'txa', l1)
    rxb = mk(UartRx, 'rxb', l1)
    txb = mk(UartTx, 'txb', l2)
    rxa = mk(UartRx, 'rxa', l2)
    for l in lists:
        if len(l) != 1:
            raise Violation('the list of ports given by the user was modified: %s' % [x[0] for x in l])
    na, nb = len(s['a']), len(s['b'])
    src = ['def send_a():']
    for i, v in enumerate(s['a']):
        g = s['gap'][i % len(s['gap'])]
        if g:
            src.append('    for i in range(%d):\n        pass' % g)
        if s['lock']:
            src.append('    txa.lock()')
        src.append('    txa.send(%d)' % v)
        if s['lock']:
            src.append('    txa.unlock()')
    src.append('def recv_a():\n    for i in range(%d):\n        c = rxa.recv()\n        print("A %%d" %% c)\n    done_a.value = 1' % nb)
    # b answers every byte it received with the sum of its own byte
    src.append('def echo_b():\n    for i in range(%d):\n        c = rxb.recv()\n        print("B %%d" %% c)\n    done_b.value = 1' % na)
    src.append('def send_b():\n' + '\n'.join('    x = %d\n    txb.send(x)' % v for v in s['b']))
    src.append('for f in (send_a, recv_a, echo_b, send_b):\n    vthread.Thread(m, "th_" + f.__name__, clk, rst, f).start()')
    da = m.Reg('done_a', initval=0)
    db = m.Reg('done_b', initval=0)
    ns, path = thr.load('\n'.join(src) + '\n', dict(txa=txa, txb=txb, rxa=rxa, rxb=rxb, done_a=da, done_b=db, m=m, clk=clk, rst=rst, vthread=vthread))
    try:
        seq = Seq(m, 'fin', clk, rst)
        cnt = m.Reg('cnt', 8, initval=0)
        seq.If(da, db)(cnt.inc())
        seq.If(cnt == 60)(vt.Systask('display', 'END'), vt.Systask('finish', 0))
        if s['twice']:
            m.to_verilog()
        text = m.to_verilog()
    finally:
        thr.unload(path)
    ratio = s['clk'] // s['baud']
    out = sim.compile_and_run(text + thr.TB % (2000 + 14 * ratio * (na + nb + 4), 'test u(.CLK(CLK), .RST(RST));'), top='tb')
    ga = [l.split()[1] for l in out.splitlines() if l.startswith('A ')]
    gb = [l.split()[1] for l in out.splitlines() if l.startswith('B ')]
    if gb != [str(x) for x in s['a']] or ga != [str(x) for x in s['b']] or 'END' not in out:
        raise Violation('sent %s and %s, received %s and %s\n%s\n%s' % (s['a'], s['b'], gb, ga, out[-200:], text))
    return dict(nontrivial=na > 1 and nb > 1, labels=[s['style']])


import veriloggen.core.vtypes as vt  # noqa: E402

PARTS = [Part('tx', tx_case(), tx_run, quick=500, thorough=20000),
         Part('rx', rx_case(), rx_run, quick=500, thorough=20000),
         Part('loop', loop_case(), loop_run, quick=300, thorough=10000)]

if __name__ == '__main__':
    main('C28', PARTS,
         rule='transmitter against an independent 8N1 receiver (random bytes, gaps, requests while busy), receiver against an independent '
              'transmitter (arbitrary phase, gaps, clock skew, glitches), full-duplex loop between four threads; 4-100 clocks per bit, also fractional; '
              'non-trivial = more than one byte',
         assumptions=['at least 4 clock cycles per bit', 'the difference of the bit rates over ten bits stays below a quarter of a bit'])
