"""C18: AXI-Stream endpoints neither lose nor reorder beats.

Oracle: lists in Python. Parts: `in` (stream -> thread/RAM/FIFO), `out` (thread/RAM/FIFO -> stream), `pipe` (stream -> FIFO -> stream with two widths),
`axim` (memory -> stream -> RAM/FIFO -> stream -> memory through the AXI adaptors). The environment is Verilog text with random timing and a monitor of
the handshake rules, independent of veriloggen.
"""
import random
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr, axibfm

from veriloggen import *  # noqa
import veriloggen.thread as vthread


# ------------------------------------------------------------------------------------------------------ environment
def source(p, words, lasts, dw, prob, seed, last, hold):
    """drives the words in order; valid never drops before it was accepted"""
    n = len(words)
    t = '''
  reg [%d:0] sd_P [0:%d]; reg sl_P [0:%d]; integer sn_P, ss_P, sc_P;
  initial begin ss_P = %d; sn_P = 0; sc_P = 0; P_tvalid = 0; P_tdata = 0; LASTINIT
''' % (dw - 1, n, n, seed)
    for i, (w, l) in enumerate(zip(words, lasts)):
        t += "    sd_P[%d] = %d'h%x; sl_P[%d] = %d;\n" % (i, dw, w, i, l)
    t += '''  end
  always @(posedge CLK) if(!RST) begin
    if(P_tvalid && P_tready) begin P_tvalid <= 0; P_tdata <= {%d{1'bx}}; LASTX sc_P = sc_P + 1; end
    if(P_tvalid && P_tready === 1'bx) $display("PROTO unknown ready");
    if((!P_tvalid || P_tready) && sn_P < %d && (%s)) begin
      P_tvalid <= 1; P_tdata <= sd_P[sn_P]; LASTSET sn_P = sn_P + 1;
    end
  end
''' % (dw, n, {0: '($random(ss_P) & 15) <= %d' % prob, 1: '((cyc >> 5) & 1)', 2: '(cyc % {0}) == 0'.format(3 + seed % 5)}[hold])
    t = t.replace('LASTINIT', 'P_tlast = 0;' if last else '').replace('LASTX', "P_tlast <= 1'bx;" if last else '').replace('LASTSET', 'P_tlast <= sl_P[sn_P];' if last else '')
    return t.replace('P_', p + '_').replace('_P', '_' + p)


def sink(p, dw, prob, seed, last, extra, hold):
    """prints the beats; monitors that an offered beat stays"""
    more = ''.join(', P_t%s' % x for x in extra)
    t = '''
  integer ks_P; reg kv_P; reg [%d:0] kd_P, kc_P;
  initial begin ks_P = %d; kv_P = 0; P_tready = 0; end
  always @(*) kc_P = {P_tdata%s%s};
  always @(posedge CLK) if(RST) kv_P <= 0; else begin
    if(P_tvalid !== 0 && P_tvalid !== 1) $display("PROTO unknown valid");
    if(kv_P && (P_tvalid !== 1 || kc_P !== kd_P)) $display("PROTO beat changed before it was accepted %%0t", $time);
    kv_P <= P_tvalid && !P_tready; kd_P <= kc_P;
    if(P_tvalid && P_tready) $display("O %%h %%b%s", P_tdata, %s%s);
    P_tready <= %s;
  end
''' % (dw + 40, seed, ', P_tlast' if last else '', more, ' %h' * len(extra), 'P_tlast' if last else "1'b0", more,
       {0: '($random(ks_P) & 15) <= %d' % prob, 1: '((cyc >> 5) & 1)', 2: '(cyc % {0}) == 0'.format(3 + seed % 5)}[hold])
    return t.replace('P_', p + '_').replace('_P', '_' + p)


def frame(m, text, body, limit=60000):
    decl, conn = axibfm.declare(m, ('CLK', 'RST'))
    t = ['module tb;', '  reg CLK, RST; integer cyc, k;', decl, '  dut d(%s);' % conn,
         '  initial begin CLK = 0; forever #5 CLK = !CLK; end',
         '  initial begin RST = 1; #100 RST = 0; end',
         '  initial begin cyc = 0; while(cyc < %d) begin @(posedge CLK); cyc = cyc + 1; end $display("TIMEOUT"); $finish(0); end' % limit] + body + ['endmodule']
    return sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb', timeout=300)


def scan(out, s):
    lines = out.splitlines()
    for l in lines:
        if l.startswith('PROTO') or 'TIMEOUT' in l:
            raise Violation(l + ' ' + str(s.get('ops') or s.get('progs'))[:500])
    if 'END' not in lines:
        raise Violation('the simulation ended early: ' + out[-300:])
    return lines


def ram_init(i, k, w):
    return (int.from_bytes(bytes([(i * 37 + 11) & 255]) * (w // 8), 'little') ^ (k * 0x9e3779b1)) & ((1 << w) - 1)


def init_text(rams):
    t = ['  initial begin']
    for i, (w, aw) in rams:
        t.append('    for(k = 0; k < %d; k = k + 1) d.inst_r%d.mem[k] = {%d{8\'h%02x}} ^ (k * 32\'h9e3779b1);' % (1 << aw, i, w // 8, (i * 37 + 11) & 255))
    t.append('  end')
    return t


def local_width(d, dw):
    """width of the RAM or FIFO"""
    e = d.pick([dw, dw, dw // 2, dw * 2, dw // 4, dw * 4, dw * 3, dw // 8, dw * 8, dw * 5])
    return e if e % 8 == 0 and 8 <= e <= 256 and (e % dw == 0 or dw % e == 0) else dw


def beats(dw, w, n):
    return n if w == dw else n * (w // dw) if w > dw else -(-n // (dw // w))


@spec
def endpoint_case(d, write):
    dw = d.pick([32, 32, 8, 16, 64, 128, 24, 96])
    fifo = d.chance(2)
    store = []
    for _ in range(d.int(1, 3)):
        store.append([local_width(d, dw), d.pick([2, 3, 4, 5]) if fifo else d.pick([3, 5, 7])])
    ops = []
    last_async = False
    for _ in range(d.int(1, 8)):
        if d.chance(4):
            ops.append(['one', d.int(0, 2 ** 31 - 1), d.int(0, 1), d.int(0, 1)])
            continue
        i = d.int(0, len(store) - 1)
        w, aw = store[i]
        asy = d.int(0, 1)
        if fifo:
            n = d.pick([1, 2, d.int(1, 9), d.int(1, 40)])
            if w < dw:
                n *= dw // w
            ops.append(['dma', i, 0, n, 1, 0, asy])
        else:
            st = d.pick([1, 1, 1, 2, 3])
            la = d.pick([0, d.int(0, (1 << aw) - 1)])
            most = ((1 << aw) - 1 - la) // st + 1
            n = min(most, d.pick([1, 1, 2, 3, d.int(1, most), d.int(1, min(most, 20)), most]))
            ops.append(['dma', i, la, n, st, d.int(0, 1), asy])
        if asy and d.chance(3):
            ops.append(['wait'])
    return dict(dw=dw, fifo=fifo, store=store, ops=ops, last=d.chance(4) is False, prob=d.pick([15, 15, 8, 3, 1]), hold=d.pick([0, 0, 0, 1, 2]), seed=d.int(1, 9999),
                asmod=d.chance(5), req=d.pick([3, 3, 2, 4]), side=d.chance(5), slow=[d.pick([0, 0, 3, 17]) for _ in store], var=d.bool())


def loop_src(L, ind, name, n, body):
    L.append('%sfor %s in range(%d):' % (ind, name, n))
    for b in body:
        L.append(ind + '    ' + b)


def side_widths(s):
    return dict(id_width=4, user_width=3, dest_width=2, with_strb=True) if s['side'] else {}


def setup(s, name='dut'):
    m = Module(name)
    clk = m.Input('CLK')
    rst = m.Input('RST')
    return m, clk, rst, dict(vthread=vthread, m=m, clk=clk, rst=rst)


def make_store(s, m, clk, rst, env):
    for i, (w, aw) in enumerate(s['store']):
        if s['fifo']:
            env['r%d' % i] = vthread.FIFO(m, 'r%d' % i, clk, rst, w, aw)
        else:
            env['r%d' % i] = vthread.RAM(m, 'r%d' % i, clk, rst, w, aw, 2)


def in_run(s):
    dw = s['dw']
    m, clk, rst, env = setup(s)
    cls = vthread.AXIStreamInFifo if s['fifo'] else vthread.AXIStreamIn
    env['si'] = cls(m, 'si', clk, rst, dw, with_last=s['last'], req_fifo_addrwidth=s['req'], fsm_as_module=s['asmod'], **side_widths(s))
    make_store(s, m, clk, rst, env)
    mark = m.OutputReg('mark', 32, initval=0)
    gate = m.Input('gate', 32)
    env.update(mark=mark, gate=gate)
    L = ['def program():']
    used = [0] * len(s['store'])
    marks = 0
    want_total = 0
    rnd = random.Random(s['seed'])
    pops = [[] for _ in s['store']]
    model = [[ram_init(i, k, w) for k in range(1 << aw)] for i, (w, aw) in enumerate(s['store'])]
    words, lasts = [], []
    expect = []          # printed lines and dumps in order

    def beat():
        words.append(rnd.getrandbits(dw))
        lasts.append(rnd.random() < .2)
        return words[-1]

    def sync(ind='    '):
        nonlocal marks
        marks += 1
        L.append(ind + 'mark.value = %d' % marks)
        L.append(ind + 'while gate != %d:' % marks)
        L.append(ind + '    pass')
        expect.append(('M', [list(x) for x in model]))
    for o in s['ops']:
        if o[0] == 'one':
            v = beat()
            if s['last']:
                L.append('    x, l = si.read()')
                L.append("    print('V', x, l)")
                expect.append(('V', str(thr.signed(v, dw)), str(-int(lasts[-1])), str(int(lasts[-1]))))
            else:
                L.append('    x, l = si.read()')
                L.append("    print('V', x)")
                expect.append(('V', str(thr.signed(v, dw)), None, None))
            want_total += 1
        elif o[0] == 'wait':
            L.append('    si.dma_wait_read()')
            sync()
        else:
            _, i, la, n, st, port, asy = o
            w, aw = s['store'][i]
            if s['fifo']:
                args = 'r%d, %d' % (i, n)
            else:
                args = 'r%d, %d, %d' % (i, la, n) + (', %d' % st if st != 1 or port else '') + (', port=%d' % port if port else '')
            if s['var']:
                L.append('    v = %d' % n)
                args = args.replace(', %d' % n, ', v', 1) if s['fifo'] else args
            L.append('    si.dma_read%s(%s)' % ('_async' if asy else '', args))
            b = beats(dw, w, n)
            want_total += b
            stream = [beat() for _ in range(b)]
            if w == dw:
                vals = stream
            elif w > dw:
                k = w // dw
                vals = [sum(stream[j * k + h] << (dw * h) for h in range(k)) for j in range(n)]
            else:
                k = dw // w
                vals = [(stream[j // k] >> (w * (j % k))) & ((1 << w) - 1) for j in range(n)]
            if s['fifo']:
                pops[i] += vals
            else:
                for j, v in enumerate(vals):
                    model[i][la + j * st] = v
            if not asy:
                if not s['fifo']:
                    L.append("    print('V', r%d.read(%d))" % (i, la + (n - 1) * st))
                    expect.append(('V', str(thr.signed(vals[-1], w)), None, None))
                if rnd.random() < .5:
                    sync()
    L.append('    si.dma_wait_read()')
    sync()
    # beats nobody asked for stay in the channel
    for _ in range(5):
        beat()
    big = max([32, dw] + [w for w, _ in s['store']])
    src = '\n'.join(L) + "\nvthread.Thread(m, 'th', clk, rst, program, datawidth=%d).start()\n" % big
    if s['fifo']:
        for i, p in enumerate(pops):
            if not p:
                continue
            B = ['v = r%d.deq()' % i, "print('F%d', v)" % i]
            if s['slow'][i]:
                B += ['for j in range(%d):' % s['slow'][i], '    pass']
            C = ['def consume%d():' % i]
            loop_src(C, '    ', 'i', len(p), B)
            src += '\n'.join(C) + "\nvthread.Thread(m, 'tc%d', clk, rst, consume%d, datawidth=%d).start()\n" % (i, i, big)
    ns, path = thr.load(src, env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    body = [] if s['fifo'] else init_text(list(enumerate(s['store'])))
    if s['side']:
        body.append("  initial begin si_tid = 3; si_tuser = 5; si_tdest = 1; si_tstrb = -1; end")
    body.append(source('si', words, lasts, dw, s['prob'], s['seed'], s['last'], s['hold']))
    body.append('  integer lastmark; initial begin gate = 0; lastmark = 0; end')
    body.append('  always @(posedge CLK) if(!RST && mark != lastmark) begin lastmark = mark;')
    body.append('    $write("M");')
    if not s['fifo']:
        for i in range(len(s['store'])):
            body.append('    $write(" ;"); for(k = 0; k < %d; k = k + 1) $write(" %%h", d.inst_r%d.mem[k]);' % (1 << s['store'][i][1], i))
    body.append('    $write("\\n"); #1 gate = lastmark;')
    body.append('    if(lastmark == %d) begin repeat(%d) @(posedge CLK); $display("END"); $display("COUNT %%0d", sc_si); $finish(0); end end'
                % (marks, 60 + 12 * max([0] + [(x + 4) * 8 for x in s['slow']]) if s['fifo'] else 30))
    limit = 4000 + len(words) * 60 + sum(len(p) * (40 + 4 * s['slow'][i]) for i, p in enumerate(pops))
    lines = scan(frame(m, text, body, limit), s)
    got = [l for l in lines if l[:2] in ('V ', 'M ') or l == 'M' or l == 'M ']
    if len(got) < len(expect):
        raise Violation('%d of %d events' % (len(got), len(expect)))
    for g, e in zip(got, expect):
        if e[0] == 'V':
            f = g.split()[1:]
            if f[0] != e[1] or (e[2] is not None and (len(f) < 2 or f[1] not in (e[2], e[3]))):
                raise Violation('the thread read %s, expected %s' % (f, e[1:]))
        elif not s['fifo']:
            ms = [x.split() for x in g.split(';')[1:]]
            for i, (a, b) in enumerate(zip(ms, e[1])):
                for k, (x, y) in enumerate(zip(a, b)):
                    if 'x' in x or int(x, 16) != y:
                        raise Violation('RAM %d (%d bits, stream %d) word %d holds %s, expected %x' % (i, s['store'][i][0], dw, k, x, y))
    for i, p in enumerate(pops):
        g = [l.split()[1] for l in lines if l.startswith('F%d ' % i)]
        e = [str(thr.signed(v, s['store'][i][0])) for v in p]
        if g != e[:len(g)] or len(g) < len(e):
            k = next((k for k, (a, b) in enumerate(zip(g, e)) if a != b), min(len(g), len(e)))
            raise Violation('FIFO %d (%d bits, stream %d): element %d of %d: got %s, expected %s' % (i, s['store'][i][0], dw, k, len(e), g[k:k + 3], e[k:k + 3]))
    c = int([l for l in lines if l.startswith('COUNT')][0].split()[1])
    if c != want_total:
        raise Violation('%d beats were taken from the stream, expected %d' % (c, want_total))
    return result(s, want_total)


def result(s, n):
    labels = ['fifo' if s['fifo'] else 'ram', 'last' if s['last'] else 'nolast']
    for w, _ in s['store']:
        labels.append('same' if w == s['dw'] else 'narrow' if w > s['dw'] else 'wide')
    if s['prob'] < 15 or s['hold']:
        labels.append('backpressure')
    if len(s['store']) > 1:
        labels.append('several stores')
    if any(o[0] == 'dma' and o[6] for o in s['ops']):
        labels.append('async')
    return dict(nontrivial=n > 2, labels=sorted(set(labels)))


def out_run(s):
    dw = s['dw']
    m, clk, rst, env = setup(s)
    cls = vthread.AXIStreamOutFifo if s['fifo'] else vthread.AXIStreamOut
    env['so'] = cls(m, 'so', clk, rst, dw, with_last=s['last'], req_fifo_addrwidth=s['req'], fsm_as_module=s['asmod'], **side_widths(s))
    make_store(s, m, clk, rst, env)
    mark = m.OutputReg('mark', 32, initval=0)
    env.update(mark=mark)
    L = ['def program():']
    rnd = random.Random(s['seed'])
    push = [[] for _ in s['store']]
    model = [[ram_init(i, k, w) for k in range(1 << aw)] for i, (w, aw) in enumerate(s['store'])]
    expect = []          # (value, mask, last)
    full = (1 << dw) - 1
    pending = False
    for o in s['ops']:
        if o[0] == 'one':
            L.append('    so.%s(%d%s)' % ('write' if o[3] else 'write_fence', o[1], ', %d' % o[2] if s['last'] and (o[2] or o[3]) else ''))
            expect.append((o[1] & full, full, o[2] and s['last']))
            pending = False
        elif o[0] == 'wait':
            L.append('    so.dma_wait_write()')
            pending = False
        else:
            _, i, la, n, st, port, asy = o
            w, aw = s['store'][i]
            if s['fifo']:
                args = 'r%d, %d' % (i, n)
                vals = []
                for _ in range(n):
                    vals.append(rnd.getrandbits(min(w, 31)))
                    push[i].append(vals[-1])
            else:
                args = 'r%d, %d, %d' % (i, la, n) + (', %d' % st if st != 1 or port else '') + (', port=%d' % port if port else '')
                vals = [model[i][la + j * st] for j in range(n)]
            L.append('    so.dma_write%s(%s)' % ('_async' if asy else '', args))
            if w == dw:
                res = [(v, full) for v in vals]
            elif w > dw:
                k = w // dw
                res = [((v >> (dw * h)) & full, full) for v in vals for h in range(k)]
            else:
                k = dw // w
                res = []
                for j in range(0, n, k):
                    part = vals[j:j + k]
                    res.append((sum(v << (w * h) for h, v in enumerate(part)), (1 << (w * len(part))) - 1))
            expect += [(v, mk, s['last'] and j == len(res) - 1) for j, (v, mk) in enumerate(res)]
            pending = bool(asy)
        if not pending and not s['fifo'] and rnd.random() < .5:
            # the call returned: the buffer can be reused
            i = rnd.randrange(len(s['store']))
            w, aw = s['store'][i]
            k = o[2] + (o[3] - 1) * o[4] if o[0] == 'dma' and rnd.random() < .7 else rnd.randrange(1 << aw)
            k = min(k, (1 << aw) - 1)
            v = rnd.getrandbits(min(w, 31))
            L.append('    r%d.write(%d, %d)' % (i, k, v))
            model[i][k] = v
    L.append('    so.dma_wait_write()')
    L.append('    mark.value = 1')
    big = max([32, dw] + [w for w, _ in s['store']])
    src = '\n'.join(L) + "\nvthread.Thread(m, 'th', clk, rst, program, datawidth=%d).start()\n" % big
    if s['fifo']:
        for i, p in enumerate(push):
            if not p:
                continue
            C = ['def produce%d():' % i]
            for j, v in enumerate(p):
                C.append('    r%d.enq(%d)' % (i, v))
                if s['slow'][i] and (j % 3 == 0):
                    C.append('    for j in range(%d):' % s['slow'][i])
                    C.append('        pass')
            src += '\n'.join(C) + "\nvthread.Thread(m, 'tc%d', clk, rst, produce%d, datawidth=%d).start()\n" % (i, i, big)
    ns, path = thr.load(src, env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    extra = ['id', 'user', 'dest', 'strb'] if s['side'] else []
    body = [] if s['fifo'] else init_text(list(enumerate(s['store'])))
    body.append(sink('so', dw, s['prob'], s['seed'], s['last'], extra, s['hold']))
    body.append('  reg ended; initial ended = 0; always @(posedge CLK) if(!RST && mark === 1 && !ended) begin ended = 1; repeat(400) @(posedge CLK); $display("END"); $finish(0); end')
    limit = 4000 + len(expect) * 80 + sum(len(p) * (30 + 3 * s['slow'][i]) for i, p in enumerate(push))
    lines = scan(frame(m, text, body, limit), s)
    compare([l.split()[1:] for l in lines if l.startswith('O ')], expect, 'stream %d, stores %s' % (dw, s['store']), s['side'] and dw // 8)
    return result(s, len(expect))


def compare(got, expect, what, strb=None):
    for k, e in enumerate(expect):
        if k >= len(got):
            raise Violation('%s: %d of %d beats' % (what, len(got), len(expect)))
        g = got[k]
        v = int(g[0].replace('x', '0').replace('X', '0'), 16)
        if 'x' in g[0].lower() and e[1] == (1 << e[1].bit_length()) - 1 and int(g[0].lower().replace('x', 'f'), 16) & e[1] != v & e[1]:
            raise Violation('%s: beat %d is %s, expected %x' % (what, k, g[0], e[0]))
        if (v ^ e[0]) & e[1] or g[1] != str(int(bool(e[2]))):
            raise Violation('%s: beat %d of %d is %s last %s, expected %x (mask %x) last %d' % (what, k, len(expect), g[0], g[1], e[0], e[1], bool(e[2])))
        if strb and int(g[5].replace('x', '0'), 16) != (1 << strb) - 1:
            raise Violation('%s: strobe %s of a full beat' % (what, g[5]))
    if len(got) > len(expect):
        raise Violation('%s: %d beats instead of %d' % (what, len(got), len(expect)))


# ------------------------------------------------------------------------------------------------------ stream -> FIFO -> stream
@spec
def pipe_case(d):
    a = d.pick([8, 16, 32, 32, 64, 24])
    b = d.pick([a, a * 2, a * 4, a // 2, 8, a * 3])
    if b % 8 or b < 8:
        b = a
    e = d.pick([a, a, b, max(a, b), min(a, b), 2 * max(a, b)])
    if (e % a and a % e) or (e % b and b % e):
        e = max(a, b)
    unit = 1                                # number of FIFO words in a whole beat
    for x in (a, b):
        unit = max(unit, x // e if x > e else 1)
    if (a > e and unit % (a // e)) or (b > e and unit % (b // e)):
        unit = (a // e if a > e else 1) * (b // e if b > e else 1)
    n = d.int(1, 24) * unit

    def cut(u):
        rest, res = n // u, []
        while rest:
            k = d.int(1, rest)
            res.append(k * u)
            rest -= k
            if len(res) == 6 and rest:
                res.append(rest * u)
                rest = 0
        return res
    return dict(a=a, b=b, e=e, aw=d.pick([2, 3, 4, 6]), n=n, ins=cut(a // e if a > e else 1), outs=cut(b // e if b > e else 1), sync=[d.bool(), d.bool()], fsync=d.int(0, 3) > 0,
                one=d.bool(), prob=[d.pick([15, 15, 8, 3, 1]) for _ in range(2)], hold=[d.pick([0, 0, 1, 2]) for _ in range(2)], seed=d.int(1, 9999), asmod=d.chance(5))


def pipe_run(s):
    a, b, e = s['a'], s['b'], s['e']
    m, clk, rst, env = setup(s)
    env['si'] = vthread.AXIStreamInFifo(m, 'si', clk, rst, a, fsm_as_module=s['asmod'])
    env['so'] = vthread.AXIStreamOutFifo(m, 'so', clk, rst, b, fsm_as_module=s['asmod'])
    env['f'] = vthread.FIFO(m, 'f', clk, rst, e, s['aw'], sync=s['fsync'])
    mark = m.OutputReg('mark', initval=0)
    env.update(mark=mark)
    ins = ['si.dma_read%s(f, %d)' % ('' if s['sync'][0] else '_async', k) for k in s['ins']] + ['si.dma_wait_read()']
    outs = ['so.dma_write%s(f, %d)' % ('' if s['sync'][1] else '_async', k) for k in s['outs']] + ['so.dma_wait_write()', 'mark.value = 1']
    src = 'def pin():\n' + ''.join('    %s\n' % x for x in ins)
    src += 'def pout():\n' + ''.join('    %s\n' % x for x in outs)
    src += "vthread.Thread(m, 'tin', clk, rst, pin).start()\nvthread.Thread(m, 'tout', clk, rst, pout).start()\n"
    ns, path = thr.load(src, env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    rnd = random.Random(s['seed'])
    nb = s['n'] * e // a
    words = [rnd.getrandbits(a) for _ in range(nb + 3)]
    big = sum(w << (a * k) for k, w in enumerate(words[:nb]))
    body = [source('si', words, [rnd.random() < .2 for _ in words], a, s['prob'][0], s['seed'], True, s['hold'][0]),
            sink('so', b, s['prob'][1], s['seed'] + 1, True, [], s['hold'][1]),
            '  reg ended; initial ended = 0; always @(posedge CLK) if(!RST && mark === 1 && !ended) begin ended = 1; repeat(400) @(posedge CLK); $display("COUNT %0d", sc_si); $display("END"); $finish(0); end']
    lines = scan(frame(m, text, body, 4000 + 300 * s['n']), dict(ops=[s['ins'], s['outs']]))
    expect, pos = [], 0
    for k in s['outs']:
        nn = k * e // b
        for j in range(nn):
            expect.append(((big >> pos) & ((1 << b) - 1), (1 << b) - 1, j == nn - 1))
            pos += b
    compare([l.split()[1:] for l in lines if l.startswith('O ')], expect, 'stream %d to FIFO %d to stream %d' % (a, e, b))
    if int([l for l in lines if l.startswith('COUNT')][0].split()[1]) != nb:
        raise Violation('%s beats taken, expected %d' % ([l for l in lines if l.startswith('COUNT')], nb))
    return dict(nontrivial=s['n'] > 3, labels=['%s/%s' % ('same' if e == a else 'narrow' if e > a else 'wide', 'same' if e == b else 'narrow' if e > b else 'wide')])


# ------------------------------------------------------------------------------------------------------ memory -> stream -> ... -> stream -> memory
@spec
def axim_case(d):
    dw = d.pick([32, 32, 64, 128, 16, 8])
    store = []
    for _ in range(d.int(1, 2)):
        e = d.pick([dw, dw, dw * 2, max(8, dw // 2), dw * 4, max(8, dw // 4)])
        store.append([e if e <= 256 else dw, d.pick([4, 6, 9])])

    def moves():
        res = []
        for _ in range(d.int(1, 3)):
            i = d.int(0, len(store) - 1)
            aw = store[i][1]
            st = d.pick([1, 1, 2])
            la = d.pick([0, 0, d.int(0, (1 << aw) - 1)])
            most = ((1 << aw) - 1 - la) // st + 1
            res.append([i, la, min(most, d.pick([1, 2, d.int(1, 20), d.int(1, most), most])), st, d.int(0, 1)])
        return res

    def cover(mv, base):
        rest, res = sum(beats(dw, store[x[0]][0], x[2]) for x in mv), []
        while rest:
            k = d.pick([rest, d.int(1, rest)])
            if len(res) == 2:
                k = rest
            res.append([k, d.pick([0, d.int(0, 1000), 4096 // (dw // 8) - d.int(0, 10)])])
            rest -= k
        a, out = base, []
        for k, off in res:
            ga = a + off * (dw // 8)
            out.append([ga, k])
            a = ga + k * (dw // 8)
        return out
    rounds = []
    for _ in range(d.int(1, 3)):
        mi, mo = moves(), moves()
        rounds.append([mi, cover(mi, 0), mo, cover(mo, 131072), d.int(0, 1), d.int(0, 1)])
    return dict(dw=dw, store=store, rounds=rounds, prob=[[d.pick([15, 15, 8, 3, 1]) for _ in range(5)] for _ in range(2)], seed=d.int(0, 9999), base=d.pick([None, None, d.int(0, 255) * 256]),
                ids=d.pick([0, 0, 4]), asmod=d.chance(5), fifo=d.bool())


def axim_run(s):
    dw, nb = s['dw'], s['dw'] // 8
    m, clk, rst, env = setup(s)
    env['si'] = vthread.AXIStreamIn(m, 'si', clk, rst, dw, noio=True)
    env['so'] = vthread.AXIStreamOut(m, 'so', clk, rst, dw, noio=True)
    kw = dict(waddr_id_width=s['ids'], wresp_id_width=s['ids'], raddr_id_width=s['ids'], rdata_id_width=s['ids'], use_global_base_addr=s['base'] is not None, fsm_as_module=s['asmod'])
    env['mi'] = vthread.AXIM_for_AXIStreamIn(env['si'], 'mi', **kw)
    env['mo'] = vthread.AXIM_for_AXIStreamOut(env['so'], 'mo', **kw)
    make_store(dict(s, fifo=False), m, clk, rst, env)
    mark = m.OutputReg('mark', 32, initval=0)
    gate = m.Input('gate', 32)
    env.update(mark=mark, gate=gate)
    off = s['base'] or 0
    L = ['def program():']
    if s['base'] is not None:
        L += ['    mi.set_global_base_addr(%d)' % off, '    mo.set_global_base_addr(%d)' % off]
    size = 1 << 18
    mem0 = [((i * 7) ^ (i >> 8) ^ (i >> 3)) + 13 & 255 for i in range(131072)]
    model = [[ram_init(i, k, w) for k in range(1 << aw)] for i, (w, aw) in enumerate(s['store'])]
    expect, wmem, free = [], {}, set()
    total = 0
    for r, (mi, ri, mo, wo, order, w) in enumerate(s['rounds']):
        A = ['si.dma_read_async(r%d, %d, %d, %d%s)' % (i, la, n, st, ', port=1' if p else '') for i, la, n, st, p in mi]
        B = ['mi.dma_read_async(%d, %d)' % ((ga - off) % (1 << 32), k) for ga, k in ri]
        L += ['    ' + x for x in (A + B if order else B[:1] + A + B[1:])]
        L += ['    si.dma_wait_read()'] + (['    mi.dma_wait_read()'] if w else [])
        data = b''.join(bytes(mem0[ga:ga + k * nb]) for ga, k in ri)
        pos = 0
        for i, la, n, st, p in mi:
            e = s['store'][i][0]
            c = beats(dw, e, n) * nb
            v = int.from_bytes(data[pos:pos + c], 'little')
            pos += c
            total += c // nb
            for j in range(n):
                model[i][la + j * st] = (v >> (e * j)) & ((1 << e) - 1)
        A = ['so.dma_write_async(r%d, %d, %d, %d%s)' % (i, la, n, st, ', port=1' if p else '') for i, la, n, st, p in mo]
        B = ['mo.dma_write_async(%d, %d)' % ((ga - off) % (1 << 32), k) for ga, k in wo]
        L += ['    ' + x for x in (A + B if order else B[:1] + A + B[1:])]
        L += ['    so.dma_wait_write()', '    mo.dma_wait_write()']
        stream, masks = b'', b''
        for i, la, n, st, p in mo:
            e = s['store'][i][0]
            c = beats(dw, e, n) * nb
            v = sum(model[i][la + j * st] << (e * j) for j in range(n))
            stream += v.to_bytes(c, 'little')
            masks += ((1 << (e * n)) - 1).to_bytes(c, 'little')
        pos = 0
        for ga, k in wo:
            for j in range(k * nb):
                if masks[pos]:
                    wmem[ga + j] = stream[pos]
                    free.discard(ga + j)
                else:
                    free.add(ga + j)
                pos += 1
            total += k
        L += ['    mark.value = %d' % (r + 1), '    while gate != %d:' % (r + 1), '        pass']
        expect.append(([list(x) for x in model], dict(wmem), set(free)))
    src = '\n'.join(L) + "\nvthread.Thread(m, 'th', clk, rst, program, datawidth=%d).start()\n" % max([32, dw] + [w for w, _ in s['store']])
    ns, path = thr.load(src, env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    body = init_text(list(enumerate(s['store'])))
    ports = set(m.io_variable)
    b1 = axibfm.bfm('mi', dw, ports, s['seed'], s['prob'][0], 131072)
    b2 = axibfm.bfm('mo', dw, ports, s['seed'] + 7, s['prob'][1], size)
    b1, b2 = [re.sub(r'(\w+)_P\b', r'\1_' + n, re.sub(r'\bi\b', 'i' + n, re.sub(r'\bMEM\b', 'MEM' + n, x))) for x, n in ((b1, 'mi'), (b2, 'mo'))]
    body += [b1, b2]
    body.append('  integer lastmark; initial begin gate = 0; lastmark = 0; end')
    body.append('  always @(posedge CLK) if(!RST && mark != lastmark) begin lastmark = mark; $write("M");')
    for i in range(len(s['store'])):
        body.append('    $write(" ;"); for(k = 0; k < %d; k = k + 1) $write(" %%h", d.inst_r%d.mem[k]);' % (1 << s['store'][i][1], i))
    body.append('    $write("\\n"); #1 gate = lastmark;')
    body.append('    if(lastmark == %d) begin repeat(100) @(posedge CLK); $display("END"); $finish(0); end end' % len(s['rounds']))
    lines = scan(frame(m, text, body, 20000 + total * 200), dict(ops=s['rounds']))
    got_mem, rnd_no = {}, 0
    for l in lines:
        if l.startswith('W '):
            _, ad, v, stb = l.split()
            ad, stb = int(ad, 16), int(stb, 16)
            for j in range(nb):
                if stb >> j & 1:
                    x = v[len(v) - 2 * j - 2:len(v) - 2 * j]
                    got_mem[ad + j] = None if 'x' in x else int(x, 16)
        elif l.startswith('M'):
            ms = [x.split() for x in l.split(';')[1:]]
            for i, (a, b) in enumerate(zip(ms, expect[rnd_no][0])):
                for k, (x, y) in enumerate(zip(a, b)):
                    if 'x' in x or int(x, 16) != y:
                        raise Violation('round %d: RAM %d (%d bits, bus %d) word %d holds %s, expected %x' % (rnd_no, i, s['store'][i][0], dw, k, x, y))
            if rnd_no == len(expect) - 1:
                break
            rnd_no += 1
    # late writes: the wait for the stream does not wait for the responses of the memory
    for l in lines[lines.index([x for x in lines if x.startswith('M')][-1]):]:
        if l.startswith('W '):
            _, ad, v, stb = l.split()
            ad, stb = int(ad, 16), int(stb, 16)
            for j in range(nb):
                if stb >> j & 1:
                    x = v[len(v) - 2 * j - 2:len(v) - 2 * j]
                    got_mem[ad + j] = None if 'x' in x else int(x, 16)
    want, fr = expect[-1][1], expect[-1][2]
    for k, v in want.items():
        if k not in fr and got_mem.get(k) != v:
            raise Violation('memory byte %x is %s, expected %x' % (k, got_mem.get(k), v))
    for k in got_mem:
        if k not in want and k not in fr:
            raise Violation('memory byte %x was written' % k)
    return dict(nontrivial=total > 4, labels=['bus %d' % dw, 'rounds %d' % len(s['rounds'])] + (['base'] if s['base'] is not None else []))


PARTS = [Part('in', endpoint_case(False), in_run, quick=200, thorough=6000),
         Part('out', endpoint_case(True), out_run, quick=200, thorough=6000),
         Part('pipe', pipe_case(), pipe_run, quick=150, thorough=4000),
         Part('axim', axim_case(), axim_run, quick=50, thorough=1500)]

if __name__ == '__main__':
    main('C18', PARTS,
         rule='1-8 transfers between a thread, 1-3 RAMs or FIFOs (8-256 bits; equal, wider and narrower than the 8-128 bit stream, also by factors of 3 and 5) and an AXI '
              'stream with random valid/ready timing (blocking, asynchronous, strides, ports, sizes 1..depth), stream-FIFO-stream chains, and memory-stream-RAM-stream-memory '
              'chains through the AXI adaptors; every word, the last flags, the number of beats taken and the handshakes are compared; non-trivial = more than 3 words',
         assumptions=['writes from FIFOs narrower than the stream move whole beats', 'the unused part of the last beat written from a narrower RAM is unspecified'])
