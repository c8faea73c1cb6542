"""C29: skid buffers pass every beat once under backpressure.

Oracle: the sequence of accepted beats (a queue), evaluated over the handshakes observed in simulation.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.types.skidbuffer as sk


@spec
def skid_case(d):
    nb = d.pick([1, 1, 1, 2, 3])
    bufs = []
    for _ in range(nb):
        bufs.append(dict(ws=[[d.pick([None, 1, 1, 2, 7, 8, 32, 40]), d.chance(3), d.pick(['input', 'input', 'wire', 'reg', 'output'])]
                             for _ in range(d.pick([1, 1, 2, 3, 4]))],
                         kind=d.pick(['class', 'class', 'func']), prefix=d.pick([None, None, 'same', 'p']),
                         vexpr=d.chance(4), rexpr=d.chance(4), first=d.chance(3)))
    n = d.int(10, 60)
    mode = d.int(0, 4)
    rows = []
    for _ in range(n):
        rows.append([d.int(0, 3) < (4, 2, 3, 1, 2)[mode], d.int(0, 3) < (2, 4, 2, 3, 1)[mode], d.int(0, (1 << 32) - 1), d.chance(60)])
    return dict(bufs=bufs, chain=nb > 1 and d.bool(), polite=d.int(0, 2) > 0, rows=rows, again=d.chance(3))


def skid_run(s):
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    ios = []
    prev = None
    tbp = []
    body = []
    seq = Seq(m, 'dseq', clk, rst)
    for i, b in enumerate(s['bufs']):
        chained = s['chain'] and i > 0
        last = not s['chain'] or i == len(s['bufs']) - 1
        if not chained:
            sv = m.Input('sv%d' % i)
            tbp.append(('sv%d' % i, 1))
            sr = m.Output('sr%d' % i)
            vals = []
            for j, (w, sg, how) in enumerate(b['ws']):
                x = m.Input('d%d_%d' % (i, j), w, signed=sg)
                tbp.append(('d%d_%d' % (i, j), w or 1))
                if how == 'wire':
                    y = m.Wire('wd%d_%d' % (i, j), w, signed=sg)
                    y.assign(x)
                    x = y
                elif how == 'reg':
                    y = m.Reg('rd%d_%d' % (i, j), w, signed=sg)
                    m.Always()(y(x, blk=True))
                    x = y
                elif how == 'output':
                    y = m.Output('od%d_%d' % (i, j), w, signed=sg)
                    y.assign(x)
                    x = y
                vals.append(x)
            ws = b['ws']
        else:
            sv = prev['valid']
            vals = prev['values']
            ws = prev['ws']
        if last:
            mr = m.Input('mr%d' % i)
            tbp.append(('mr%d' % i, 1))
        else:
            mr = m.Wire('link%d' % i)
        v, r = sv, mr
        if b['vexpr']:
            v = vt.Ands(sv, vt.Int(1, width=1)) if i % 2 else vt.Not(vt.Not(sv))
        if b['rexpr']:
            r = vt.Ors(mr, vt.Int(0, width=1))
        if b['kind'] == 'func' and not chained:
            vals = vals[:1]
            ws = ws[:1]
            data, valid, ready = sk.make_skidbuffer(m, clk, rst, vals[0], v, r, prefix=b['prefix'])
            out = [data]
        else:
            k = sk.SkidBuffer(m, clk, rst, v, r, *vals, prefix=b['prefix'])
            out = k.values
            if [x is y for x, y in zip(out, [k[j] for j in range(len(out))])] != [True] * len(vals):
                raise Violation('values and indexing of a SkidBuffer disagree')
            valid, ready = k.valid, k.ready
        if chained:
            prev['mr'].assign(ready)
        else:
            sr.assign(ready)
        cur = dict(valid=valid, values=list(out), ws=ws, mr=mr, src=prev['src'] if chained else i)
        if last:
            mv = m.Output('mv%d' % i)
            mv.assign(valid)
            for j, ((w, sg, _), o) in enumerate(zip(ws, out)):
                if s['bufs'][cur['src']]['ws'] is ws or True:
                    q = m.Output('q%d_%d' % (i, j), 64)
                    q.assign(o)          # the sign of the value decides about the extension
            ios.append((cur['src'], i, [(w or 1, sg) for w, sg, _ in ws], i - cur['src'] + 1 if s['chain'] else 1))
        prev = cur
    if s['again']:
        m.to_verilog()
    text = m.to_verilog()

    t = ['module tb;', '  reg CLK, RST;', '  initial begin CLK = 0; forever #20 CLK = !CLK; end']
    for n, w in tbp:
        t.append('  reg [%d:0] %s;' % (w - 1, n))
    outs = []
    for src, dst, ws, _ in ios:
        t.append('  wire sr%d, mv%d;' % (src, dst))
        outs += ['sr%d' % src, 'mv%d' % dst]
        for j in range(len(ws)):
            t.append('  wire [63:0] q%d_%d;' % (dst, j))
            outs.append('q%d_%d' % (dst, j))
    for n, w in tbp:
        outs.append(n)
    t.append('  dut d(.CLK(CLK), .RST(RST), %s);' % ', '.join('.%s(%s)' % (x, x) for x in outs))
    t.append('  initial begin RST = 1;' + ''.join(' %s = 0;' % n for n, w in tbp))
    t.append('    repeat(3) @(negedge CLK); RST = 0; @(negedge CLK);')
    # a polite producer holds valid and data until they are accepted: its next beat is chosen at simulation time
    rows = [list(r) for r in s['rows']] + [[0, 1, 0, 0]] * 12
    for k, (v, r, x, rs) in enumerate(rows):
        t.append('    RST = %d;' % rs)
        for src, dst, ws, _ in ios:
            hold = 'if(!(sv%d && !sr%d && !RST)) begin' % (src, src) if s['polite'] else 'begin'
            t.append('    %s sv%d = %d;' % (hold, src, (v ^ (src > 0 and (k * 7 + src) % 3 == 0)) if k < len(s['rows']) else 0))
            for j, (w, _) in enumerate(ws):
                val = (x * 2654435761 + src * 977 + j * 7919 + (x << 20) + (x << (5 * j))) & ((1 << w) - 1)
                t.append("      d%d_%d = %d'd%d;" % (src, j, w, val))
            t.append('    end')
        # the ready of the input side must not depend on the ready of the output side within the cycle
        for src, dst, ws, _ in ios:
            rr = 1 if k >= len(s['rows']) else int(bool(r) ^ (dst > 0 and k % 3 == dst % 3))
            t.append('    mr%d = %d; #1 p = sr%d; mr%d = %d; #1 if(p !== sr%d) $display("COMB %d");' % (
                dst, 1 - rr, src, dst, rr, src, src))
        t.append('    #0 $display("R %s", RST, %s);' % (
            ' '.join(['%b'] + [' '.join(['%b %b %b %b'] + ['%h %h'] * len(ws)) for _, _, ws, _ in ios]),
            ', '.join(', '.join(['sv%d, sr%d, mv%d, mr%d' % (src, src, dst, dst)] + ['d%d_%d, q%d_%d' % (src, j, dst, j) for j in range(len(ws))])
                      for src, dst, ws, _ in ios)))
        t.append('    @(negedge CLK);')
    t.append('    $finish(0); end\n  reg p;\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    if 'COMB' in out:
        raise Violation('the ready output changes within the cycle with the ready input\n' + text)
    lines = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(lines) != len(rows):
        raise Violation('simulation ended early\n' + out[:500])
    if any('x' in c or 'z' in c for l in lines for c in [l[0]] + [l[1 + k] for k in range(4)]):
        raise Violation('unknown handshake signals\n%s\n%s' % (out[:600], text))
    stalls = moved = 0
    for ch, (src, dst, ws, stages) in enumerate(ios):
        off = 1 + sum(4 + 2 * len(w) for _, _, w, _ in ios[:ch])
        q = []
        hold = None
        ready_since = 0
        for k, l in enumerate(lines):
            rs = l[0] == '1'
            sv, sr, mv, mr = [x == '1' for x in l[off:off + 4]]
            din = [int(x, 16) for x in l[off + 4:off + 4 + 2 * len(ws):2]]
            dq = l[off + 5:off + 4 + 2 * len(ws):2]
            what = 'cycle %d, buffer of input %d: ' % (k, src)
            if hold is not None and (not mv or dq != hold):
                raise Violation(what + 'the output changed before it was accepted\n%s' % text)
            if mv:
                if not q:
                    raise Violation(what + 'valid without an accepted beat\n%s' % text)
                want = []
                for x, (w, sg) in zip(q[0], ws):
                    if sg and x >> (w - 1):
                        x |= ((1 << 64) - 1) ^ ((1 << w) - 1)
                    want.append(x)
                if any(set(x) & set('xz') for x in dq) or [int(x, 16) for x in dq] != want:
                    raise Violation(what + 'delivered %s instead of %s\n%s' % (dq, ['%x' % x for x in want], text))
            elif len(q) and not rs and not lines[k - 1][0] == '1' and stages == 1:
                raise Violation(what + 'an accepted beat is not offered in the next cycle\n%s' % text)
            if not sr and len(q) == 0:
                raise Violation(what + 'an empty buffer does not accept a beat\n%s' % text)
            if not rs and ready_since >= 2 * stages and not sr:
                raise Violation(what + 'ready is low although the consumer was always ready\n%s' % text)
            ready_since = ready_since + 1 if mr and not rs else 0
            hold = dq if mv and not mr and not rs else None
            if rs:
                q = []
                hold = None
                continue
            if mv and mr:
                q.pop(0)
                moved += 1
            if sv and sr:
                q.append(din)
            elif sv:
                stalls += 1
            if len(q) > 2 * stages:
                raise Violation(what + 'more than %d beats were accepted and not delivered\n%s' % (2 * stages, text))
        if q:
            raise Violation('%d accepted beats were never delivered\n%s' % (len(q), text))
    return dict(nontrivial=stalls > 0 and moved > 3, labels=['stall' if stalls else 'nostall', 'chain' if s['chain'] else 'single',
                                                             'polite' if s['polite'] else 'impolite'])


PARTS = [Part('skid', skid_case(), skid_run, quick=1500, thorough=50000)]

if __name__ == '__main__':
    main('C29', PARTS,
         rule='1-3 skid buffers (SkidBuffer class with 1-4 signals of any width/sign/kind, or make_skidbuffer), separate or chained, in one '
              'module; producer that holds its beat or drops it, random valid/ready/reset per cycle; checked per cycle: order, values, no loss, no '
              'duplication, output stable while waiting, occupancy bound, full rate, ready independent of the consumer within the cycle; '
              'non-trivial = the producer was stalled and more than 3 beats moved',
         assumptions=['Icarus Verilog 12 simulates the emitted module'])
