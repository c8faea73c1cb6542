"""C19: stream accelerators compute their dataflow graph.

Oracle: sgraph, an element-wise reference evaluator.  Graphs are run as plain stream modules, with and without valid/ready control and
with random stalls (streams of threads between memories are in C20).
"""
import copy
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import sgraph

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.stream as stream
import veriloggen.stream.stypes as stypes


@spec
def graph_case(d):
    ctl = d.pick(['none', 'valid', 'ready', 'both', 'both', 'valid'])
    stateful = ctl in ('valid', 'both')
    n = d.int(5, 14)
    g = sgraph.gen_graph(d, stateful, nmax=12, points=d.chance(3))
    data = []
    for b in g['base']:
        if b[0] == 'in':
            w = b[1]
            data.append([d.pick([0, 1, (1 << w) - 1, 1 << (w - 1), d.int(0, (1 << w) - 1), d.int(0, (1 << w) - 1)]) for _ in range(n)])
    return dict(g=g, n=n, ctl=ctl, data=data, stall=[d.int(0, 3) > 0 for _ in range(24)], api=d.pick(['module', 'object', 'object']),
                wire=d.bool(), gap=d.int(0, 3))


def graph_run(s):
    ctl, n = s['ctl'], s['n']
    names = dict(valid=('ivalid', 'ovalid'), ready=('iready', 'oready'), both=('ivalid', 'ovalid', 'iready', 'oready'), none=())[ctl]
    opts = {x: x for x in names}
    params = []

    def mkpar(name, v, w, sg, form):
        if form == 'p':
            return stypes.Parameter(name, v, w, 0, sg)
        if form == 'v':
            params.append((name, w, v))
            return stypes.ParameterVariable(name, w, 0, sg)
        return stypes.ParameterVariable(v, w, 0, sg)
    if s['api'] == 'object':
        m = Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        st = stream.Stream(module=m, clock=clk, reset=rst, aswire=False, **opts)
        api = st
    else:
        api = stypes
    g = sgraph.Graph(s['g'], api, n, s['data'], params, lambda nm, w, p, sg: api.Variable(nm, w, p, sg), mkpar)
    if s['api'] == 'object':
        pass
    # outputs: the last node and the chosen ones
    idx = [len(g.nodes) - 1] + s['g']['outs']
    outs = []
    for i in idx:
        o, r = g.nodes[i]
        if r.const or any(o is x[1] for x in outs) or getattr(o, 'output_data', None) is not None:
            continue
        nm = 'z%d' % i
        o.output(nm)
        outs.append((nm, o, r))
    if not outs:
        return dict(nontrivial=False, labels=['constant'])
    for nm, o, r in outs:
        if (o.get_width(), bool(o.get_signed()), o.get_point()) != (r.w, r.s, r.p):
            raise Violation('format of output %s: width %s signed %s point %s, the rules give %s' % (
                nm, o.get_width(), o.get_signed(), o.get_point(), (r.w, r.s, r.p)))
    if s['api'] != 'object':
        st = stream.Stream(*[o for _, o, _ in outs], **opts)
        m = st.to_module('dut')
    text = m.to_verilog()
    # to_verilog implements a copy: the latency is that of another copy
    mm, ss = copy.deepcopy((m, st))
    if s['api'] == 'object':
        mm.resolve_hook()
    depth = ss.pipeline_depth()
    ports = set(re.findall(r'^  input .*?(\w+),?$', text, re.M))
    inb = [b for b in s['g']['base'] if b[0] == 'in']
    t = ['module tb;', '  reg CLK, RST; initial begin CLK = 0; forever #5 CLK = !CLK; end']
    conn = ['.CLK(CLK)', '.RST(RST)']
    drive = []
    for i, b in enumerate(inb):
        if 'x%d' % i in ports:
            t.append('  reg [%d:0] x%d;' % (b[1] - 1, i))
            conn.append('.x%d(x%d)' % (i, i))
            drive.append(i)
    for nm, w, v in params:
        if nm in ports:
            conn.append(".%s(%d'd%d)" % (nm, w, v & ((1 << w) - 1)))
    for nm, o, r in outs:
        t.append('  wire [%d:0] %s;' % (r.w - 1, nm))
        conn.append('.%s(%s)' % (nm, nm))
    t.append('  reg ivalid, oready; wire ovalid, iready;')
    for x in names:
        conn.append('.%s(%s)' % (x, x))
    t.append('  dut d(%s);' % ', '.join(conn))
    t.append('  integer cyc, k; reg [23:0] pat;')
    # the environment: elements are presented one after the other and kept while the stream stalls
    t.append('  initial begin RST = 1; ivalid = 0; oready = 1; k = 0; cyc = 0; pat = %d;%s' % (
        sum(1 << i for i, x in enumerate(s['stall']) if x) | 1, ''.join(' x%d = 0;' % i for i in drive)))
    t.append('    repeat(3) @(negedge CLK); RST = 0; repeat(%d) @(negedge CLK); run = 1; end' % s['gap'])
    t.append('  reg run; initial run = 0;')
    ready = 'oready' if ctl in ('ready', 'both') else "1'b1"
    # inputs change at the falling edge
    t.append('  always @(negedge CLK) if(run) begin')
    t.append('    oready = %s;' % ('pat[cyc %% 24]' % () if ctl in ('ready', 'both') else '1'))
    t.append('    case(k)')
    for e in range(n):
        t.append('      %d: begin ivalid = 1;%s end' % (e, ''.join(" x%d = %d'd%d;" % (i, inb[i][1], s['data'][i][e]) for i in drive)))
    t.append('      default: begin ivalid = 0; %s end' % ''.join(' x%d = %d;' % (i, i) for i in drive))
    t.append('    endcase cyc = cyc + 1; end')
    fmt = ' '.join(['%h'] * len(outs))
    t.append('  always @(posedge CLK) if(run && cyc > 0) begin')
    rchk = ' iready !== oready' if ctl in ('ready', 'both') else ' 0'
    t.append('    if(%s) $display("IREADY");' % rchk)
    ov = {'valid': 'ovalid', 'both': 'ovalid && oready', 'ready': 'oready', 'none': '1'}[ctl]
    t.append('    if(%s) $display("O %s", %s);' % (ov, fmt, ', '.join(x[0] for x in outs)))
    t.append('    if(%s) k = k + 1;' % ready)
    t.append('    if(cyc > %d) $finish(0);' % ((depth + n) * (1 if ready != 'oready' else 26) + 30))
    t.append('  end')
    t.append('endmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    rows = []
    for l in out.splitlines():
        if l.startswith('IREADY'):
            raise Violation('iready differs from the ready of the stream\n' + text)
        if l.startswith('O '):
            rows.append(l.split()[1:])
    if ctl in ('none', 'ready'):
        rows = rows[depth:depth + n]
    if len(rows) < n or (ctl in ('valid', 'both') and len(rows) != n):
        raise Violation('%d elements enter, %d leave (control %s)\n%s' % (n, len(rows), ctl, text))
    known = 0
    for e in range(n):
        for j, (nm, o, r) in enumerate(outs):
            want = r.v[e]
            if want is None:
                continue
            known += 1
            h = rows[e][j]
            got = int(h, 16) if not set(h) & set('xXzZ') else None
            if got != want:
                raise Violation('element %d of output %s (%s, w=%d s=%d p=%d) is %s, expected %x\ninputs %s\n%s' % (
                    e, nm, type(o).__name__, r.w, r.s, r.p, h, want, [[x[q] for q in range(e + 1)] for x in s['data']], text))
    return dict(nontrivial=known >= n and any(len(set(r.v)) > 1 for _, _, r in outs), labels=[ctl] + sorted(g.labels))


PARTS = [Part('graph', graph_case(), graph_run, quick=1500, thorough=40000)]

if __name__ == '__main__':
    main('C19', PARTS, rule='random stream graphs of 1-12 operators over 1-3 inputs, parameters and constants (signed and unsigned, with and '
         'without points), 5-14 elements, with none/valid/ready/both controls and random stalls; non-trivial = at least as many known output '
         'values as elements and an output that changes',
         assumptions=['Icarus Verilog 12 executes the streams'])
