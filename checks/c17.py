"""C17: AXI slave register banks are coherent under any bus traffic.

Oracle: an independent AXI / AXI-Lite bus master (Verilog) with random timing on every channel runs a script of reads and writes while a
hardware thread uses the same registers; the recorded history of every register must be linearizable with respect to the register model
(value, flag, reset value).
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr, axibfm

from veriloggen import *  # noqa
import veriloggen.thread as vthread


@spec
def bank_case(d):
    dw = d.pick([32, 32, 32, 64, 16, 8])
    lite = d.bool()
    length = d.pick([1, 2, 3, 4, 4, 5, 8, 16])
    bus_w, bus_r, th = [], [], []
    uid = [0]

    def val():
        uid[0] += 1
        return (uid[0] * 0x9e3779b1 * 0x10001 + d.int(0, 255)) % (1 << dw) if dw > 8 else (uid[0] * 37 + d.int(0, 3)) % 256
    # which register is used by the waits (written by the bus exactly once per wait)
    waits = 0
    nth = d.int(0, 8)
    blocked = set()
    for k in range(nth):
        kind = d.pick(['read', 'read', 'write', 'write', 'flag', 'wait', 'waitn', 'waitf', 'idle'])
        r = d.int(0, length - 1)
        if kind.startswith('wait'):
            if length == 1:
                kind = 'read'
            else:
                r = length - 1
                blocked.add(r)
                v = waits + 1                       # all different
                bus_w.append(dict(r=r, vals=[v], sync=[len(th), d.bool()], after=len(th)))
                th.append([kind, r, v, val() | 128 if kind == 'waitf' else 0, d.int(0, 2)])
                waits += 1
                continue
        if r in blocked or (waits == 0 and r == length - 1 and length > 1):
            r = d.int(0, length - 2) if length > 1 else 0
        th.append([kind, r, val(), val(), d.int(0, 2)])
        if d.chance(8):
            n = 1 if lite else d.int(1, min(4, max(1, length - 1)))
            st = d.int(0, max(0, length - 1 - n))
            bus_w.append(dict(r=st, vals=[val() for _ in range(n)], sync=[len(th), False], after=None))
    for _ in range(d.int(0, 5)):
        n = 1 if lite else d.int(1, min(4, max(1, length - 1)))
        st = d.int(0, max(0, length - 1 - n))
        bus_w.append(dict(r=st, vals=[val() for _ in range(n)], sync=None, after=None))
    for _ in range(d.int(1, 10)):
        n = 1 if lite else d.int(1, min(8, length))
        st = d.int(0, length - n)
        bus_r.append(dict(r=st, n=n, sync=d.int(0, max(0, len(th))) if d.chance(4) else None))
    return dict(dw=dw, lite=lite, length=length, w=bus_w, r=bus_r, th=th, prob=[d.pick([15, 15, 8, 4, 2]) for _ in range(5)], seed=d.int(0, 9999), ids=d.pick([0, 0, 4]),
                hi=d.pick([0, 0, 1, 0x1234]), form=d.bool(), asmod=d.chance(4), early=d.bool(), outstanding=d.pick([1, 1, 2, 3]), user=d.pick([2, 2, 0]))


def bank_run(s):
    dw, lite, length = s['dw'], s['lite'], s['length']
    nb = dw // 8
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    mark = m.OutputReg('mark', 32, initval=0)
    env = dict(vthread=vthread, m=m, clk=clk, rst=rst, mark=mark)
    if lite:
        env['s'] = vthread.AXISLiteRegister(m, 's', clk, rst, dw, length=length, fsm_as_module=s['asmod'])
    else:
        env['s'] = vthread.AXISRegister(m, 's', clk, rst, dw, length=length, fsm_as_module=s['asmod'], waddr_id_width=s['ids'], wresp_id_width=s['ids'], raddr_id_width=s['ids'],
                                        rdata_id_width=s['ids'], waddr_user_width=s['user'], raddr_user_width=s['user'])
    L = ['def program():']
    e = L.append
    sg = lambda v: thr.signed(v, dw)
    for k, (kind, r, v, v2, idle) in enumerate(s['th']):
        for _ in range(idle):
            e('    pass')
        R, V = str(r), str(sg(v))
        if s['form']:
            e('    r = %s' % R)
            e('    v = %s' % V)
            if kind in ('write', 'flag', 'read', 'waitf') or k % 2:
                R = 'r'
            V = 'v'
        e('    mark.value = %d' % (2 * k + 1))
        if kind == 'read':
            e('    x = s.read(%s)' % R)
            e("    print('T %d', x)" % k)
        elif kind == 'write':
            e('    s.write(%s, %s)' % (R, V))
        elif kind == 'flag':
            e('    s.write_flag(%s, %s, %d)' % (R, V, sg(v2)))
        elif kind == 'wait':
            e('    s.wait(%s, %s)' % (R, V))
        elif kind == 'waitn':
            e('    s.wait(%s, %s, polarity=False)' % (R, 'v9'))
        elif kind == 'waitf':
            e('    s.wait_flag(%s, %s, resetvalue=%d)' % (R, V, sg(v2)))
        e('    mark.value = %d' % (2 * k + 2))
        if kind == 'waitn':
            i = max(j for j, l in enumerate(L) if l.strip() == 'mark.value = %d' % (2 * k + 1))
            L.insert(i, '    v9 = s.read(%d)' % r)       # wait until it changes
    if not s['th']:
        e('    mark.value = 0')
    e("    print('END')")
    e("vthread.Thread(m, 'th', clk, rst, program, datawidth=%d).start()" % max(32, dw))
    ns, path = thr.load('\n'.join(L) + '\n', env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    decl, conn = axibfm.declare(m, ('CLK', 'RST'))
    nth = len(s['th'])
    ports = set(m.io_variable)
    # ---- scripts of the bus master
    W, Rd = [], []
    # sync: [k, after]: the write is issued when operation k of the thread starts (or was started), next ones after it finished
    order = [dict(w) for w in s['w']]
    for w in order:
        need, post = 0, 0
        if w['sync']:
            k, atstart = w['sync']
            # registers used by waits are written after the thread has finished everything before
            need = 2 * k + (1 if w['after'] is not None and (atstart or s['th'][k][0] == 'waitn') else 0)
            if w['after'] is not None:
                post = 2 * k + 2
                if s['th'][k][0] == 'waitn':
                    need = 2 * k + 1
        W.append([need, post, w['r'], w['vals']])
    # writes without synchronization are spread between the others
    free = [w for w, o in zip(W, order) if o['sync'] is None]
    syn = [w for w, o in zip(W, order) if o['sync'] is not None]
    W = []
    for i, w in enumerate(syn):
        W.append(w)
        if i < len(free):
            W.append(free[i])
    W += free[len(syn):]
    for r in s['r']:
        Rd.append([2 * r['sync'] if r['sync'] is not None else 0, r['r'], r['n']])
    for r in range(length):
        Rd.append([-1, r, 1])            # at the end
    pw, pd, pb, par, prr = s['prob']
    hi = s['hi'] << (nb * 16).bit_length()
    t = ['module tb;', '  reg CLK, RST; integer cyc, seed, i; reg thend;', decl, '  dut d(%s);' % conn, '  initial begin CLK = 0; forever #5 CLK = !CLK; end',
         '  initial begin RST = 1; cyc = 0; seed = %d; wdone = 0; rdone = 0; acc = 0; #100 RST = 0; end' % s['seed'],
         '  integer wdone, rdone, lastmark, awi, wi, wb, bi, ari, ri, rb, acc; reg pb, pr; reg [%d:0] prd; reg prl;' % (dw - 1)]
    nw, nr = len(W), len(Rd)
    t.append('  integer wneed [0:%d]; integer wpost [0:%d]; integer wreg [0:%d]; integer wlen [0:%d]; reg [%d:0] wval [0:%d];' % (nw + 1, nw + 1, nw + 1, nw + 1, dw - 1, nw * 8 + 8))
    t.append('  integer rneed [0:%d]; integer rreg [0:%d]; integer rlen [0:%d];' % (nr + 1, nr + 1, nr + 1))
    t.append('  initial begin lastmark = -1; awi = 0; wi = 0; wb = 0; bi = 0; ari = 0; ri = 0; rb = 0; pb = 0; pr = 0; s_awvalid = 0; s_wvalid = 0; s_bready = 0; s_arvalid = 0; s_rready = 0; thend = %d;' % (nth == 0))
    for p in ports:
        if p.startswith('s_') and p.split('_')[1] in ('awid', 'awsize', 'awburst', 'awlock', 'awcache', 'awprot', 'awqos', 'awuser', 'arid', 'arsize', 'arburst', 'arlock', 'arcache', 'arprot',
                                                      'arqos', 'aruser', 'awlen', 'arlen', 'wlast', 'wuser'):
            t.append('    %s = %d;' % (p, {'awsize': nb.bit_length() - 1, 'arsize': nb.bit_length() - 1, 'awburst': 1, 'arburst': 1, 'wlast': 1}.get(p.split('_')[1], 0)))
    for i, (need, post, r, vals) in enumerate(W):
        t.append('    wneed[%d] = %d; wpost[%d] = %d; wreg[%d] = %d; wlen[%d] = %d;' % (i, need, i, post, i, r, i, len(vals)))
        for j, v in enumerate(vals):
            t.append("    wval[%d] = %d'd%d;" % (i * 8 + j, dw, v))
    for i, (need, r, n) in enumerate(Rd):
        t.append('    rneed[%d] = %d; rreg[%d] = %d; rlen[%d] = %d;' % (i, need, i, r, i, n))
    t.append('  end')
    has = lambda x: 's_' + x in ports
    t.append('''
  function chance; input integer p; begin chance = ($random(seed) & 15) <= p; end endfunction
  always @(posedge CLK) begin
    cyc = cyc + 1;
    if(cyc > 30000) begin $display("TIMEOUT"); $finish(0); end
    if(!RST) begin
      if(mark !== lastmark) begin lastmark = mark; $display("MARK %0d %0d", mark, cyc); end
      // address of writes
      if(s_awvalid && s_awready) begin s_awvalid <= 0; awi = awi + 1; acc = acc + 1; end
      if((!s_awvalid || s_awready) && awi < NW && awi - bi < OUTST && (awi == 0 || wpost[awi-1] == 0 || mark >= wpost[awi-1]) && mark >= wneed[awi] && chance(PAW)) begin
        s_awvalid <= 1; s_awaddr <= HI + wreg[awi] * NB; AWLEN AWID
        $display("WI %0d %0d", awi, cyc);
      end
      // write data
      if(s_wvalid && s_wready) begin s_wvalid <= 0; wb = wb + 1; if(wb == wlen[wi]) begin wb = 0; wi = wi + 1; end end
      if((!s_wvalid || s_wready) && wi < NW && (wi < awi || (wi == awi && EARLY && (wi == 0 || wpost[wi-1] == 0 || mark >= wpost[wi-1]))) && chance(PW)) begin
        s_wvalid <= 1; s_wdata <= wval[wi * 8 + wb]; s_wstrb <= {NB{1'b1}}; WLAST
      end
      // write responses
      if(pb && s_bvalid !== 1) $display("PROTO a write response was withdrawn");
      if(s_bvalid && s_bready) begin
        if(s_bresp !== 0) $display("PROTO bresp");
        BIDCHK
        if(bi >= acc || bi >= wi) $display("PROTO response without write");
        $display("WR %0d %0d", bi, cyc); bi = bi + 1;
      end
      pb = s_bvalid && !s_bready;
      s_bready <= chance(PB);
      // read addresses
      if(s_arvalid && s_arready) begin s_arvalid <= 0; ari = ari + 1; end
      if((!s_arvalid || s_arready) && ari < NR && ari - ri < OUTST && (rneed[ari] >= 0 ? mark >= rneed[ari] : (thend && bi == NW && ari == ri)) && chance(PAR)) begin
        s_arvalid <= 1; s_araddr <= HI + rreg[ari] * NB; ARLEN ARID
        $display("RI %0d %0d", ari, cyc);
      end
      // read data
      if(pr && (s_rvalid !== 1 || s_rdata !== prd RLASTST)) $display("PROTO read data changed");
      if(s_rvalid && s_rready) begin
        if(s_rresp !== 0) $display("PROTO rresp");
        RIDCHK
        if(ri >= ari) $display("PROTO read data without request");
        $display("RD %0d %0d %h %0d", ri, rb, s_rdata, cyc);
        RLASTCHK
        rb = rb + 1; if(rb == rlen[ri]) begin rb = 0; ri = ri + 1; end
      end
      pr = s_rvalid && !s_rready; prd = s_rdata; RLASTSAVE
      s_rready <= chance(PR);
      if(ri == NR && bi == NW && thend) begin repeat(20) @(posedge CLK); if(s_bvalid || s_rvalid) $display("PROTO response at the end"); $display("FIN"); $finish(0); end
    end
  end
  always @(mark) if(mark == NTH * 2) thend = 1;
endmodule'''.replace('AWLEN', 's_awlen <= wlen[awi] - 1;' if has('awlen') else '').replace('AWID', 's_awid <= awi * 5 + 3;' if has('awid') else '')
             .replace('WLAST', 's_wlast <= wb == wlen[wi] - 1;' if has('wlast') else '').replace('BIDCHK', 'if(s_bid !== ((bi * 5 + 3) & 15)) $display("PROTO bid %h of response %0d", s_bid, bi);' if has('bid') else '')
             .replace('ARLEN', 's_arlen <= rlen[ari] - 1;' if has('arlen') else '').replace('ARID', 's_arid <= ari * 3 + 1;' if has('arid') else '')
             .replace('RIDCHK', 'if(s_rid !== ((ri * 3 + 1) & 15)) $display("PROTO rid %h of read %0d", s_rid, ri);' if has('rid') else '')
             .replace('RLASTCHK', 'if(s_rlast !== (rb == rlen[ri] - 1)) $display("PROTO rlast %b in beat %0d of %0d", s_rlast, rb, rlen[ri]);' if has('rlast') else '')
             .replace('RLASTST', '|| s_rlast !== prl' if has('rlast') else '').replace('RLASTSAVE', 'prl = s_rlast;' if has('rlast') else '')
             .replace('NTH', str(nth)).replace('NW', str(nw)).replace('NR', str(nr)).replace('NB', str(nb)).replace('HI', str(hi)).replace('OUTST', str(s['outstanding']))
             .replace('EARLY', str(int(s['early']))).replace('PAW', str(pw)).replace('PW', str(pd)).replace('PB', str(pb)).replace('PAR', str(par)).replace('PROTO', '@@').replace('PR', str(prr)).replace('@@', 'PROTO'))
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb', timeout=60)
    # ---- history
    desc = 'thread %s, writes %s, reads %s' % (s['th'], W, Rd)
    marks, wi, wr, ri, rd, tv = {}, {}, {}, {}, {}, {}
    fin = False
    for l in out.splitlines():
        w = l.split()
        if not w:
            continue
        if w[0] in ('PROTO', 'TIMEOUT'):
            raise Violation('%s; %s' % (l, desc))
        if w[0] == 'MARK':
            marks[int(w[1])] = int(w[2])
        elif w[0] == 'WI':
            wi[int(w[1])] = int(w[2])
        elif w[0] == 'WR':
            wr[int(w[1])] = int(w[2])
        elif w[0] == 'RI':
            ri[int(w[1])] = int(w[2])
        elif w[0] == 'RD':
            rd[(int(w[1]), int(w[2]))] = (w[3], int(w[4]))
        elif w[0] == 'T':
            tv[int(w[1])] = w[2]
        elif w[0] == 'FIN':
            fin = True
    if not fin:
        raise Violation('the simulation did not finish: %s; %s' % (out[-300:], desc))
    hist = [[] for _ in range(length)]
    M = (1 << dw) - 1
    overlap = 0
    for i, (need, post, r, vals) in enumerate(W):
        for j, v in enumerate(vals):
            hist[r + j].append((wi[i] + 1, wr[i], 'bw', v, None, 'bus write %d = %x' % (r + j, v)))
    for i, (need, r, n) in enumerate(Rd):
        for j in range(n):
            h, c = rd[(i, j)]
            if set(h) & set('xz'):
                raise Violation('the bus reads %s from register %d; %s' % (h, r + j, desc))
            hist[r + j].append((ri[i] + 1, c, 'br', int(h, 16), None, 'bus read %d = %s' % (r + j, h)))
    for k, (kind, r, v, v2, _) in enumerate(s['th']):
        a, b = marks.get(2 * k + 1), marks.get(2 * k + 2)
        if a is None or b is None:
            raise Violation('the thread did not execute operation %d (%s); %s' % (k, kind, desc))
        name = 'thread %s %d' % (kind, r)
        if kind == 'read':
            hist[r].append((a, b, 'tr', int(tv[k]) & M, None, name + ' = %x' % (int(tv[k]) & M)))
        elif kind == 'write':
            hist[r].append((a, b, 'tw', v, None, name + ' = %x' % v))
        elif kind == 'flag':
            hist[r].append((a, b, 'tf', v, v2, name + ' = %x, %x' % (v, v2)))
        elif kind == 'wait':
            hist[r].append((a, b, 'tr', v, None, name + ' = %x' % v))
        elif kind == 'waitf':
            hist[r].append((a, b, 'rw', v, v2, name + ' %x -> %x' % (v, v2)))
    for r in range(length):
        h = sorted(hist[r])
        overlap += sum(1 for i in range(len(h) - 1) if h[i + 1][0] <= h[i][1])
        if not linearizable(h):
            raise Violation('register %d: no order explains the history %s; %s' % (r, [(x[0], x[1], x[5]) for x in h], desc))
    return dict(nontrivial=len(s['w']) > 0 and len(s['th']) > 0, labels=['lite' if lite else 'full', 'dw%d' % dw] + sorted(set(x[0] for x in s['th'])) + (['concurrent'] if overlap else []))


def linearizable(ops):
    n = len(ops)
    seen = set()

    def step(state, op):
        v, f, rv = state
        kind, x, y = op[2], op[3], op[4]
        if kind == 'bw':
            return [(x, f, rv), (x, 0, 0)] if f else [(x, 0, 0)]
        if kind == 'br':
            if v != x:
                return []
            return [(rv, 0, 0)] if f else [state]
        if kind == 'tr':
            return [state] if v == x else []
        if kind == 'tw':
            return [(x, 0, 0)]
        if kind == 'tf':
            return [(x, 1, y)]
        if kind == 'rw':
            if v != x:
                return []
            return [(y, f, rv), (y, 0, 0)] if f else [(y, 0, 0)]

    stack = [(0, (0, 0, 0))]
    full = (1 << n) - 1
    while stack:
        mask, st = stack.pop()
        if mask == full:
            return True
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        rest = [i for i in range(n) if not mask >> i & 1]
        first_end = min(ops[i][1] for i in rest)
        for i in rest:
            if ops[i][0] <= first_end:
                for ns in step(st, ops[i]):
                    stack.append((mask | 1 << i, ns))
    return False


PARTS = [Part('bank', bank_case(), bank_run, quick=1000, thorough=8000)]

if __name__ == '__main__':
    main('C17', PARTS,
         rule='register banks (AXI with bursts and ids, AXI-Lite; 1-16 registers of 8-64 bits) driven by a bus master with random timing and up to 3 '
              'outstanding requests, while a thread reads, writes, sets flags and waits; the history of every register must be linearizable and all '
              'handshakes legal; non-trivial = both the bus and the thread write',
         assumptions=['all write strobes are set (the slave is allowed to treat every write as full width)', 'addresses stay inside the bank, bursts are incrementing',
                      'a register consumed by wait_flag is not written again by the bus until the thread has passed the wait'])
