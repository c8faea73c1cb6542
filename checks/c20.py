"""C20: stream sources and sinks walk exactly the described addresses.

Random streams (sources, parameters, sinks with and without conditions, table reads, indirect writes) are run several times with access descriptions that
change from run to run. Oracle: a Python model that enumerates the described elements. The test bench dumps every RAM word when the thread has joined.
"""
import random
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.thread as vthread


def factors(d, n, most):
    """n as a product of 1..most factors"""
    out = []
    while len(out) < most - 1 and d.bool():
        ds = [k for k in range(1, n + 1) if n % k == 0]
        k = d.pick(ds)
        out.append(k)
        n //= k
    out.append(n)
    return d.shuffle(out)


def fit(d, addrs, half, hi):
    """an offset which moves the addresses into the lower or upper half of the RAM; None when they do not fit"""
    lo, up = min(addrs), max(addrs)
    if up - lo >= half:
        return None
    return d.int(0, half - 1 - (up - lo)) - lo + (half if hi else 0)


def pat_addrs(pat):
    """innermost dimension first"""
    out = [0]
    for n, s in pat:
        out = [b + k * s for k in range(n) for b in out] if n else []
    return out


def describe(d, n, half, hi, kinds, ml, mm):
    """an access description of n elements inside one half of a RAM: [kind, ...], with its addresses computable by walk()"""
    for _ in range(5):
        k = d.pick(kinds)
        if k == 'normal':
            st = d.pick([1, 1, 2, 3, 0, -1])
            off = fit(d, [j * st for j in range(n)], half, hi)
            if off is not None:
                return ['normal', off, n, st]
        elif k == 'pattern':
            pat = [[f, d.pick([0, 1, 1, 2, 3, -1, 4, 8])] for f in factors(d, n, ml)]
            off = fit(d, pat_addrs(pat), half, hi)
            if off is not None:
                return ['pattern', off, pat]
        elif k == 'multidim':
            shape = factors(d, n, ml)
            order = d.pick([None, d.shuffle(list(range(len(shape))))])
            if n <= half:
                return ['multidim', d.int(0, half - n) + (half if hi else 0), shape, order]
        elif k == 'multi':
            if n < 2 or d.chance(3):
                parts = [n]
            elif n < 3 or mm < 3 or d.bool():
                a = d.int(1, n - 1)
                parts = [a, n - a]
            else:
                parts = [1] * 3 if n == 3 else [n - 2, 1, 1]
            offs, pats = [], []
            for p in parts:
                pat = [[f, d.pick([0, 1, 1, 2, 3, -1, 4])] for f in factors(d, p, ml)]
                off = fit(d, pat_addrs(pat), half, hi)
                if off is None:
                    break
                offs.append(off)
                pats.append(pat)
            else:
                return ['multi', offs, pats]
        elif k == 'gen':
            st = d.pick([1, 2, 3, -1, 0])
            acc = d.pick([0, 0, 1])
            a, l = 0, []
            for j in range(n):
                l.append(a)
                a += st + j * acc
            off = fit(d, l, half, hi)
            if off is not None:
                return ['gen', off, n, st, acc]
    return ['normal', half if hi else 0, n, 1 if n <= half else 0]


def walk(a):
    k = a[0]
    if k == 'normal':
        return [a[1] + j * a[3] for j in range(a[2])]
    if k == 'pattern':
        return [a[1] + x for x in pat_addrs(a[2])]
    if k == 'multidim':
        shape = a[2]
        order = a[3] if a[3] is not None else list(reversed(range(len(shape))))
        pat = []
        for p in order:
            s = 1
            for x in shape[p + 1:]:
                s *= x
            pat.append((shape[p], s))
        return [a[1] + x for x in pat_addrs(pat)]
    if k == 'multi':
        return [o + x for o, p in zip(a[1], a[2]) for x in pat_addrs(p)]
    if k == 'gen':
        out, x = [], a[1]
        for j in range(a[2]):
            out.append(x)
            x += a[3] + j * a[4]
        return out
    raise ValueError(a)


@spec
def case(d, fifos):
    dw = d.pick([32, 32, 16, 8])
    aw = d.pick([5, 6, 7])
    half = 1 << (aw - 1)
    nsink = d.int(1, 3)
    nr = d.int(nsink, 3)
    ns = d.int(1, 3)
    ml = d.pick([4, 4, 2])
    mm = d.pick([2, 2, 3])
    npar = d.int(0, 2)
    rd = d.chance(3)
    wr = d.chance(4)
    exprs = ['src', 'add', 'sub', 'xor', 'counter', 'acc'] + (['mulp', 'addp', 'addp'] if npar else []) + (['lut', 'lut'] if rd else [])

    def expr():
        return [d.pick(exprs), d.int(0, ns - 1), d.int(0, ns - 1), d.int(0, max(0, npar - 1))]
    sinks = []
    for _ in range(nsink):
        when = d.pick([None, None, ['bit', d.int(0, ns - 1)], ['every', d.int(0, ns - 1), d.int(2, 5)]])
        sinks.append([expr(), when])
    # what each stream variable may be used with in this design
    kinds = ['normal', 'normal', 'pattern', 'multidim', 'multi', 'gen']
    if d.bool():
        kinds = d.subset(kinds, 1)
    infifo = [fifos and d.bool() for _ in range(ns)]
    outfifo = [fifos and d.bool() for _ in sinks]
    runs = []
    hi = False
    for r in range(d.int(1, 5)):
        n = d.pick([1, 2, 3, 4, d.int(1, 9), d.int(1, 24), d.int(1, 40)])
        chain = r > 0 and runs[-1]['loop'] == 1 and not fifos and d.chance(3)       # starts before the previous run has finished
        if not chain:
            hi = d.bool()
        loop = d.pick([1, 1, 1, 2]) if not chain and not fifos else 1
        src, used = [], []
        live = 0
        for i in range(ns):
            if chain:
                o = runs[-1]['src'][i]
                src.append(o if o[0] != 'ram' else o[:3] + [describe(d, n, half, hi, kinds, ml, mm)])
                continue
            if infifo[i] and d.chance(3) is False:
                src.append(['fifo', n])
                live += 1
                continue
            if d.chance(6) and (i < ns - 1 or live):
                src.append(['empty', d.int(0, 100)])
                continue
            live += 1
            p = d.pick([[x, y] for x in range(nr) for y in (0, 2, 4) if [x, y] not in used])
            used.append(p)
            src.append(['ram'] + p + [describe(d, n, half, hi, kinds, ml, mm)])
        snk, used = [], []
        for e, w in sinks:
            k = 'ram'
            if chain:
                o = runs[-1]['snk'][len(snk)]
                snk.append(o if o[0] != 'ram' else o[:3] + [describe(d, n, half, not hi, kinds, ml, mm), o[4]])
                continue
            if outfifo[len(snk)] and d.chance(3) is False:
                k = 'fifo'
            elif d.chance(8):
                k = 'empty'
            elif d.chance(5):
                k = 'imm'
            if k == 'ram':
                p = d.pick([[x, y] for x in range(nr) for y in (1, 3) if x not in [z[0] for z in used]])
                used.append(p)
                lim = d.pick([0, 0, 0, 1, 2] if w else [0, 0, 0, 1])
                snk.append(['ram'] + p + [describe(d, n, half, not hi, kinds, ml, mm), lim])
            else:
                snk.append([k])
        runs.append(dict(n=n, chain=chain, loop=loop, src=src, snk=snk, par=[d.int(0, 9) for _ in range(npar)], join=d.int(0, 2), hoist=d.bool()))
    return dict(dw=dw, aw=aw, nr=nr, ns=ns, ml=ml, mm=mm, npar=npar, sinks=sinks, rd=rd, wr=[d.int(0, ns - 1), d.int(0, ns - 1)] if wr else None, runs=runs, infifo=infifo,
                outfifo=outfifo, asmod=d.chance(6), slow=[d.pick([0, 0, 2, 7]) for _ in range(ns + len(sinks))], faw=d.pick([2, 3, 4]), seed=d.int(0, 9999), var=d.bool())


def model(s):
    """list of (rams after the run, immediates), fifo inputs per source, fifo outputs per sink"""
    dw, aw = s['dw'], s['aw']
    mask = (1 << dw) - 1
    rnd = random.Random(s['seed'])
    rams = [[rnd.getrandbits(dw) for _ in range(1 << aw)] for _ in range(s['nr'])]
    lut = [rnd.getrandbits(dw) for _ in range(16)]
    ext = [0] * 16
    init = [list(x) for x in rams]
    fin = [[] for _ in range(s['ns'])]
    fout = [[] for _ in s['sinks']]
    amask = (1 << aw) - 1
    steps, fcount = [], {}
    for run in s['runs']:
        for it in range(run['loop']):
            n = run['n']
            vals = []
            for i, a in enumerate(run['src']):
                if a[0] == 'ram':
                    vals.append([rams[a[1]][x & amask] for x in walk(a[3])])
                elif a[0] == 'empty':
                    vals.append([a[1]] * n)
                else:
                    v = [rnd.getrandbits(dw) for _ in range(n)]
                    fin[i] += v
                    vals.append(v)
            writes, imm = [], []

            def value(e, k):
                op, i, j, p = e
                a, b = vals[i][k], vals[j][k]
                if op == 'src':
                    return a
                if op == 'add':
                    return a + b
                if op == 'sub':
                    return a - b
                if op == 'xor':
                    return a ^ b
                if op == 'counter':
                    return k
                if op == 'acc':
                    return sum(vals[i][:k + 1])
                if op == 'mulp':
                    return a * run['par'][p]
                if op == 'addp':
                    return a + run['par'][p]
                if op == 'lut':
                    return lut[a & 15]
                raise ValueError(op)
            for si, ((e, w), t) in enumerate(zip(s['sinks'], run['snk'])):
                got = []
                for k in range(n):
                    if w is None:
                        got.append(value(e, k) & mask)
                    elif w[0] == 'bit':
                        if vals[w[1]][k] & 1:
                            got.append(value(e, k) & mask)
                    else:
                        q = w[2]
                        if k % q == q - 1:
                            got.append(sum(vals[w[1]][k - q + 1:k + 1]) & mask)
                if t[0] == 'ram':
                    ad = walk(t[3])
                    if t[3][0] == 'normal' and t[4] == 2:       # the number of elements is left open
                        ad = [t[3][1] + j * t[3][3] for j in range(len(got))]
                    elif t[3][0] == 'normal' and t[4] == 1:     # fewer places than elements
                        ad = ad[:max(1, n // 2)]
                    writes += [(t[1], x & amask, v) for x, v in zip(ad, got)]
                elif t[0] == 'fifo':
                    fout[si] += got
                    fcount[id(run), si] = len(got)
                elif t[0] == 'imm':
                    if got:
                        imm.append((si, got[-1]))
            for r, x, v in writes:
                rams[r][x] = v
            if s['wr']:
                for k in range(n):
                    ext[vals[s['wr'][0]][k] & 15] = vals[s['wr'][1]][k]
            steps.append(([list(x) for x in rams], imm, list(ext)))
    return init, lut, steps, fin, fout, fcount


def run(s):
    dw, aw = s['dw'], s['aw']
    init, lut, steps, fin, fout, fcount = model(s)
    m = Module('dut')
    clk, rst = m.Input('CLK'), m.Input('RST')
    env = dict(vthread=vthread, m=m, clk=clk, rst=rst)
    for i in range(s['nr']):
        env['r%d' % i] = vthread.RAM(m, 'r%d' % i, clk, rst, dw, aw, 5)
    st = vthread.Stream(m, 'st', clk, rst, datawidth=dw, max_pattern_length=s['ml'], max_multipattern_length=s['mm'], fsm_as_module=s['asmod'])
    env['st'] = st
    srcs = [st.source('s%d' % i) for i in range(s['ns'])]
    pars = [st.parameter('p%d' % i) for i in range(s['npar'])]
    luts = {}
    if s['rd']:
        env['lut'] = vthread.RAM(m, 'lut', clk, rst, dw, 4, 8)
    if s['wr']:
        env['ext'] = vthread.RAM(m, 'ext', clk, rst, dw, 4, 1)
        st.write_RAM('wext', srcs[s['wr'][0]] & 15, srcs[s['wr'][1]])

    def build(e):
        op, i, j, p = e
        a, b = srcs[i], srcs[j]
        if op == 'src':
            return a
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'xor':
            return a ^ b
        if op == 'counter':
            return st.Counter()
        if op == 'acc':
            return st.ReduceAdd(a)
        if op == 'mulp':
            return a * pars[p]
        if op == 'addp':
            return a + pars[p]
        if op == 'lut':
            if i not in luts:
                luts[i] = st.read_RAM('lut%d' % i, a & 15)
            return luts[i]
        raise ValueError(op)
    for i, (e, w) in enumerate(s['sinks']):
        if w is None:
            st.sink(build(e), 'k%d' % i)
        elif w[0] == 'bit':
            st.sink(build(e), 'k%d' % i, when=(srcs[w[1]] & 1) == 1, when_name='w%d' % i)
        else:
            v, ok = st.ReduceAddValid(srcs[w[1]], w[2])
            st.sink(v, 'k%d' % i, when=ok, when_name='w%d' % i)
    for i in range(s['ns']):
        if s['infifo'][i]:
            env['fi%d' % i] = vthread.FIFO(m, 'fi%d' % i, clk, rst, dw, s['faw'])
    for i in range(len(s['sinks'])):
        if s['outfifo'][i]:
            env['fo%d' % i] = vthread.FIFO(m, 'fo%d' % i, clk, rst, dw, s['faw'])
    mark = m.OutputReg('mark', 32, initval=0)
    gate = m.Input('gate', 32)
    env.update(mark=mark, gate=gate)
    L = ['def program():']
    G = []

    def access(a, fn, var, r, port, lim=None):
        k = a[0]
        if k == 'normal':
            size = a[2] if not lim else 0 if lim == 2 else max(1, a[2] // 2)
            return "st.set_%s('%s', r%d, %d, %d, %d, port=%d)" % (fn, var, r, a[1], size, a[3], port)
        if k == 'pattern':
            return "st.set_%s_pattern('%s', r%d, %d, (%s), port=%d)" % (fn, var, r, a[1], ' '.join('(%d, %d),' % tuple(x) for x in a[2]), port)
        if k == 'multidim':
            o = '' if a[3] is None else ', (%s)' % ' '.join('%d,' % x for x in a[3])
            return "st.set_%s_multidim('%s', r%d, %d, (%s)%s, port=%d)" % (fn, var, r, a[1], ' '.join('%d,' % x for x in a[2]), o, port)
        if k == 'multi':
            return "st.set_%s_multipattern('%s', r%d, (%s), (%s), port=%d)" % (
                fn, var, r, ' '.join('%d,' % x for x in a[1]), ' '.join('(%s),' % ' '.join('(%d, %d),' % tuple(x) for x in p) for p in a[2]), port)
        G.append('def g%d(a, k, n, t):\n    return k == n - 1, a + t + k * %d, k + 1\n' % (len(G), a[4]))
        return "st.set_%s_generator('%s', r%d, g%d, (%d, 0), (%d, %d), port=%d)" % (fn, var, r, len(G) - 1, a[1], a[2], a[3], port)
    marks = 0
    L.append('    it = 0')
    for ri, run in enumerate(s['runs']):
        ind = '    '
        if run['loop'] > 1 and not run['hoist']:
            L.append('    for rep in range(%d):' % run['loop'])
            ind = '        '
        for i, a in enumerate(run['src']):
            if a[0] == 'ram':
                L.append(ind + access(a[3], 'source', 's%d' % i, a[1], a[2]))
            elif a[0] == 'empty':
                L.append(ind + "st.set_source_empty('s%d', %d)" % (i, a[1]))
            else:
                L.append(ind + "st.set_source_fifo('s%d', fi%d, %d)" % (i, i, a[1]))
        for i, a in enumerate(run['snk']):
            if a[0] == 'ram':
                L.append(ind + access(a[3], 'sink', 'k%d' % i, a[1], a[2], a[4]))
            elif a[0] == 'empty':
                L.append(ind + "st.set_sink_empty('k%d')" % i)
            elif a[0] == 'imm':
                L.append(ind + "st.set_sink_immediate('k%d', 0)" % i)
            else:
                L.append(ind + "st.set_sink_fifo('k%d', fo%d, %d)" % (i, i, 0 if s.get('open') else fcount[id(run), i]))
        for i, v in enumerate(run['par']):
            L.append(ind + "st.set_parameter('p%d', %d)" % (i, v))
        for i in sorted(luts):
            L.append(ind + "st.set_read_RAM('lut%d', lut, port=%d)" % (i, i))
        if s['wr']:
            L.append(ind + "st.set_write_RAM('wext', ext)")
        if run['loop'] > 1 and run['hoist']:      # the settings stay valid for the next run
            L.append('    for rep in range(%d):' % run['loop'])
            ind = '        '
        L.append(ind + ('st.source_join_and_run()' if run['chain'] else 'st.run()'))
        nxt = s['runs'][ri + 1] if ri + 1 < len(s['runs']) else None
        if run['loop'] == 1 and nxt is not None and nxt['chain']:
            steps[sum(x['loop'] for x in s['runs'][:ri + 1]) - 1] = None
            continue
        if run['join'] == 1:
            L.append(ind + 'st.source_join()')
        if run['join'] == 2:
            L.append(ind + 'while not st.done():')
            L.append(ind + '    pass')
        else:
            L.append(ind + 'st.join()')
        for i, a in enumerate(run['snk']):
            if a[0] == 'imm':
                L.append(ind + "x = st.read_sink('k%d')" % i)
                L.append(ind + "print('I', %d, x)" % i)
        L.append(ind + 'it += 1')
        L.append(ind + 'mark.value = it')
        L.append(ind + 'while gate != it:')
        L.append(ind + '    pass')
    expect = [x for x in steps if x is not None]
    total = len(expect)
    for i, v in enumerate(fin):
        if s['infifo'][i]:
            L.append('def feed%d():' % i)
            L.append('    pass')
            for x in v:
                L.append('    fi%d.enq(%d)' % (i, x))
                if s['slow'][i]:
                    L.append('    for q in range(%d):' % s['slow'][i])
                    L.append('        pass')
            L.append("vthread.Thread(m, 'tf%d', clk, rst, feed%d, datawidth=%d).start()" % (i, i, max(32, dw + 1)))
    for i, v in enumerate(fout):
        if s['outfifo'][i]:
            L.append('def drain%d():' % i)
            L.append('    while True:')
            L.append('        v = fo%d.deq()' % i)
            L.append("        print('F%d', v)" % i)
            if s['slow'][s['ns'] + i]:
                L.append('        for q in range(%d):' % s['slow'][s['ns'] + i])
                L.append('            pass')
            L.append("vthread.Thread(m, 'td%d', clk, rst, drain%d, datawidth=%d).start()" % (i, i, max(32, dw)))
    L.append("vthread.Thread(m, 'main', clk, rst, program, datawidth=%d).start()" % max(32, dw))
    ns, path = thr.load('\n'.join(G + L) + '\n', env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    T = ['module tb;', '  reg CLK, RST; reg [31:0] gate; wire [31:0] mark; integer cyc, k, lastmark;', '  dut d(.CLK(CLK), .RST(RST), .gate(gate), .mark(mark));',
         '  initial begin CLK = 0; forever #5 CLK = !CLK; end', '  initial begin RST = 1; #100 RST = 0; end', '  initial begin gate = 0; lastmark = 0;']
    for i, x in enumerate(init):
        for k, v in enumerate(x):
            T.append("    d.inst_r%d.mem[%d] = %d'h%x;" % (i, k, dw, v))
    if s['rd']:
        for k, v in enumerate(lut):
            T.append("    d.inst_lut.mem[%d] = %d'h%x;" % (k, dw, v))
    if s['wr']:
        for k in range(16):
            T.append("    d.inst_ext.mem[%d] = 0;" % k)
    limit = 3000 + sum(r['loop'] * (r['n'] * 40 + 300) for r in s['runs']) + 60 * sum(len(x) for x in fin + fout)
    T += ['  end', '  initial begin cyc = 0; while(cyc < %d) begin @(posedge CLK); cyc = cyc + 1; end $display("TIMEOUT"); $finish(0); end' % limit,
          '  always @(posedge CLK) if(!RST && mark != lastmark) begin lastmark = mark; $write("M");']
    names = ['r%d' % i for i in range(s['nr'])] + (['ext'] if s['wr'] else [])
    for nm in names:
        T.append('    $write(" ;"); for(k = 0; k < %d; k = k + 1) $write(" %%h", d.inst_%s.mem[k]);' % (16 if nm == 'ext' else 1 << aw, nm))
    T += ['    $write("\\n"); #1 gate = lastmark;', '    if(lastmark == %d) begin repeat(%d) @(posedge CLK); $display("END"); $finish(0); end end' % (total, 100 + 60 * sum(len(x) for x in fout)), 'endmodule']
    out = sim.compile_and_run(text + '\n'.join(T) + '\n', top='tb', timeout=300)
    lines = out.splitlines()
    msg = '\n'.join(L)[:2500]
    no, imm = 0, []
    F = {}
    for l in lines:
        w = l.split()
        if l.startswith('TIMEOUT'):
            raise Violation('the program did not finish; it passed %d of %d joins\n%s' % (no, total, msg))
        if l.startswith('M'):
            ms = [x.split() for x in l.split(';')[1:]]
            rams, wi, ext = expect[no]
            for nm, a, b in zip(names, ms, rams + [ext]):
                for k, (x, y) in enumerate(zip(a, b)):
                    if 'x' in x or int(x, 16) != y:
                        raise Violation('after join %d, %s[%d] holds %s, expected %x\n%s' % (no + 1, nm, k, x, y, msg))
            strict = [i for i, (e, w) in enumerate(s['sinks']) if not (w and w[0] == 'every') and e[0] == 'src']
            if [(i, x if i in strict else str(thr.signed(int(x), dw))) for i, x in imm if i in dict(wi)] != [(i, str(thr.signed(v, dw))) for i, v in wi]:
                raise Violation('after join %d, read_sink gave %s, expected %s\n%s' % (no + 1, imm, [(i, thr.signed(v, dw)) for i, v in wi], msg))
            no += 1
            imm = []
        elif w and w[0] == 'I':
            imm.append((int(w[1]), w[2]))
        elif w and w[0][0] == 'F':
            F.setdefault(int(w[0][1:]), []).append(w[1])
    if 'END' not in lines:
        raise Violation('the simulation ended early: ' + out[-300:])
    for i, v in enumerate(fout):
        if F.get(i, []) != [str(thr.signed(x, dw)) for x in v]:
            raise Violation('FIFO sink %d received %s, expected %s\n%s' % (i, F.get(i), [thr.signed(x, dw) for x in v], msg))
    labels = set()
    for r in s['runs']:
        for a in r['src'] + r['snk']:
            labels.add(a[3][0] if a[0] == 'ram' else a[0])
        if r['chain']:
            labels.add('chain')
    return dict(nontrivial=len(s['runs']) > 1 or s['runs'][0]['n'] > 1, labels=sorted(labels))


PARTS = [Part('walk', case(False), run, quick=400, thorough=12000),
         Part('fifo', case(True), run, quick=200, thorough=6000)]

if __name__ == '__main__':
    main('C20', PARTS,
         rule='streams with 1-3 sources, 0-2 parameters, 1-3 sinks (with and without conditions), table reads and indirect writes are run 1-10 times with access descriptions that change '
              'from run to run (stride, pattern, multi-dimensional, multi-pattern, generator, FIFO, empty, immediate; 1-40 elements), joined or chained; every RAM word after each '
              'join, every FIFO word and every immediate is compared; non-trivial = more than one run or more than one element',
         assumptions=['non-empty sources of one run have the same number of elements'])
