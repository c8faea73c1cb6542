"""C27: simulation helpers.

Oracles: (waveforms) the times of every signal change predicted from the documented parameters; (backends) the output of the emitted Verilog run
directly with Icarus Verilog.
"""
import os
import tempfile
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import veriloggen
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
from veriloggen import simulation


class Scratch(object):
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.TemporaryDirectory(prefix='c27_')
        os.chdir(self.d.name)
        return self.d.name

    def __exit__(self, *a):
        os.chdir(self.old)
        self.d.cleanup()


# ---------------------------------------------------------------- waveforms
@spec
def wave(d):
    clocks = [d.pick([1, 2, 5, 5, 7, d.int(1, 30)]) for _ in range(d.int(1, 3))]
    resets = [dict(p=d.pick([100, 10, d.int(1, 60)]), pol=d.pick(['high', 'low', 'HIGH', 'Low', None]), init=d.bool()) for _ in range(d.int(0, 2))]
    stims = []
    for _ in range(d.int(1, 2)):
        ops = []
        for _ in range(d.int(1, 6)):
            k = d.int(0, 3)
            ops.append(['next', d.int(0, len(clocks) - 1)] if k < 2 else ['delay', d.int(1, 40)] if k == 2 else ['set', d.int(0, 255)])
        stims.append(ops + [['set', d.int(0, 255)]])
    return dict(clocks=clocks, resets=resets, stims=stims, end=d.int(30, 300), api=d.pick(['run', 'sim', 'icarus', 'display']), out=d.chance(4),
                define=d.pick([None, 'list', 'one', 'none']), include=d.chance(4), libdir=d.chance(4), vcd=d.chance(3), top=d.pick([None, 'name', 'module']))


def run_wave(s):
    veriloggen.reset()
    end = s['end']
    m = Module('test')
    clks = [m.Reg('clk%d' % i) for i in range(len(s['clocks']))]
    rsts = [m.Reg('rst%d' % i) for i in range(len(s['resets']))]
    regs = [m.Reg('x%d' % i, 8) for i in range(len(s['stims']))]
    inits = [m.Reg('i%d' % i, 8, initval=i + 3) for i in range(len(rsts))]
    arr = m.Reg('arr', 8, dims=[4])
    for c, h in zip(clks, s['clocks']):
        simulation.setup_clock(m, c, hperiod=h)
    for i, (r, c) in enumerate(zip(rsts, s['resets'])):
        kw = {} if c['pol'] is None else {'polarity': c['pol']}
        if c['p'] != 100:
            kw['period'] = c['p']
        st = [[x.reset()] for x in [inits[i]]] if c['init'] else []
        simulation.setup_reset(m, r, *[y for x in st for y in x], **kw)
    exp = {}
    for c, h in zip(clks, s['clocks']):
        exp[c.name] = [(t, (t // h) % 2) for t in range(0, end + 1, h)]
    for i, (r, c) in enumerate(zip(rsts, s['resets'])):
        pos = 'low' not in (c['pol'] or 'high').lower()
        exp[r.name] = [(t, v) for t, v in [(0, int(not pos)), (c['p'], int(pos)), (2 * c['p'], int(not pos))] if t <= end]
        if c['init']:
            exp['i%d' % i] = [(0, i + 3)]
    skip = False
    for i, ops in enumerate(s['stims']):
        body, now, ev = [], 0, []
        for op in ops:
            if op[0] == 'next':
                body += list(simulation.next_clock(clks[op[1]]))
                h = s['clocks'][op[1]]
                t = h
                while t <= now:
                    t += 2 * h
                if now % h == 0 and (now // h) % 2 == 1:
                    skip = True  # waiting at the time of the edge itself is a race
                now = t + 1
            elif op[0] == 'delay':
                body.append(Delay(op[1]))
                now += op[1]
            else:
                body.append(regs[i](op[1]))
                if ev and ev[-1][0] == now:
                    ev.pop()
                if now <= end and (not ev or ev[-1][1] != op[1]):
                    ev.append((now, op[1]))
                elif now <= end:
                    pass
        m.Initial(*body)
        exp['x%d' % i] = ev
    if skip:
        return dict(nontrivial=False, labels=['race'])
    names = sorted(exp)
    tags = dict()
    for n in names:
        # the value at the end of the time step
        m.Always(*[m.variable[n] if n in m.variable else m.find_identifier(n)])(Systask('strobe', 'S ' + n + ' %0d %0d', vt.SystemTask('time'), m.find_identifier(n)))
    m.Initial(Delay(end), EmbeddedCode('#0;'), Systask('strobe', 'END'), EmbeddedCode('#1;'), Systask('finish', 0))
    extra, kw = [], {}
    with Scratch() as dr:
        lines = ['module extra;', 'initial begin']
        if s['define'] == 'list':
            kw['define'] = [('W', 37), 'FLAG', ('N', None)]
            lines += ['  $display("D %0d", `W);', '`ifdef FLAG', '  $display("FLAG");', '`endif', '`ifdef N', '  $display("N");', '`endif']
        elif s['define'] == 'one':
            kw['define'] = [('W', 41)] if s['api'] in ('run', 'display') else 'W=41'
            lines += ['  $display("D %0d", `W);']
        if s['include']:
            os.mkdir('inc')
            open('inc/inc.vh', 'w').write('  $display("INC");\n')
            kw['include'] = ['inc'] if s['api'] in ('run', 'display') else 'inc'
            lines.append('`include "inc.vh"')
        lines += ['end']
        if s['libdir']:
            os.mkdir('lib')
            open('lib/libmod.v', 'w').write('module libmod; initial $display("LIB"); endmodule\n')
            kw['libdir'] = ['lib'] if s['api'] in ('run', 'display') else 'lib'
            lines.append('libmod u();')
        lines += ['endmodule']
        want_extra = []
        if kw:
            m.Instance('extra', 'extra') if False else None
            extra = ['\n'.join(lines) + '\n']
            m.EmbeddedCode('extra extra();')
            want_extra = [x for x in ['D 37' if s['define'] == 'list' else 'D 41' if s['define'] == 'one' else None, 'FLAG' if s['define'] == 'list' else None,
                                      'N' if s['define'] == 'list' else None, 'INC' if s['include'] else None, 'LIB' if s['libdir'] else None] if x]
        if s['vcd']:
            simulation.setup_waveform(m, m.get_vars(), arr, dumpfile='w.vcd')
        before = m.to_verilog()
        if s['top'] == 'name':
            kw['top'] = 'test'
        elif s['top'] == 'module':
            kw['top'] = m
        if s['out']:
            kw['outputfile'] = 'prog.out'
        objs = [m] + extra
        if s['api'] in ('run', 'display'):
            out = simulation.run_iverilog(objs if extra or s['out'] else m, display=s['api'] == 'display', **kw)
        else:
            out = simulation.Simulator(*objs, sim={'sim': 'iverilog', 'icarus': 'ICARUS'}[s['api']]).run(**kw)
        if m.to_verilog() != before:
            raise Violation('running the simulation changes the module')
        left = sorted(x for x in os.listdir('.') if x not in ('inc', 'lib', 'w.vcd', 'prog.out'))
        if left:
            raise Violation('files left behind: %s' % left)
        if s['vcd']:
            vcd(open('w.vcd').read(), exp, end, before)
    direct = out.splitlines()
    got = {n: [] for n in names}
    other = []
    for l in direct:
        if l.startswith('S '):
            _, n, t, v = l.split()
            if not got[n] or got[n][-1][1] != v:
                got[n].append((int(t), v))
        elif l and not l.startswith('VCD') and l != 'END':
            other.append(l)
    if sorted(other) != sorted(want_extra):
        raise Violation('output %s, expected %s\n%s' % (other, want_extra, s))
    if 'END' not in direct:
        raise Violation('no end in the output\n' + out[:300])
    for n in names:
        g = [(t, v) for t, v in got[n] if t <= end]
        w = [(t, str(v)) for t, v in exp[n]]
        # an assignment at time zero may come before the process that watches it
        if w != g and w[1:] != g and not (w and w[0][0] == 0 and g and g[0][0] == 0 and w[1:] == g[1:]):
            raise Violation('%s changes at %s, expected %s\n%s' % (n, g[:20], w[:20], before))
    return dict(nontrivial=sum(len(x) for x in exp.values()) > 8,
                labels=[s['api']] + (['vcd'] if s['vcd'] else []) + ['resets:%d' % len(rsts), 'clocks:%d' % len(clks)] + (['options'] if want_extra else []))


def vcd(text, exp, end, src):
    ids, t, seen = {}, 0, {}
    for l in text.split('$enddefinitions')[0].splitlines():
        f = l.split()
        if f and f[0] == '$var':
            ids.setdefault(f[3], []).append(f[4])
    for l in text.split('$enddefinitions')[1].splitlines():
        if l.startswith('#'):
            t = int(l[1:])
        elif l[:1] in '01b' and l:
            v, i = (l[1:].split() if l[0] == 'b' else (l[0], l[1:]))
            for n in ids.get(i, []):
                if 'x' not in v and (n not in seen or seen[n][-1][1] != int(v, 2)):
                    seen.setdefault(n, []).append((t, int(v, 2)))
    for n, w in exp.items():
        g = [x for x in seen.get(n, []) if x[0] <= end]
        if g != w:
            raise Violation('the dumped waveform of %s is %s, expected %s\n%s' % (n, g[:20], w[:20], src))


# ---------------------------------------------------------------- verilator
OPS = ['+', '-', '*', '^', '&', '|', '<', '>>', '<<', '==', 'mux']


@spec
def design(d):
    doms = []
    for _ in range(d.pick([1, 1, 2])):
        regs = [dict(w=d.pick([1, 4, 8, 13, 32, 40]), s=d.chance(4), init=d.int(0, 15)) for _ in range(d.int(1, 4))]
        ups = [[d.int(0, len(regs) - 1), d.pick(OPS), d.int(0, len(regs) - 1), d.int(0, len(regs) - 1), d.int(0, 99)] for _ in range(d.int(1, 5))]
        h = d.pick([5, 5, 1, 2, 3, 8, d.int(1, 15)])
        doms.append(dict(regs=regs, ups=ups, h=h, n=d.int(2, 6), odd=d.int(0, 3), pol=d.pick(['high', 'high', 'low']),
                         sub=d.bool(), mem=d.bool(), fsm=d.bool()))
    return dict(doms=doms, cycles=d.int(10, 60), fin=d.chance(3), top=d.pick([None, 'name', 'module']), extra=d.chance(3), opt=d.pick([None, None, '-O3', ['-O3', '--x-assign fast']]),
                dump=d.chance(4), define=d.chance(4), again=d.chance(3), same=d.bool())


def mk(s):
    """a design and a test bench; the names of the ports of the domains differ"""
    m = Module('dut')
    k = m.Parameter('K', 3)
    clks, rsts = [], []
    for i, c in enumerate(s['doms']):
        clk, rst = m.Input('CLK%d' % i), m.Input('RST%d' % i)
        clks.append(clk)
        rsts.append(rst)
        act = rst if c['pol'] == 'high' else vt.Not(rst)
        p = 'd%d_' % i
        regs = [m.Reg(p + 'r%d' % j, r['w'], signed=r['s'], initval=r['init']) for j, r in enumerate(c['regs'])]
        cnt = m.Reg(p + 'cnt', 32, initval=0)
        seq = Seq(m, p + 'seq', clk, act)
        seq(cnt.inc())
        for t, op, a, b, n in c['ups']:
            a, b = regs[a], regs[b]
            e = {'+': lambda: a + b + n, '-': lambda: a - b - n, '*': lambda: a * (b + n), '^': lambda: a ^ (b + n), '&': lambda: (a & b) + n, '|': lambda: (a | n) - b,
                 '<': lambda: Mux(a < b, a + n, b - n), '>>': lambda: (a >> 1) + (b ^ n), '<<': lambda: (a << 1) + b + n, '==': lambda: Mux(a == b, n, a + 1),
                 'mux': lambda: Mux(a[0], b + k, a * 3 + n)}[op]()
            seq(regs[t](e))
        for j, r in enumerate(regs):
            if j not in [x[0] for x in c['ups']]:
                seq(r(r + j + 1))  # only the registers it writes are reset
        outs = list(regs)
        if c['sub']:
            q = Module(p + 'sub')
            qc, qr, qi = q.Input('CLK'), q.Input('RST'), q.Input('i', 16)
            qo = q.OutputReg('o', 16, initval=1)
            qs = Seq(q, 'seq', qc, qr)
            qs(qo(qo * 5 + qi))
            w = m.Wire(p + 'o', 16)
            wi = m.Wire(p + 'i', 16)
            wi.assign(regs[0] + cnt)
            wr = m.Wire(p + 'rr')
            wr.assign(act)
            m.Instance(q, p + 'u', ports=[('CLK', clk), ('RST', wr), ('i', wi), ('o', w)])
            outs.append(w)
        if c['mem']:
            mem = m.Reg(p + 'mem', 8, dims=[8])
            seq(mem[cnt[0:3] if False else vt.Slice(cnt, 2, 0)](cnt * 7 + regs[-1]))
            mo = m.Reg(p + 'mo', 8, initval=0)
            seq.If(cnt > 8)(mo(mem[vt.Slice(cnt, 2, 0)]))
            outs.append(mo)
        if c['fsm']:
            f = FSM(m, p + 'fsm', clk, act)
            fo = m.Reg(p + 'fo', 8, initval=0)
            f(fo(fo + 1))
            f.goto_next()
            f(fo(fo + regs[0][0]))
            f.If(regs[0][0]).goto_next()
            f(fo(fo ^ 0x55))
            f.goto_init()
            outs.append(fo)
        run = m.Reg(p + 'run', initval=1)  # set by the reset
        seq(run(run))
        seq.If(run)(Systask('display', 'L%d %%0d%s' % (i, ' %0d' * len(outs)), cnt, *outs))
        if s['fin'] and i == 0:
            seq.If(run, cnt == s['cycles'] - 5)(Systask('finish', 0))
    t = Module('test')
    u = Submodule(t, m, name='uut', arg_params=[('K', 5)]) if not s['same'] else None
    if u is None:
        ps = t.copy_sim_ports(m)
        par = t.copy_params(m)
        t.Instance(m, 'uut', params=t.connect_params(m), ports=t.connect_ports(m))
    total = 0
    for i, c in enumerate(s['doms']):
        clk, rst = (u['CLK%d' % i], u['RST%d' % i]) if u is not None else (ps['CLK%d' % i], ps['RST%d' % i])
        simulation.setup_clock(t, clk, hperiod=c['h'])
        # never at the time of a clock edge
        period = 2 * c['h'] * c['n'] + (c['odd'] % c['h'] or 1 if c['h'] > 1 else 0)
        simulation.setup_reset(t, rst, t.make_reset(), period=period, polarity=c['pol'])
        total = max(total, 2 * period + 2 * c['h'] * s['cycles'])
    if s['dump']:
        simulation.setup_waveform(t, t.get_vars(), dumpfile='w.vcd')
    t.Initial(Delay(total), Systask('finish', 0))
    return t, m, total


def streams(out, n):
    r = [[] for _ in range(n)]
    for l in out.splitlines():
        f = l.split()
        if f and f[0][0] == 'L' and f[0][1:].isdigit():
            r[int(f[0][1:])].append(' '.join(f[1:]))
    return r


def run_verilator(s):
    veriloggen.reset()
    # a reset that changes together with the clock is a race: a half period of 1 leaves no other time
    for c in s['doms']:
        if c['h'] == 1:
            c['h'] = 2
    t, m, total = mk(s)
    n = len(s['doms'])
    with Scratch():
        ref = streams(simulation.run_iverilog(t), n)
        kw = dict(sim_time=total)
        if s['top']:
            kw['top'] = 'test' if s['top'] == 'name' else t
        if s['opt']:
            kw['options'] = s['opt']
        if s['define']:
            kw['define'] = ['FLAG', ('W', 3)]
        objs = [t] + (['module unused; endmodule\n'] if s['extra'] else [])
        if s['define']:
            objs.append('`ifndef FLAG\nmodule broken syntax\n`endif\n`define Q `W\n')
        got = streams(simulation.Simulator(*objs, sim='verilator').run(**kw), n)
        if s['dump'] and not os.path.exists('w.vcd'):
            raise Violation('no waveform written')
        again = simulation.run_iverilog(t) if s['again'] else None
        left = sorted(x for x in os.listdir('.') if x != 'w.vcd')
        if left:
            raise Violation('files left behind: %s' % left)
    if again is not None and streams(again, n) != ref:
        raise Violation('running the design with Verilator changes it')
    if got != ref:
        for i in range(n):
            k = min(len(got[i]), len(ref[i]))
            exact = s['fin'] and i == 0
            if got[i][:k] != ref[i][:k] or abs(len(got[i]) - len(ref[i])) > (0 if exact else 4 + s['doms'][i]['n']):
                j = next((j for j in range(k) if got[i][j] != ref[i][j]), k)
                raise Violation('domain %d: line %d is %s with Verilator, %s with Icarus Verilog (%d and %d lines)\n%s' % (
                    i, j, got[i][j:j + 2], ref[i][j:j + 2], len(got[i]), len(ref[i]), t.to_verilog()))
    return dict(nontrivial=min(len(x) for x in ref) >= (1 if s['fin'] else 5), labels=['domains:%d' % n] + [x for x in ('fin', 'dump', 'define', 'extra', 'again') if s[x]])


PARTS = [Part('waveform', wave(), run_wave, quick=1200, thorough=20000), Part('verilator', design(), run_verilator, quick=24, thorough=1200)]

if __name__ == '__main__':
    main('C27', PARTS,
         rule='waveform: 1-3 clocks, 0-2 resets, stimulus processes of next_clock/delay/assignment, options of the Icarus backend; every change of every signal is compared '
              'with the prediction, also in the dumped file; non-trivial = more than 8 predicted changes; verilator: designs with 1-2 clock domains (registers, '
              'submodule, memory, FSM) run with both backends, the lines printed after the reset are compared; non-trivial = at least 5 lines in each domain',
         assumptions=['the Verilator backend drives the first clock edge at time 0 and the others at their half periods, so cycles are compared from the end of the reset'])
