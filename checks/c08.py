"""C08: sequential blocks follow their cycle semantics.

Oracle: an independent Verilog rendering in which every condition, delay and previous value has its own explicit
delay line and every reset value is written out, compared cycle by cycle with the emitted module.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
from checks import c01, ctl
from checks.ctl import Ctx, SB, SR, chain, ex, mods, stmts, targets_of, pi


def reg(d):
    w = d.pick([None] + ctl.W)
    s = d.bool() if w else False
    k = d.int(0, 9)
    bits = w or 1
    if k <= 1:
        init = None
    elif k <= 6:
        init = d.int(0, (1 << min(bits, 40)) - 1)
    elif k == 7 and bits > 1:
        init = d.int(-(1 << (bits - 1)), -1)
    elif k == 8 and bits <= 32:
        init = ['P', d.int(0, 1)]
    else:
        init = 0
    return [w, s, init]


def prev(d, vs, mem):
    k = d.int(0, 5)
    if k <= 3:
        src = ['v', d.int(0, len(vs) - 1)]
    else:
        ii = [i for i, v in enumerate(vs) if v[0] and not v[1]]
        if len(ii) < 2:
            src = ['v', 0]
        else:
            src = ['bop', d.pick(['Plus', 'Xor', 'LessThan']), ['v', d.pick(ii)], ['v', d.pick(ii)], True]
    c = Ctx(vs, 0, [], 0)
    return [src, d.int(0, 3), d.pick([0, 0, 0, 1, 5]), ex(d, c, 1) if d.chance(3) else None, d.bool()]


@spec
def case(d, part='seq'):
    ni = d.int(1, 3)
    vs = [[d.pick([None] + ctl.W), d.bool(), None] for _ in range(ni)]
    vs = [[w, s if w else False, i] for w, s, i in vs]
    vs += [reg(d) for _ in range(d.int(1, 4))]
    mem = []
    if d.bool():
        w = d.int(1, 9)
        mem.append([w, d.int(2, 4), d.pick([None, 0, d.int(0, (1 << w) - 1), (1 << w) - 1])])
    rst = d.int(0, 5) > 0
    prevs = [prev(d, vs, mem) for _ in range(d.int(0, 3))]
    c = Ctx(vs, ni, mem, len(prevs) if rst else 0)
    ops = []
    for _ in range(d.int(1, 5)):
        if d.int(0, 2):
            g = chain(d, c)
        else:
            g = ['plain', mods(d), stmts(d, c)]
        ops.append([d.int(0, 1), g])
    return dict(ni=ni, vs=vs, mem=mem, rst=rst, prevs=prevs, ops=fix(ops), varidx=sorted(c.varidx), merge=d.int(0, 3) == 0,
                par=[d.int(0, 200), d.int(0, 9)], seed=d.int(0, 1 << 20),
                form=d.int(0, 3), ar=d.subset(range(ni, len(vs))))


def fix(ops):
    """an eager value modifier is only given to plain assignments"""
    for _, g in ops:
        for link in ([[0, 0, g[1], g[2]]] if g[0] == 'plain' else g[1]):
            if link[2]['eager'] and any(s[0] != 'as' for s in link[3]):
                link[2]['eager'] = False
    return ops


def build(s, m, as_module=False):
    vs, ni = s['vs'], s['ni']
    clk = m.Input('CLK')
    rst = m.Input('RST') if s['rst'] else None
    if rst is None:
        m.Input('RST')
    P = [m.Parameter('P%d' % k, s['par'][k]) for k in range(2)]
    v = []
    ini = []
    for i, (w, sg, init) in enumerate(vs):
        if i < ni:
            v.append(m.Input('v%d' % i, w, signed=sg))
        else:
            iv = P[init[1]] if isinstance(init, list) else init
            if i % 2:
                r = m.OutputReg('v%d' % i, w, signed=sg, initval=iv)
            else:
                r = m.Reg('v%d' % i, w, signed=sg, initval=iv)
                m.Output('o%d' % i, w, signed=sg).assign(r)
            v.append(r)
            if not as_module:
                ini.append(r(3 * i))
    mem = []
    for j, (w, n, init) in enumerate(s['mem']):
        a = m.Reg('mem%d' % j, w, n, initval=init)
        mem.append(a)
        m.Output('om%d' % j, w * n).assign(Cat(*[a[k] for k in reversed(range(n))]))
        ini += [a[k](k + 1) for k in range(n)]
    if ini:
        m.Initial(*ini)
    return clk, rst, P, v, mem


def run(s):
    vs, ni = s['vs'], s['ni']
    m = Module('dut')
    clk, rst, P, v, mem = build(s, m)
    seqs = []
    f = s['form']
    seq = Seq(m, 'seq', clk, rst, nohook=f == 1)
    other = Seq(m, 'seqb', clk, rst) if s['merge'] else None
    cache = {}
    env = dict(v=v, p=P, mem=mem)

    def pv(j):
        if j not in cache:
            src, n, init, cond, _ = s['prevs'][j]
            sb = ctl.B(env)
            kw = {}
            if init:
                kw['initval'] = init
            if cond is not None:
                kw['cond'] = sb(cond)
            cache[j] = seq.Prev(sb(src), n, **kw)
        return cache[j]
    env['pv'] = pv
    for j, p in enumerate(s['prevs']):
        if p[4]:
            pv(j)
    for i in s['varidx']:
        seq.add_reset(v[i])
    for i in s['ar']:
        seq.add_reset(v[i])
    for k, g in s['ops']:
        try:
            SB(env).group(other if other is not None and k else seq, g)
        except ValueError as err:
            # two blocks may ask for one helper name, which is refused
            if other is not None and 'already defined' in str(err):
                return dict(nontrivial=False, labels=['rejected'])
            raise
    for j in range(len(s['prevs'])):
        p = pv(j)
        m.Output('q%d' % j, 40).assign(p)
    if other is not None:
        seq.update(other)
    if f == 1:
        seq.make_always()
    text = m.to_verilog()

    # reference
    r = SR(vs)
    order = [g for k, g in s['ops'] if not (s['merge'] and k)] + [g for k, g in s['ops'] if s['merge'] and k]
    for g in order:
        r.group(g, s['mem'])
    rng = lambda w: '[%d:0]' % (w - 1) if w is not None else ''
    ports = ['input CLK', 'input RST']
    decl = []
    rstst = []
    init = []
    for i, (w, sg, iv) in enumerate(vs):
        kind = 'input' if i < ni else 'output reg' if i % 2 else 'reg'
        t = '%s%s %s v%d' % (kind, ' signed' if sg else '', rng(w), i)
        if kind == 'reg':
            decl.append(t + ';')
            ports.append('output %s o%d' % (rng(w), i))
            decl.append('assign o%d = v%d;' % (i, i))
        else:
            ports.append(t)
        if i >= ni:
            init.append('v%d = %d;' % (i, 3 * i))
            if iv is not None:
                decl.append('wire %s init%d = %s;' % (rng(w), i, ctl.init_text(iv)))
    for j, (w, n, iv) in enumerate(s['mem']):
        decl.append('reg [%d:0] mem%d [0:%d];' % (w - 1, j, n - 1))
        ports.append('output [%d:0] om%d' % (w * n - 1, j))
        decl.append('assign om%d = {%s};' % (j, ', '.join('mem%d[%d]' % (j, k) for k in reversed(range(n)))))
        init += ['mem%d[%d] = %d;' % (j, k, k + 1) for k in range(n)]
    e = r.e
    pd = []
    for j, (src, n, iv, cond, _) in enumerate(s['prevs']):
        ports.append('output [39:0] q%d' % j)
        if src[0] == 'v':
            w, sg = vs[src[1]][0] or 1, vs[src[1]][1]
        else:
            w = 1 if src[1] == 'LessThan' else max(vs[src[2][1]][0], vs[src[3][1]][0]) + (src[1] == 'Plus')
            sg = False
        t = 'reg' if n else 'wire'
        if n:
            names = ['pv%d_%d' % (j, k) for k in range(1, n)] + ['pv%d' % j]
            pd.append('wire%s [%d:0] ps%d = %s;' % (' signed' if sg else '', w - 1, j, e(src)))
            p = 'ps%d' % j
            for nm in names:
                pd.append('reg%s [%d:0] %s;' % (' signed' if sg else '', w - 1, nm))
                r.rst.append('%s <= %d;' % (nm, iv))
                r.shift.append('%s%s <= %s;' % ('if (%s) ' % e(cond) if cond is not None else '', nm, p))
                p = nm
        elif src[0] == 'v':
            pd.append('wire%s [%d:0] pv%d = v%d;' % (' signed' if sg else '', w - 1, j, src[1]))
        else:
            return dict(nontrivial=False, labels=['skipped'])
        decl.append('assign q%d = pv%d;' % (j, j))
    tg = targets_of([g for _, g in s['ops']], [])
    for i in s['varidx'] + s['ar']:
        tg.append(['t', i])
    rstst = ctl.resets(tg, vs, s['mem'], r)
    body = ['module refm #(parameter P0 = %d, parameter P1 = %d) (%s);' % (s['par'][0], s['par'][1], ', '.join(ports))]
    body += pd + decl + r.decl
    body.append('initial begin %s end' % ' '.join(init))
    main_ = '\n'.join(r.shift + r.ordered())
    if s['rst'] and (rstst or r.rst):       # a block without reset values ignores reset
        body.append('always @(posedge CLK) if (RST) begin %s end else begin\n%s\nend' % ('\n'.join(rstst + r.rst), main_))
    else:
        body.append('always @(posedge CLK) begin\n%s\nend' % main_)
    body.append('endmodule')
    outs = [('v%d' % i if i % 2 else 'o%d' % i, vs[i][0]) for i in range(ni, len(vs))]
    outs += [('om%d' % j, w * n) for j, (w, n, _) in enumerate(s['mem'])] + [('q%d' % j, 40) for j in range(len(s['prevs']))]
    tb = ctl_tb(s, vs, ni, outs, ('dut', 'refm'), 44)
    out = sim.compile_and_run('\n'.join([text] + body + tb), top='tb')
    judge(out, text, '\n'.join(body))
    labels = set()
    for _, g in s['ops']:
        for link in ([['plain', 0, g[1]]] if g[0] == 'plain' else g[1]):
            labels.add(link[0])
            for k in ('delay', 'keep', 'lazy', 'eager'):
                if link[2][k]:
                    labels.add(k)
    labels |= set(t[0] for t in tg)
    return dict(nontrivial=bool(labels & {'delay', 'keep'}) or 'elif' in labels or 'else' in labels, labels=sorted(labels))


def ctl_tb(s, vs, ni, outs, names, cycles, par=''):
    rng = lambda w: '[%d:0]' % (w - 1) if w is not None else ''
    tb = ['module tb; integer seed, n, bad; reg CLK, RST;']
    for i in range(ni):
        tb.append('reg%s %s v%d;' % (' signed' if vs[i][1] else '', rng(vs[i][0]), i))
    common = ['.CLK(CLK)', '.RST(RST)'] + ['.v%d(v%d)' % (i, i) for i in range(ni)]
    for o, w in outs:
        tb.append('wire %s %s_d, %s_r;' % (rng(w), o, o))
    for x, name in zip('dr', names):
        tb.append('%s %s i_%s(%s);' % (name, par, x, ', '.join(common + ['.%s(%s_%s)' % (o, o, x) for o, w in outs])))
    tb.append('initial begin seed = %d; bad = 0; CLK = 0; RST = %d;' % (s['seed'], 1 if s['rst'] else 0))
    for i in range(ni):
        tb.append('v%d = 0;' % i)
    tb.append('for (n = 0; n < %d; n = n + 1) begin #5 CLK = 1; #3;' % cycles)
    for o, w in outs:
        tb.append('if (%s_d !== %s_r && bad < 8) begin bad = bad + 1; '
                  '$display("BAD cycle %%0d %s got %%h want %%h", n, %s_d, %s_r); end' % (o, o, o, o, o))
    tb.append('#2 CLK = 0; #2;')
    for i in range(ni):
        tb.append('v%d = {$random(seed), $random(seed)} >> ((n %% 3 == 0) ? 60 : 0);' % i)
    tb.append('RST = n < 2 || (n > 16 && (($random(seed) & 15) == 0)); end $display("DONE"); $finish; end endmodule')
    return tb


def judge(out, text, ref=''):
    if 'DONE' not in out:
        raise Violation('simulation did not complete: %s' % out[:500])
    bad = [l for l in out.splitlines() if l.startswith('BAD')]
    if bad:
        raise Violation('behaviour differs from the description: %s\n%s\n--- reference\n%s' % (
            bad[:3], text[:6000], ref[:4000]))


PARTS = [Part('seq', case(), run, quick=5000, thorough=80000)]

if __name__ == '__main__':
    main('C08', PARTS,
         rule='sequential blocks with up to 5 statement groups (If/Elif/Else/Then chains, delay<=3, keep<=4, lazy/eager), '
              'partial and array targets, previous values, merged blocks; 44 cycles, random resets; non-trivial = some '
              'delayed/kept or multi-branch group',
         assumptions=['Icarus Verilog 12 executes both sides', 'conditions are free of x values',
                      'a register whose variable-index bits are assigned is registered for reset as a whole'])
