"""C09: state machines step as written.

Oracle: an independent Verilog state machine (own state register, one explicit delay line per delayed action, jumps
in order) compared cycle by cycle with the emitted module, in the case and the if encoding.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
from checks import c01, c08, ctl
from checks.ctl import Ctx, SB, SR, ex, mods, stmts, targets_of

NOMOD = dict(delay=0, keep=0, lazy=False, eager=False, kw=False)


def acts(d, c, ns, timing, first):
    """actions of one branch: bodies and jumps; the first uses the branch itself, the others Then()"""
    out = []
    for k in range(1 if d.int(0, 2) else 2):
        if d.int(0, 2) == 0:
            out.append(['goto', d.int(0, ns - 1), d.int(0, 2)])
        else:
            m = mods(d) if timing and d.int(0, 2) == 0 else NOMOD
            b = stmts(d, c)
            if m['eager'] and any(s[0] != 'as' for s in b):
                m = dict(m, eager=False)
            out.append(['body', m, b])
    return out


def group(d, c, ns, timing=True):
    if d.int(0, 3) == 0:
        return ['plain', acts(d, c, ns, timing, True)[:1]]
    links = [['if', ctl.conds(d, c), acts(d, c, ns, timing, True)]]
    for _ in range(d.int(0, 2)):
        if len(links) > 1 or len(links[0][2]) == 1 or len(links) == 1:
            links.append(['elif', ctl.conds(d, c), acts(d, c, ns, timing, False)[:1]])
    if d.bool():
        links.append(['else', [], acts(d, c, ns, timing, False)])
    elif len(links) > 1 and d.bool():
        links[-1][2] += acts(d, c, ns, timing, False)[:1]
    return ['chain', links, d.int(0, 2)]


@spec
def case(d, part=True):
    ni = d.int(1, 2)
    vs = [[d.pick([None] + ctl.W), d.bool(), None] for _ in range(ni)]
    vs = [[w, s if w else False, i] for w, s, i in vs]
    vs += [c08.reg(d) for _ in range(d.int(1, 3))]
    mem = []
    if part and d.int(0, 2) == 0:
        w = d.int(1, 9)
        mem.append([w, d.int(2, 3), d.pick([None, 0, d.int(0, (1 << w) - 1)])])
    rst = d.int(0, 7) > 0
    prevs = [c08.prev(d, vs, mem) for _ in range(d.int(0, 2))]
    c = Ctx(vs, ni, mem, len(prevs) if rst else 0, part=part)
    ns = d.int(2, 6)
    ops = []
    for _ in range(d.int(2, 9)):
        k = d.int(0, 15)
        if k <= 7:
            where = None
            if d.int(0, 3) == 0:
                where = [d.pick(['when', 'state']), d.int(0, ns - 1)]
            ops.append(['group', where, group(d, c, ns)])
        elif k <= 10:
            ops.append(['next', ex(d, c, 1) if d.bool() else None, d.int(0, 2)])
        elif k == 11:
            ops.append([d.pick(['inc', 'init']), ex(d, c, 1) if d.bool() else None])
        elif k == 12:
            ops.append(['index', d.int(0, ns - 1)])
        elif k == 13:
            ops.append(['jump', d.pick(['goto', 'from']), d.int(0, ns - 1), d.int(0, ns - 1),
                        ex(d, c, 1) if d.bool() else None, d.int(0, ns - 1) if d.bool() else None])
        elif k == 14:
            g = ctl.chain(d, c) if d.bool() else ['plain', mods(d), stmts(d, c)]
            c08.fix([[0, g]])
            ops.append(['always', g])
        else:
            ops.append([d.pick(['here', 'then'])])
    return dict(ni=ni, vs=vs, mem=mem, rst=rst, prevs=prevs, ops=ops, varidx=sorted(c.varidx), ns=ns,
                par=[d.int(0, 200), d.int(0, 9)], seed=d.int(0, 1 << 20), form=d.int(0, 3),
                width=d.pick([32, 32, 8, 4]), ar=d.subset(range(ni, len(vs))))


class FB(SB):
    def when(self, fsm, where):
        if where is None:
            return fsm
        if where[0] == 'when':
            return fsm.When(where[1])
        return fsm.State(where[1])

    def act(self, o, a):
        if a[0] == 'body':
            self.apply(o, a[1], a[2])
        else:
            o.goto(a[1])

    def fgroup(self, fsm, g, where):
        if g[0] == 'plain':
            self.act(self.when(fsm, where), g[1][0])
            return
        for kind, cs, al in g[1]:
            o = self.when(fsm, where)
            cs = [self.e(x) for x in cs]
            o = (o.If(*cs) if g[2] else o.If(cs)) if kind == 'if' else o.Elif(*cs) if kind == 'elif' else o.Else
            self.act(o, al[0])
            for a in al[1:]:
                self.act(self.when(fsm, where).Then(), a)


class FR(SR):
    def __init__(self, vs):
        SR.__init__(self, vs)
        self.st = {}
        self.jumps = {}
        self.al = None

    def add(self, dl, st, index=None):
        if index is None:
            SR.add(self, dl, st)
        else:
            self.st.setdefault((dl, index), []).append(st)

    def jump(self, idx, dst, cond=None, els=None):
        t = 's <= %d;' % dst
        if cond:
            t = 'if (%s) %s' % (cond, t)
            if els is not None:
                t += ' else s <= %d;' % els
        self.jumps.setdefault(idx, []).append(t)

    def act(self, idx, cond, a, mem):
        if a[0] == 'body':
            self.fire(cond, a[1], a[2], mem, 's == %d' % idx, idx)
        else:
            self.jump(idx, a[1], cond)

    def fgroup(self, g, idx, mem):
        if g[0] == 'plain':
            self.act(idx, None, g[1][0], mem)
            return None
        prior, cur = [], None
        for kind, cs, al in g[1]:
            c = ' && '.join('(%s)' % self.e(x) for x in cs)
            if kind != 'if':
                prior = prior + ['!' + cur]
            cur = '(%s)' % c if cs else '1'
            for a in al:
                self.act(idx, ' && '.join(prior + [cur]), a, mem)
        return ' && '.join(prior + [cur])

    def all(self):
        out = self.ordered()
        for dl in sorted(set(k[0] for k in self.st if k[0]), reverse=True):
            for i in sorted(k[1] for k in self.st if k[0] == dl):
                out += self.st[(dl, i)]
        for i in sorted(set(k[1] for k in self.st if k[0] == 0) | set(self.jumps)):
            out += self.st.get((0, i), [])
            out += ['if (s == %d) begin %s end' % (i, ' '.join(self.jumps[i]))] if i in self.jumps else []
        return out


def drive(s, m, fsm, env, cache):
    """applies the operations of a specification to a state machine"""
    sb = FB(env)
    nout = 0
    for op in s['ops']:
        k = op[0]
        if k == 'group':
            sb.fgroup(fsm, op[2], op[1])
        elif k == 'next':
            c = sb.e(op[1]) if op[1] is not None else None
            if c is None:
                fsm.goto_next()
            elif op[2] == 0:
                fsm.goto_next(cond=c)
            else:
                fsm.If(c).goto_next()
        elif k == 'inc':
            fsm.inc()
        elif k == 'init':
            c = sb.e(op[1]) if op[1] is not None else None
            fsm.goto_init() if c is None else fsm.If(c).goto_init()
        elif k == 'index':
            fsm.set_index(op[1])
        elif k == 'jump':
            _, how, src, dst, cond, els = op
            c = sb.e(cond) if cond is not None else None
            if how == 'goto':
                fsm.goto(dst, cond=c, else_dst=els)
            else:
                fsm.goto_from(src, dst, c, els)
        elif k == 'always':
            sb.group(fsm.Always, op[1])
        elif k == 'here':
            m.Output('h%d' % nout).assign(fsm.here)
            nout += 1
        else:
            if fsm.last_cond:
                m.Output('h%d' % nout).assign(fsm.then)
                nout += 1
    return nout


def reference(s, r):
    """same on the reference side; returns expressions of the state outputs"""
    cur = 0
    outs = []
    mem = s['mem']
    last = None
    for op in s['ops']:
        k = op[0]
        if k == 'group':
            c = r.fgroup(op[2], op[1][1] if op[1] else cur, mem)
            if c is not None:
                last = c
        elif k == 'next':
            c = r.e(op[1]) if op[1] is not None else None
            r.jump(cur, cur + 1, c)
            cur += 1
            last = None
        elif k == 'inc':
            cur += 1
            last = None
        elif k == 'init':
            c = r.e(op[1]) if op[1] is not None else None
            r.jump(cur, 0, c)
            if c:
                last = c
        elif k == 'index':
            cur = op[1]
            last = None
        elif k == 'jump':
            _, how, src, dst, cond, els = op
            r.jump(cur if how == 'goto' else src, dst, r.e(cond) if cond is not None else None, els)
        elif k == 'always':
            r.group(op[1], mem)
        elif k == 'here':
            outs.append('s == %d' % cur)
        elif last is not None:
            outs.append('(s == %d) && (%s)' % (cur, last))
    return outs


def setup(s, m, mk, as_module=False):
    """variables, machine and operations on the library side"""
    clk, rst, P, v, mem = c08.build(s, m, as_module)
    fsm = mk(m, clk, rst)
    cache = {}
    env = dict(v=v, p=P, mem=mem)

    def pv(j):
        if j not in cache:
            src, n, init, cond, _ = s['prevs'][j]
            sb = ctl.B(env)
            kw = {}
            if init:
                kw['initval'] = init
            if cond is not None:
                kw['cond'] = sb(cond)
            cache[j] = fsm.Prev(sb(src), n, **kw)
        return cache[j]
    env['pv'] = pv
    for j, p in enumerate(s['prevs']):
        if p[4]:
            pv(j)
    for i in s['varidx'] + s['ar']:
        fsm.add_reset(v[i])
    nout = drive(s, m, fsm, env, cache)
    for j in range(len(s['prevs'])):
        m.Output('q%d' % j, 40).assign(pv(j))
    m.Output('state', s['width']).assign(fsm.state)
    if not s['rst'] and not as_module:
        m.Initial(fsm.state(0))
    return fsm, nout


def ref_module(s, r, outs_s, extra=()):
    vs, ni = s['vs'], s['ni']
    rng = lambda w: '[%d:0]' % (w - 1) if w is not None else ''
    ports = ['input CLK', 'input RST', 'output [%d:0] state' % (s['width'] - 1)]
    decl = ['reg [%d:0] s; assign state = s;' % (s['width'] - 1)]
    init = []
    for i, (w, sg, iv) in enumerate(vs):
        kind = 'input' if i < ni else 'output reg' if i % 2 else 'reg'
        t = '%s%s %s v%d' % (kind, ' signed' if sg else '', rng(w), i)
        if kind == 'reg':
            decl.append(t + ';')
            ports.append('output %s o%d' % (rng(w), i))
            decl.append('assign o%d = v%d;' % (i, i))
        else:
            ports.append(t)
        if i >= ni:
            init.append('v%d = %d;' % (i, 3 * i))
            if iv is not None:
                decl.append('wire %s init%d = %s;' % (rng(w), i, ctl.init_text(iv)))
    for j, (w, n, iv) in enumerate(s['mem']):
        decl.append('reg [%d:0] mem%d [0:%d];' % (w - 1, j, n - 1))
        ports.append('output [%d:0] om%d' % (w * n - 1, j))
        decl.append('assign om%d = {%s};' % (j, ', '.join('mem%d[%d]' % (j, k) for k in reversed(range(n)))))
        init += ['mem%d[%d] = %d;' % (j, k, k + 1) for k in range(n)]
    e = r.e
    pd = []
    for j, (src, n, iv, cond, _) in enumerate(s['prevs']):
        ports.append('output [39:0] q%d' % j)
        if src[0] == 'v':
            w, sg = vs[src[1]][0] or 1, vs[src[1]][1]
        else:
            w = 1 if src[1] == 'LessThan' else max(vs[src[2][1]][0], vs[src[3][1]][0]) + (src[1] == 'Plus')
            sg = False
        if n:
            names = ['pv%d_%d' % (j, k) for k in range(1, n)] + ['pv%d' % j]
            pd.append('wire%s [%d:0] ps%d = %s;' % (' signed' if sg else '', w - 1, j, e(src)))
            p = 'ps%d' % j
            for nm in names:
                pd.append('reg%s [%d:0] %s;' % (' signed' if sg else '', w - 1, nm))
                r.rst.append('%s <= %d;' % (nm, iv))
                r.shift.append('%s%s <= %s;' % ('if (%s) ' % e(cond) if cond is not None else '', nm, p))
                p = nm
        else:
            pd.append('wire%s [%d:0] pv%d = v%d;' % (' signed' if sg else '', w - 1, j, src[1]))
        decl.append('assign q%d = pv%d;' % (j, j))
    for k, t in enumerate(outs_s):
        ports.append('output h%d' % k)
        decl.append('assign h%d = %s;' % (k, t))
    tg = targets_of(s['ops'], [])
    for i in s['varidx'] + s['ar']:
        tg.append(['t', i])
    rstst = ctl.resets(tg, vs, s['mem'], r)
    body = ['module refm #(parameter P0 = %d, parameter P1 = %d) (%s);' % (s['par'][0], s['par'][1], ', '.join(ports))]
    body += pd + decl + r.decl
    body.append('initial begin %s %s end' % (' '.join(init), '' if s['rst'] else 's = 0;'))
    main_ = '\n'.join(r.shift + r.all())
    if s['rst']:
        body.append('always @(posedge CLK) if (RST) begin s <= 0; %s end else begin\n%s\nend' % (
            '\n'.join(rstst + r.rst), main_))
    else:
        body.append('always @(posedge CLK) begin\n%s\nend' % main_)
    body.append('endmodule')
    outs = [('v%d' % i if i % 2 else 'o%d' % i, vs[i][0]) for i in range(ni, len(vs))]
    outs += [('om%d' % j, w * n) for j, (w, n, _) in enumerate(s['mem'])] + [('q%d' % j, 40) for j in range(len(s['prevs']))]
    outs += [('state', s['width'])] + [('h%d' % k, None) for k in range(len(outs_s))]
    return body, outs


def normal(s):
    """undelayed previous values of expressions are the expressions themselves: not part of this check"""
    for p in s['prevs']:
        if p[0][0] != 'v' and p[1] == 0:
            p[1] = 1
    return s


def run(s):
    s = normal(s)
    m = Module('dut')
    f = s['form']
    fsm, nout = setup(s, m, lambda m, clk, rst: FSM(m, 'fsm', clk, rst, width=s['width'], nohook=f >= 2))
    if f == 2:
        fsm.make_always(case=False)
    elif f == 3:
        fsm.make_always(case=True)
    text = m.to_verilog()
    r = FR(s['vs'])
    outs_s = reference(s, r)
    if len(outs_s) != nout:
        raise Violation('number of state outputs: %d, described %d' % (nout, len(outs_s)))
    body, outs = ref_module(s, r, outs_s)
    tb = c08.ctl_tb(s, s['vs'], s['ni'], outs, ('dut', 'refm'), 60)
    out = sim.compile_and_run('\n'.join([text] + body + tb), top='tb')
    c08.judge(out, text, '\n'.join(body))
    labels = set()
    for op in s['ops']:
        labels.add(op[0])
        if op[0] == 'group':
            if op[1]:
                labels.add(op[1][0])
            for link in op[2][1]:
                for a in (link[2] if op[2][0] == 'chain' else [link]):
                    labels.add(a[0])
                    if a[0] == 'body':
                        labels |= set(k for k in ('delay', 'keep', 'lazy', 'eager') if a[1][k])
    return dict(nontrivial=len(r.jumps) >= 2 and len(r.st) >= 1, labels=sorted(labels))


PARTS = [Part('fsm', case(), run, quick=4000, thorough=80000)]

if __name__ == '__main__':
    main('C09', PARTS,
         rule='state machines with up to 9 operations (action groups with If/Elif/Else/Then, delay, keep, lazy, eager, '
              'jumps of every kind, actions placed in other states), case and if encoding, 60 cycles with random resets; '
              'non-trivial = jumps from >=2 states and >=1 state action',
         assumptions=['Icarus Verilog 12 executes both sides', 'conditions are free of x values'])
