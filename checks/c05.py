"""C05: names in a design never silently collide.

Oracle for definitions: a model of the module's name space (which kinds may share a name); every definition that
the model forbids must be rejected and leave the module unchanged, every accepted sequence must compile.
Oracle for module names: each definition computes a number of its own; the value of a hierarchy computed in Python
from the object graph must be the value the emitted Verilog computes, whatever names the definitions carry.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen
import veriloggen.core.vtypes as vt

NAMES = ['a', 'b', 'c', '_tmp_0', '_tmp_1', '_tmp_2', '_p_3', '_probe_1']
KINDS = ['Input', 'Output', 'OutputReg', 'Inout', 'Wire', 'Reg', 'Integer', 'Real', 'Genvar', 'Parameter', 'Localparam',
         'Function', 'Task', 'For', 'If', 'Instance']
TMP = ['TmpWire', 'TmpReg', 'TmpInteger', 'TmpReal', 'TmpGenvar', 'TmpLocalparam', 'TmpWireLike', 'TmpRegLike',
       'TmpIntegerLike', 'Probe']
LIKE = ['InputLike', 'OutputLike', 'OutputRegLike', 'WireLike', 'RegLike', 'IntegerLike', 'LocalparamLike']


@spec
def history(d):
    ops = []
    for _ in range(d.int(2, 14)):
        k = d.int(0, 9)
        if k <= 2:     # the kinds that may share a name
            ops.append([d.pick(['Output', 'Wire', 'Reg', 'Input', 'OutputReg', 'Inout']), d.pick(NAMES[:3])])
        elif k <= 5:
            ops.append([d.pick(KINDS), d.pick(NAMES)])
        elif k <= 8:
            ops.append([d.pick(TMP), d.pick([None, None, '_p', '_tmp_0', '_probe'])])
        else:
            ops.append([d.pick(LIKE), d.pick(NAMES)])
    return dict(ops=ops, prefix=d.pick(['_tmp', '_tmp', '_p', 'a']))


PORTS = ('Input', 'Output', 'Inout')


def allowed(have, kind):
    """have: the set of kinds already carrying the name"""
    if not have:
        return True
    if kind == 'Wire':
        return len(have) == 1 and have <= {'Input', 'Output', 'Inout'}
    if kind == 'Reg':
        return have == {'Output'}
    if kind in ('Input', 'Inout'):
        return have == {'Wire'}
    if kind == 'Output':
        return have in ({'Wire'}, {'Reg'})
    return False


def run_history(s):
    m = Module('top', tmp_prefix=s['prefix'])
    src = m.Reg('src_', 4)
    child = Module('child')
    child.Input('i', 4)
    names = {'src_': {'Reg'}, 'always_': set()}
    nrej = nshare = 0
    for n, (op, name) in enumerate(s['ops']):
        before = m.to_verilog()
        kind = op
        try:
            if op in TMP:
                kind = op[3:].replace('Like', '') if op != 'Probe' else 'Wire'
                kw = {} if name is None else dict(prefix=name)
                if op == 'TmpLocalparam':
                    t = m.TmpLocalparam(3, 4, **kw)
                elif op == 'Probe':
                    t = m.Probe(src, **kw)
                elif op.endswith('Like'):
                    t = getattr(m, op)(src, **kw)
                elif kind in ('Integer', 'Real', 'Genvar'):
                    t = getattr(m, op)(**kw)
                else:
                    t = getattr(m, op)(4, **kw)
                got = t.name
                if names.get(got):
                    raise Violation('step %d: %s returned the name %r, which is already %s' % (
                        n, op, got, sorted(names[got])))
                names.setdefault(got, set()).add(kind)
                if m.find_identifier(got) is not t:
                    raise Violation('step %d: %s is not found under its name' % (n, op))
                continue
            if op in LIKE:
                kind = op[:-4]
                f = getattr(m, op)
                call = (lambda: f(src, name=name)) if op != 'LocalparamLike' else (lambda: f(src, name=name, value=5))
            elif op == 'Function':
                def call():
                    t = m.Function(name, 4)
                    i = t.Input('i', 4)
                    t.Body(t(i))
                    return t
            elif op == 'Task':
                def call():
                    t = m.Task(name)
                    t.Input('i', 4)
                    t.Body(src(3))
                    return t
            elif op == 'For':
                gv = m.Genvar('gv%d' % n)
                names['gv%d' % n] = {'Genvar'}
                before = m.to_verilog()

                def call():
                    return m.GenerateFor(gv(0), gv < 2, gv(gv + 1), scope=name)
            elif op == 'If':
                def call():
                    return m.GenerateIf(1, name)
            elif op == 'Instance':
                def call():
                    return m.Instance(child, name, ports=[('i', src)])
            elif op in ('Integer', 'Real', 'Genvar'):
                call = lambda: getattr(m, op)(name)
            elif op in ('Parameter', 'Localparam'):
                call = lambda: getattr(m, op)(name, 3)
            else:
                call = lambda: getattr(m, op)(name, 4)
            t = call()
        except ValueError as e:
            if op in TMP:
                raise Violation('step %d: %s was rejected: %s' % (n, op, e))
            if allowed(names.get(name, set()), kind) and names.get(name) != {'Inout'}:
                raise Violation('step %d: %s(%r) was rejected (%s) though the name carries only %s' % (
                    n, op, name, e, sorted(names.get(name, ()))))
            if m.to_verilog() != before:
                raise Violation('step %d: the rejected %s(%r) changed the module' % (n, op, name))
            nrej += 1
            continue
        if not allowed(names.get(name, set()), kind):
            raise Violation('step %d: %s(%r) was accepted though the name already belongs to %s' % (
                n, op, name, sorted(names[name])))
        if names.get(name):
            nshare += 1
        names.setdefault(name, set())
        names[name] |= {'Output', 'Reg'} if kind == 'OutputReg' else {kind}
    text = m.to_verilog()
    sim.compile_and_run(text + '\nmodule tb; initial $finish; endmodule\n', top='tb')
    sim.compile_and_run(text, top='top')
    return dict(nontrivial=nrej > 0 and len(s['ops']) >= 4, labels=['rejected'] * min(nrej, 1) + ['shared'] * min(nshare, 1))


# ------------------------------------------------------------------------------------- module names
@spec
def hierarchy(d):
    n = d.int(2, 8)
    pool = d.pick([['m', 'm_'], ['m', 'm_', 'm__', 'x'], ['leaf', 'top', 'leaf_'], ['m']])
    mods = []
    for i in range(n):
        kids = []
        if i:
            for _ in range(d.int(1 if i == n - 1 else 0, 3)):
                kids.append([d.int(0, i - 1), d.pick(['plain', 'plain', 'for', 'if', 'else', 'late'])])
        mods.append(dict(name=d.pick(pool), k=d.int(0, 1) if d.chance(4) else i + 2, kids=kids, seq=d.chance(3),
                         kind=d.pick(['assign', 'func'])))
    order = d.bool()
    return dict(mods=mods, order=order, reuse=d.bool())


def value(mods, i):
    m = mods[i]
    v = m['k']
    for j, (c, how) in enumerate(m['kids']):
        v += (j + 3) * value(mods, c) * (1 if how != 'for' else 2)
    return v % (1 << 32)


def run_hierarchy(s):
    mods = s['mods']
    objs = []
    late = []
    for i, ms in enumerate(mods):
        m = Module(ms['name'])
        clk = m.Input('CLK')
        rst = m.Input('RST')
        o = m.Output('o', 32)
        objs.append(m)
        own = m.Wire('own', 32)
        if ms['seq']:
            r = m.Reg('r', 32, initval=ms['k'])
            q = Seq(m, 'seq%d' % i, clk, rst)
            q.If(r != ms['k'])(r(ms['k']))
            own.assign(r)
        elif ms['kind'] == 'func':
            f = m.Function('f', 32)
            fi = f.Input('i', 32)
            f.Body(f(fi + ms['k']))
            own.assign(f.call(0))
        else:
            own.assign(ms['k'])
        acc = own
        for j, (c, how) in enumerate(ms['kids']):
            w = m.Wire('w%d' % j, 32)

            def inst(j=j, c=c, how=how, m=m, w=w, clk=clk, rst=rst):
                ports = [('CLK', clk), ('RST', rst), ('o', w)]
                if how in ('plain', 'late'):
                    m.Instance(objs[c], 'u%d' % j, ports=ports)
                elif how == 'for':
                    gv = m.Genvar('gv%d' % j)
                    wa = m.Wire('wa%d' % j, 32, 2)
                    g = m.GenerateFor(gv(0), gv < 2, gv(gv + 1), 'g%d' % j)
                    g.Instance(objs[c], 'u', ports=[('CLK', clk), ('RST', rst), ('o', wa[gv])])
                    w.assign(wa[0] + wa[1])
                elif how == 'if':
                    g = m.GenerateIf(1, 'g%d' % j)
                    g.Instance(objs[c], 'u', ports=ports)
                else:
                    g = m.GenerateIf(0, 'g%d' % j)
                    g.Else('h%d' % j).Instance(objs[c], 'u', ports=ports)
            if how == 'late':
                late.append(inst)
            else:
                inst()
            acc = acc + w * (j + 3)
        m.Assign(o(acc))
    for f in (late if s['order'] else reversed(late)):
        f()
    top = objs[-1]
    text = top.to_verilog()
    if top.to_verilog() != text:
        raise Violation('second generation differs from the first')
    want = value(mods, len(mods) - 1)

    def simulate(t, name, want):
        tb = ('module tb_; reg c, r; wire [31:0] o; %s i(.CLK(c), .RST(r), .o(o));'
              'initial begin r = 1; c = 0; #1 c = 1; #1 c = 0; r = 0; #1 c = 1; #1 $display("O %%d", o); $finish; end endmodule' % name)
        out = sim.compile_and_run(t + tb, top='tb_')
        got = [int(l.split()[1]) for l in out.splitlines() if l.startswith('O') and 'x' not in l]
        if got != [want]:
            raise Violation('the hierarchy computes %s, its definitions say %d\n%s' % (got or out[:200], want, t[-5000:]))
    simulate(text, top.name, want)
    if s['reuse']:      # use the generated design below a new top of the same name, and generate a part on its own
        sup = Module(top.name)
        clk = sup.Input('CLK')
        rst = sup.Input('RST')
        o = sup.Output('o', 32)
        w = sup.Wire('w', 32)
        sup.Instance(top, 'u', ports=[('CLK', clk), ('RST', rst), ('o', w)])
        sup.Assign(o(w + 1))
        simulate(sup.to_verilog(), sup.name, (want + 1) % (1 << 32))
        k = mods[-1]['kids'][0][0]
        simulate(objs[k].to_verilog(), objs[k].name, value(mods, k))
    names = [m['name'] for m in mods]
    return dict(nontrivial=len(set(names)) < len(names) and len(mods) > 2,
                labels=sorted({how for m in mods for _, how in m['kids']}) + ['seq'] * any(m['seq'] for m in mods))


PARTS = [Part('history', history(), run_history, quick=3000, thorough=40000),
         Part('hierarchy', hierarchy(), run_hierarchy, quick=2500, thorough=40000)]

if __name__ == '__main__':
    main('C05', PARTS,
         rule='history: 2-14 definitions over 8 names, non-trivial = at least one rejected definition; '
              'hierarchy: 2-8 definitions sharing 1-4 module names, non-trivial = two definitions share a name',
         assumptions=['Icarus Verilog 12 elaborates per IEEE 1364-2005'])
