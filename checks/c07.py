"""C07: copied interfaces and submodule hookups connect the right things.

Oracle: the set of copied names by Python's own re (prefix match, or full match), the attributes of the source objects, and the values that a
hierarchy built from the copies shows in simulation, computed from the linear function every child output implements.
"""
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import veriloggen
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt

NAMES = ['a', 'ab', 'abc', 'a_b', 'b', 'ba', 'b_a', 'data', 'data_in', 'data_in_valid', 'in_data', 'ready', 'rd', 'x', 'x1', 'x10', 'x2', 'y', 'y_x']
PNAMES = ['W', 'WA', 'W_A', 'N', 'NW', 'P', 'P1', 'P10', 'A']


def pattern(d, names):
    n = d.pick(names)
    return d.pick([n, n, n[:d.int(1, len(n))], '.*' + n[-1], n[0] + '.*', n + '|' + d.pick(names), '[' + n[0] + 'x].*', n + '$', n[0] + '?'])


def select(names, include, exclude, full):
    f = re.fullmatch if full else re.match
    one = lambda v: [v] if isinstance(v, str) else v or []
    inc, exc = one(include), one(exclude)
    return [n for n in names if (not inc or any(f(p, n) for p in inc)) and not any(f(p, n) for p in exc)]


def filters(d, names, exact=False):
    inc = exc = None
    if names and d.bool():
        inc = [pattern(d, names) for _ in range(d.int(1, 3))]
        inc = inc[0] if len(inc) == 1 and d.bool() else inc
    if names and d.chance(3):
        exc = [pattern(d, names) for _ in range(d.int(1, 2))]
        exc = exc[0] if len(exc) == 1 and d.bool() else exc
    return inc, exc, d.bool()


def child_of(d, clocked=False):
    """parameters: name, default (integer or sum of an earlier one and an integer), width, signed; ports: name, direction, width expression"""
    pn = d.shuffle(PNAMES)[:d.int(0, 4)]
    consts = []
    nparams = d.int(0, len(pn))
    for i, n in enumerate(pn):
        # localparams follow the parameters
        val = d.int(2, 9)
        dep = d.pick(pn[:i]) if i and d.chance(3) else None
        consts.append([n, i >= nparams, val, dep, d.pick([None, None, 8, 32]), d.chance(3)])
    ports = []
    nm = d.shuffle(NAMES)
    for i in range(d.int(2, 7)):
        k = d.int(0, 3)
        dirn = 'in' if i == 0 else 'out' if i == 1 else d.pick(['in', 'in', 'out', 'outreg'])
        if k == 0 or not pn:
            w = d.pick([None, 1, d.int(2, 12)])
        elif k == 1:
            w = d.pick(pn)
        elif k == 2:
            w = [d.pick(pn), d.int(1, 3)]
        else:
            w = [d.pick(pn), d.pick(pn)]
        ports.append([nm[i], dirn, w, d.chance(3)])
    d_ports = d.shuffle(ports)
    return dict(consts=consts, ports=d_ports)


def const_values(child, over):
    v = {}
    for n, local, val, dep, w, sg in child['consts']:
        v[n] = over[n] if n in over and not local else val + (v[dep] if dep else 0)
    return v


def port_width(w, v):
    if w is None:
        return 1
    if isinstance(w, int):
        return w
    if isinstance(w, str):
        return v[w]
    return v[w[0]] + (v[w[1]] if isinstance(w[1], str) else w[1])


def build_child(c, name='child'):
    m = Module(name)
    cv = {}
    for n, local, val, dep, w, sg in c['consts']:
        x = cv[dep] + val if dep else val
        cv[n] = (m.Localparam if local else m.Parameter)(n, x, width=w, signed=sg)
    pv = {}
    for n, dirn, w, sg in c['ports']:
        if isinstance(w, str):
            w = cv[w]
        elif isinstance(w, list):
            w = cv[w[0]] + (cv[w[1]] if isinstance(w[1], str) else w[1])
        pv[n] = {'in': m.Input, 'out': m.Output, 'outreg': m.OutputReg}[dirn](n, w, signed=sg)
    ins = [n for n, dirn, _, _ in c['ports'] if dirn == 'in']
    k = 0
    for n, dirn, w, sg in c['ports']:
        if dirn == 'in':
            continue
        k += 1
        # unsigned sum with different factors
        e = vt.Int(k, width=32)
        for j, i in enumerate(ins):
            e = e + vt.Cat(vt.Int(0, width=1), pv[i]) * (2 * (j + k) + 1)
        for j, (cn, _, _, _, _, _) in enumerate(c['consts']):
            e = e + cv[cn] * (5 * j + k)
        if dirn == 'out':
            m.Assign(pv[n](e))
        else:
            m.Always()(pv[n](e, blk=True))
    return m


def expected(c, v, inputs):
    """outputs of the child for parameter values v"""
    out = {}
    ins = [n for n, dirn, _, _ in c['ports'] if dirn == 'in']
    k = 0
    for n, dirn, w, sg in c['ports']:
        if dirn == 'in':
            continue
        k += 1
        e = k + sum(inputs[i] * (2 * (j + k) + 1) for j, i in enumerate(ins)) + sum(v[x[0]] * (5 * j + k) for j, x in enumerate(c['consts']))
        out[n] = e & ((1 << port_width(w, v)) - 1)
    return out


# ---------------------------------------------------------------------------------------------- copies
@spec
def copy_case(d):
    c = child_of(d)
    pn = [x[0] for x in c['consts'] if not x[1]]
    ln = [x[0] for x in c['consts'] if x[1]]
    qn = [x[0] for x in c['ports']]
    ops = []
    for _ in range(d.int(1, 4)):
        kind = d.pick(['params', 'params_as_localparams', 'localparams', 'ports', 'ports_as_vars', 'vars', 'sim_ports', 'connect_params', 'connect_ports'])
        names = pn if 'param' in kind and kind != 'localparams' else ln if kind == 'localparams' else qn
        inc, exc, full = filters(d, names or qn)
        ops.append([kind, d.pick([None, '', 'p_', 'q']), d.pick([None, '', '_t', '1']), inc, exc, full, d.bool(), d.subset(pn + ln) if d.bool() else None])
    return dict(child=c, ops=ops, assign=d.bool())


def text_of(x):
    """the structure of an expression"""
    if x is None or isinstance(x, (int, str, bool)):
        return x
    if isinstance(x, vt.Int):
        return x.value
    if isinstance(x, vt._Variable):
        return x.name
    if isinstance(x, vt.Plus):
        return ('+', text_of(x.left), text_of(x.right))
    return type(x).__name__


def renamed(x, f):
    if isinstance(x, str):
        return f(x)
    if isinstance(x, tuple):
        return (x[0], renamed(x[1], f), renamed(x[2], f))
    return x


def copy_run(s):
    veriloggen.reset()
    c = s['child']
    src = build_child(c)
    before = src.to_verilog()
    labels = set()
    total = 0
    for k, (kind, pre, post, inc, exc, full, flag, rex) in enumerate(s['ops']):
        m = Module('parent%d' % k)
        kw = dict(prefix=pre, postfix=post, include=inc, exclude=exc, use_fullmatch=full)
        ren = lambda n: (pre or '') + n + (post or '')
        if kind.startswith('connect'):
            params = kind == 'connect_params'
            names = [x[0] for x in c['consts'] if not x[1]] if params else [x[0] for x in c['ports']]
            want = {}
            for j, n in enumerate(names):
                if (j + flag) % 3 == 0:
                    continue            # absent from the parent
                if params:
                    o = m.Parameter(ren(n), 1) if j % 2 else m.Localparam(ren(n), 1)
                else:
                    o = m.Input(ren(n)) if j % 2 else m.Wire(ren(n))
                want[n] = o
            sel = select(names, inc, exc, full)
            want = {n: o for n, o in want.items() if n in sel}
            try:
                got = getattr(m, kind)(src, strict=flag, **kw)
            except IndexError:
                if not flag or all(n in want for n in sel):
                    raise
                got = None
            else:
                if flag and any(n not in want for n in sel):
                    raise Violation('%s(strict) accepts missing objects: %s' % (kind, sel))
            if got is not None and (list(got) != [n for n in names if n in want] or any(got[n] is not want[n] for n in got)):
                raise Violation('%s(%s) connects %s, expected %s' % (kind, kw, {n: o.name for n, o in got.items()}, {n: o.name for n, o in want.items()}))
            total += len(want)
            labels.add(kind)
            continue
        group = {'params': src.global_constant, 'params_as_localparams': src.global_constant, 'localparams': src.local_constant, 'vars': src.variable}.get(
            kind, src.io_variable)
        if rex is not None:
            kw['rename_exclude'] = rex
        wire = kind in ('ports_as_vars', 'sim_ports') and flag
        if wire:
            kw['use_wire'] = True
        got = getattr(m, 'copy_' + kind)(src, **kw)
        sel = select(list(group), inc, exc, full)
        if list(got) != [ren(n) for n in sel]:
            raise Violation('copy_%s(%s) of %s copies %s, expected %s' % (kind, kw, list(group), list(got), [ren(n) for n in sel]))
        inner = lambda n: n if rex and n in rex else ren(n)
        for n in sel:
            o, g = group[n], got[ren(n)]
            cls = {'params_as_localparams': vt.Localparam}.get(kind, type(o))
            if kind in ('ports_as_vars', 'sim_ports'):
                cls = vt.Wire if wire or not isinstance(o, vt.Input) else vt.Reg
            if type(g) is not cls or g.name != ren(n) or m.find_identifier(ren(n)) is not g:
                raise Violation('copy_%s(%s): copy of %s is a %s named %s' % (kind, kw, n, type(g).__name__, g.name))
            if bool(g.signed) != bool(o.signed) or text_of(g.width) != renamed(text_of(o.width), inner):
                raise Violation('copy_%s(%s): %s has width %s signed %s, its copy %s %s' % (
                    kind, kw, n, text_of(o.width), o.signed, text_of(g.width), g.signed))
            if 'param' in kind and text_of(g.value) != renamed(text_of(o.value), inner):
                raise Violation('copy_%s(%s): %s has value %s, its copy %s' % (kind, kw, n, text_of(o.value), text_of(g.value)))
            if s['assign'] and isinstance(g, (vt.Output, vt.Wire)):
                g.assign(3)         # the copy belongs to the module it was copied to
                if not re.search(r'assign %s = 3;' % ren(n), m.to_verilog()):
                    raise Violation('copy_%s(%s): an assignment to the copy of %s is not part of the module\n%s' % (kind, kw, n, m.to_verilog()))
        total += len(sel)
        labels.add(kind)
    if src.to_verilog() != before:
        raise Violation('copying changes the source module\n%s\n%s' % (before, src.to_verilog()))
    return dict(nontrivial=total > 0, labels=sorted(labels))


# ---------------------------------------------------------------------------------------------- hierarchies
@spec
def tree_case(d):
    c = child_of(d)
    pn = [x[0] for x in c['consts'] if not x[1]]
    qn = [x[0] for x in c['ports']]
    how = d.pick(['copy', 'copy', 'sub', 'sub', 'sub', 'instance'])
    s = dict(child=c, how=how, seed=d.int(0, 99999), text=d.chance(4), twice=d.chance(3))
    s['vecs'] = [[d.int(0, 4095) for _ in qn] for _ in range(4)]
    s['over'] = {p: d.int(2, 11) for p in d.subset(pn)}
    if how == 'copy':
        s['prefix'] = d.pick([None, 'p_', 'q', 'x'])
        s['postfix'] = d.pick([None, None, '_t'])
        s['local'] = d.chance(4)             # parameters of the parent become localparams
        s['as_vars'] = d.subset(qn)
        s['use_wire'] = d.bool()
    elif how == 'sub':
        s['name'] = d.pick([None, 'sub', 'u'])
        s['prefix'] = d.pick([None, '', 'pre_'])
        order = [x[0] for x in c['consts'] if not x[1]]
        s['params'] = {p: d.int(2, 11) for p in (order[:d.int(0, len(order))] if d.bool() else d.subset(order))}
        s['pform'] = d.pick(['dict', 'list', 'pos'])
        s['kind'] = {q: d.pick(['arg', 'io', 'wire', 'default']) for q in qn}
        s['form'] = d.pick(['dict', 'list', 'pos'])
        s['objs'] = d.bool()
    else:
        s['form'] = d.pick(['dict', 'list', 'pos', 'same'])
        s['pform'] = d.pick(['dict', 'list', 'pos', 'same'])
        s['npos'] = d.int(1, len(pn)) if pn else 0
    return s


def tree_run(s):
    veriloggen.reset()
    c, how = s['child'], s['how']
    child = build_child(c)
    consts = c['consts']
    params = [x[0] for x in consts if not x[1]]
    ports = {x[0]: x for x in c['ports']}
    m = Module('top')
    over = dict(s['over'])
    # the pins of the top module: child port -> name of the pin
    pins = {}
    extra = {}

    def make_pin(q, width):
        """a separate pin for a port which is not an io of the parent"""
        dirn = ports[q][1]
        n = 'pin_' + q
        pins[q] = n
        return (m.Input if dirn == 'in' else m.Output)(n, width)

    def hook(q, obj):
        """connect the local signal of a port with its pin"""
        p = make_pin(q, obj.width)
        if ports[q][1] != 'in':
            m.Assign(p(obj))
        elif isinstance(obj, vt.Reg):
            m.Always()(obj(p, blk=True))
        else:
            obj.assign(p)
    if how == 'copy':
        pre, post = s['prefix'] or '', s['postfix'] or ''
        kw = dict(prefix=s['prefix'], postfix=s['postfix'])
        (m.copy_params_as_localparams if s['local'] else m.copy_params)(child, **kw)
        m.copy_localparams(child, **kw)
        va = [q for q in ports if q in s['as_vars']]
        if va:
            vs = m.copy_ports_as_vars(child, include=va, use_fullmatch=True, use_wire=s['use_wire'], **kw)
            for q in va:
                hook(q, vs[pre + q + post])
        rest = [q for q in ports if q not in va]
        if rest:
            m.copy_ports(child, exclude=va, use_fullmatch=True, **kw)
            for q in rest:
                pins[q] = pre + q + post
        m.Instance(child, 'inst', m.connect_params(child, **kw), m.connect_ports(child, **kw))
        if s['local']:
            over = {}
        tover = {pre + p + post: v for p, v in over.items()}
        cover = over
    elif how == 'sub':
        src = child.to_verilog() if s['text'] else child
        name = s['name'] or 'child'
        prefix = name + '_' if s['prefix'] is None else s['prefix']
        kind = dict(s['kind'])
        plist = [(p, v) for p, v in s['params'].items()]
        if s['pform'] == 'pos':
            n = 0
            while n < len(params) and params[n] in s['params']:
                n += 1
            plist = [(p, s['params'][p]) for p in params[:n]]
            ap = [v for _, v in plist]
        elif s['pform'] == 'dict':
            ap = dict(plist)
        else:
            ap = plist
        cover = dict(plist)
        v = const_values(c, cover)
        order = list(ports)
        args = [q for q in order if kind[q] == 'arg']
        if s['form'] == 'pos':
            n = 0
            while n < len(order) and kind[order[n]] == 'arg':
                n += 1
            for q in args[n:] if args != order[:n] else []:
                if q not in order[:n]:
                    kind[q] = 'default'
            args = order[:n]
        al = []
        for q in args:
            w = port_width(ports[q][2], v)
            al.append((q, make_pin(q, w)))
        aa = dict(al) if s['form'] == 'dict' else al if s['form'] == 'list' else [x for _, x in al]
        obj = (lambda q: child.io_variable[q]) if s['objs'] else (lambda q: q)
        io = [obj(q) for q in order if kind[q] == 'io']
        wr = [obj(q) for q in order if kind[q] == 'wire']
        sub = Submodule(m, src, s['name'], s['prefix'], arg_params=ap, arg_ports=aa, as_io=io, as_wire=wr)
        for q in order:
            got = sub[q]
            if kind[q] == 'arg':
                if got is not dict(al)[q]:
                    raise Violation('sub[%s] is not the connected object' % q)
            elif kind[q] == 'io':
                if type(got) is not type(child.io_variable[q]) or got.name != prefix + q:
                    raise Violation('sub[%s] is %s %s' % (q, type(got).__name__, got.name))
                pins[q] = prefix + q
            else:
                cls = vt.Wire if kind[q] == 'wire' or ports[q][1] != 'in' else vt.Reg
                if type(got) is not cls or getattr(sub, q) is not got:
                    raise Violation('sub[%s] is %s %s' % (q, type(got).__name__, got.name))
                hook(q, got)
        tover = {}
    else:
        # plain instance: the parent has the values as numbers and signals of its own
        order = params if s['pform'] != 'pos' else params[:s['npos']]
        cover = {p: over.get(p, dict((x[0], x[2]) for x in consts)[p]) for p in order if s['pform'] == 'pos' or p in over}
        plist = list(cover.items())
        if s['pform'] == 'same':
            pa = connect_same_name([m.Localparam(p, x) for p, x in plist])
        else:
            pa = dict(plist) if s['pform'] == 'dict' else plist if s['pform'] == 'list' else [x for _, x in plist]
        v = const_values(c, cover)
        al = []
        for q in ports:
            w = port_width(ports[q][2], v)
            if s['form'] == 'same':
                x = (m.Input if ports[q][1] == 'in' else m.Output)(q, w) if s['pform'] != 'same' or q not in cover else None
                pins[q] = q
            else:
                x = make_pin(q, w)
            al.append((q, x))
        if s['form'] == 'same':
            pa2 = connect_same_name([x for _, x in al[:1]], *[x for _, x in al[1:]])
        else:
            pa2 = dict(al) if s['form'] == 'dict' else al[::-1] if s['form'] == 'list' else [x for _, x in al]
        m.Instance(child, 'inst', pa, pa2)
        tover = {}
    text = m.to_verilog()
    if s['twice'] and m.to_verilog() != text:
        raise Violation('second generation differs\n' + text)
    v = const_values(c, cover)
    t = ['module tb;']
    for q, pin in pins.items():
        w = port_width(ports[q][2], v)
        t.append('  %s [%d:0] %s;' % ('reg' if ports[q][1] == 'in' else 'wire', w - 1, 's_' + q))
    t.append('  top %s t(%s);' % ('#(%s)' % ', '.join('.%s(%d)' % x for x in tover.items()) if tover else '',
                                  ', '.join('.%s(s_%s)' % (pin, q) for q, pin in pins.items())))
    ins = [q for q in ports if ports[q][1] == 'in']
    outs = [q for q in ports if ports[q][1] != 'in']
    t.append('  initial begin')
    rows = []
    for vec in s['vecs']:
        val = {q: x & ((1 << port_width(ports[q][2], v)) - 1) for q, x in zip(ports, vec)}
        rows.append(val)
        t.append('    %s #10 $display("R %s"%s);' % (' '.join("s_%s = %d;" % (q, val[q]) for q in ins), ' '.join(['%h'] * len(outs)),
                                                      ''.join(', s_' + q for q in outs)))
    # widths and signs inside
    for q in ports:
        if how == 'copy' and q not in s['as_vars'] or how == 'sub' and s['kind'][q] == 'io':
            t.append('    $display("B %d", $bits(t.{p}));'.replace('{p}', pins[q]))
    t.append('    $display("END"); end\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    got = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(got) != len(rows) or 'END' not in out:
        raise Violation('simulation failed\n' + out[:300] + text)
    for row, g in zip(rows, got):
        exp = expected(c, v, row)
        if any(set(y) & set('xz') or int(y, 16) != exp[q] for q, y in zip(outs, g)):
            raise Violation('inputs %s parameters %s: outputs %s, expected %s\n%s' % (
                {q: row[q] for q in ins}, v, dict(zip(outs, g)), {q: '%x' % exp[q] for q in outs}, text))
    bits = [int(l.split()[1]) for l in out.splitlines() if l.startswith('B ')]
    want = [port_width(ports[q][2], v) for q in ports if how == 'copy' and q not in s['as_vars'] or how == 'sub' and s['kind'][q] == 'io']
    if bits != want:
        raise Violation('widths %s, expected %s\n%s' % (bits, want, text))
    return dict(nontrivial=len(outs) > 0, labels=[how, 'override' if cover else 'default', 'params' if params else 'none'])


# ---------------------------------------------------------------------------------------------- like
LIKE = ['Input', 'Output', 'OutputReg', 'Inout', 'Wire', 'TmpWire', 'Reg', 'TmpReg', 'Integer', 'Parameter', 'Localparam', 'TmpLocalparam']


@spec
def like_case(d):
    return dict(src=[d.pick(['Input', 'Output', 'Wire', 'Reg', 'Reg', 'Parameter', 'Localparam', 'OutputReg']), d.pick([None, 1, d.int(2, 40), 'expr']), d.bool(),
                     d.pick([None, d.int(0, 5)]), d.pick([None, None, [d.int(1, 4)], [2, 3]])],
                likes=d.list(1, 4, lambda: [d.pick(LIKE), d.pick([None, 'n%d' % d.int(0, 3)]), d.pick([None, None, 7]), d.pick([None, None, True, False]),
                                            d.pick([None, None, 9])]))


def like_run(s):
    veriloggen.reset()
    kind, w, sg, init, dims = s['src']
    a = Module('a')
    wx = a.Parameter('W', 6)
    width = wx + 1 if w == 'expr' else w
    if kind in ('Parameter', 'Localparam'):
        x = getattr(a, kind)('x', 5, width, sg)
    elif kind in ('Reg', 'OutputReg'):
        x = getattr(a, kind)('x', width, signed=sg, initval=init, **({'dims': dims} if kind == 'Reg' else {}))
    else:
        x = getattr(a, kind)('x', width, signed=sg, **({'dims': dims} if kind == 'Wire' else {}))
    for k, (like, name, lw, ls, li) in enumerate(s['likes']):
        m = Module('m')
        kw = {}
        if lw is not None:
            kw['width'] = lw
        if ls is not None:
            kw['signed'] = ls
        val = like in ('Parameter', 'Localparam', 'TmpLocalparam')
        if val and kind not in ('Parameter', 'Localparam'):
            kw['value'] = 3
        if like in ('Reg', 'TmpReg', 'OutputReg') and li is not None:
            kw['initval'] = li
        if name is not None and not like.startswith('Tmp'):
            kw['name'] = name
        y = getattr(m, like + 'Like')(x, **kw)
        ew = lw if lw is not None else 32 if x.width is None and kind in ('Parameter', 'Localparam') else x.width
        es = ls if ls is not None else sg
        if y.width is not ew and y.width != ew or bool(y.signed) != bool(es):
            raise Violation('%sLike(%s) has width %s signed %s' % (like, s['src'], y.width, y.signed))
        if not like.startswith('Tmp') and y.name != (name or 'x') or like != 'OutputReg' and m.find_identifier(y.name) is not y:
            raise Violation('%sLike(%s) is named %s' % (like, s['src'], y.name))
        ei = li if li is not None else init if kind in ('Reg', 'OutputReg') else None
        if like in ('Reg', 'TmpReg', 'OutputReg') and (y.initval is None) != (ei is None) or ei is not None and like in ('Reg', 'TmpReg', 'OutputReg') and y.initval != ei:
            raise Violation('%sLike(%s) has the initial value %s, expected %s' % (like, s['src'], y.initval, ei))
        if val and y.value is not kw.get('value', x.value) and y.value != kw.get('value', x.value):
            raise Violation('%sLike(%s) has the value %s' % (like, s['src'], y.value))
        if not val and tuple(y.dims or ()) != tuple(x.dims or ()):
            raise Violation('%sLike(%s) has the dimensions %s' % (like, s['src'], y.dims))
    return dict(nontrivial=True, labels=[kind] + [l[0] for l in s['likes']])


PARTS = [Part('copy', copy_case(), copy_run, quick=3000, thorough=60000),
         Part('tree', tree_case(), tree_run, quick=1000, thorough=40000),
         Part('like', like_case(), like_run, quick=500, thorough=5000)]

if __name__ == '__main__':
    main('C07', PARTS,
         rule='copy: 1-4 copy_*/connect_* calls with random prefix, postfix, include/exclude patterns, full match, rename_exclude on a child with up to 4 '
              'dependent parameters/localparams and 2-7 ports; names, types, widths, values and signs of all copies are compared; tree: the child '
              'hooked up through copies, Submodule (named, positional, dict; arg/io/wire) or Instance, simulated with random inputs and parameter '
              'values; like: *Like declarations; non-trivial = something was copied or an output was compared',
         assumptions=['patterns are Python regular expressions matched from the start of the name (the whole name with use_fullmatch)',
                      'names that a copied expression refers to exist in the parent'])
