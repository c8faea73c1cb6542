"""C12: thread lifecycle (run, join, done, reset, ret).

Oracle: the event log of every thread is predicted from the script by executing it on a model of the
lifecycle; per-thread logs must be equal and the joins must come after the ends they wait for.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.thread as vthread


def child(d, c):
    na = d.int(0, 3)
    nd = d.int(0, na)
    return dict(na=na, defs=[d.int(-5, 9) for _ in range(nd)], delay=[d.int(0, 3), d.int(0, 6)],
                form=d.int(0, 3), rc=d.pick([0, 0, 3, -1]), asm=d.chance(6))


def args(d, ch, kw=True):
    """[[position/keyword values]]: list of (name, value-expression, is_keyword)"""
    n = d.int(ch['na'] - len(ch['defs']), ch['na'])
    npos = d.int(0, n) if kw else n
    out = []
    for i in range(ch['na']):
        if i < npos:
            out.append([i, d.pick(['z', 'o', d.int(-9, 9), d.int(0, 99)]), False])
        elif i < ch['na'] - len(ch['defs']) or (kw and d.bool()):
            out.append([i, d.pick(['z', 'o', d.int(-9, 9)]), True])
    return out


@spec
def case(d):
    nt = d.int(1, 2)                 # parents
    children = []
    parents = []
    for p in range(nt):
        mine = []
        for _ in range(d.int(1, 2)):
            mine.append(len(children))
            children.append(child(d, len(children)))
        pool = None
        if d.chance(3):
            pool = dict(child(d, 99), n=d.int(1, 4))
            pool['asm'] = False
        objs = [['c', c] for c in mine] + ([['p', k] for k in range(pool['n'])] if pool else [])
        st = {}
        nm = lambda o: tuple(o)

        def ops(depth, taken, n):
            out = []
            for _ in range(n):
                k = d.int(0, 11)
                o = d.pick(objs)
                s_ = st.get(nm(o), 'idle')
                ch = children[o[1]] if o[0] == 'c' else pool
                if k <= 7:
                    # a legal next step of this child
                    if s_ == 'idle':
                        if d.int(0, 4):
                            out.append(['run', o, args(d, ch, o[0] == 'c' or d.bool())])
                            if taken:
                                st[nm(o)] = 'running'
                        else:
                            if any(x != 'never' for x in [st.get(nm(o), 'never')]):
                                out.append(['done', o, 0])
                    elif s_ == 'running':
                        j = d.pick(['join', 'join', 'poll', 'wait'])
                        out.append([j, o])
                        if taken:
                            st[nm(o)] = 'done'
                    else:
                        j = d.pick(['reset', 'reset', 'reset', 'ret', 'done', 'join'])
                        out.append([j, o] if j != 'done' else ['done', o, 1])
                        if taken and j == 'reset':
                            st[nm(o)] = 'idle'
                elif k == 8:
                    out.append(['print', d.int(0, 99)])
                elif k == 9 and depth > 0:
                    t = d.bool()
                    a = ops(depth - 1, taken and t, d.int(1, 2))
                    b = ops(depth - 1, taken and not t, d.int(1, 2)) if d.bool() else None
                    out.append(['if', t, a, b])
                elif k == 10 and depth > 0:
                    # a loop body that leaves every child as it found it
                    if s_ == 'idle':
                        body = [['run', o, args(d, ch, o[0] == 'c')]]
                        body.append([d.pick(['join', 'poll']), o])
                        if d.bool():
                            body.append(['ret', o])
                        if d.bool():
                            body.append(['print', d.int(0, 9)])
                        if d.chance(4):
                            body.append(['cont', d.int(0, 2)])
                            # the skipped part only prints
                            body = [['run', o, args(d, ch, o[0] == 'c')], ['join', o], ['reset', o], body[-1], ['print', 7]]
                        else:
                            body.append(['reset', o])
                        out.append(['loop', d.int(1, 3), d.bool(), body])
                        if taken:
                            st.setdefault(nm(o), 'idle')
                    else:
                        out.append(['print', 1])
                else:
                    out.append(['pause', d.int(0, 12)])
            return out
        script = ops(2, True, d.int(2, 12))
        for o in objs:
            if st.get(nm(o)) == 'running':
                script.append(['join', o])
                script.append(['ret', o])
        parents.append(dict(mine=mine, pool=pool, script=script))
    # a grandchild: run by child 0 in its body
    gc = dict(child(d, 0), runs=d.int(1, 2)) if d.chance(3) else None
    return dict(children=children, parents=parents, gc=gc, rst=d.pick([0, 0, d.int(20, 200)]), width=d.pick([32, 32, 16, 48]))


def names(ch):
    return ['a%d' % k for k in range(ch['na'])]


def sig(ch, tid=False):
    n = ch['na'] - len(ch['defs'])
    ps = [a if k < n else '%s=%d' % (a, ch['defs'][k - n]) for k, a in enumerate(names(ch))]
    return ', '.join(ps)


def body(ch, name, out, gc=None, ind=1):
    """Python text of a child function."""
    e = lambda s, i=0: out.append('    ' * (ind + 1 + i) + s)
    ns = names(ch)
    out.append('    ' * ind + 'def %s(%s):' % (name, sig(ch)))
    e('print("S %s%s"%s)' % (name, ' %d' * ch['na'], ' %% (%s,)' % ', '.join(ns) if ns else ''))
    e('q = %s' % (' + '.join(ns) if ns else '5'))
    e('for i in range(%d + (q & %d)):' % (ch['delay'][1], ch['delay'][0]))
    e('pass', 1)
    if gc is not None:
        for k in range(gc['runs']):
            e('tg.run(%s)' % ', '.join(['q'] * gc['na']))
            e('tg.join()')
            e('gr = tg.ret()')
            e('print("G %d" % gr)')
            e('tg.reset()')
    f = ch['form']
    if f == 0:
        e('print("E %s")' % name)
        e('return q + 100')
    elif f == 1:
        e('if q & 1:')
        e('print("E %s")' % name, 1)
        e('return q - 1', 1)
        e('print("E %s")' % name)
        e('return %d' % ch.get('rc', 3))
    elif f == 2:
        e('for j in range(3):')
        e('if j + q > 1:', 1)
        e('print("E %s")' % name, 2)
        e('return j', 2)
        e('print("E %s")' % name)
        e('return q')
    else:
        e('print("E %s")' % name)


def retval(ch, vals, W):
    q = W(sum(vals)) if vals else 5
    f = ch['form']
    if f == 0:
        return W(q + 100)
    if f == 1:
        return W(q - 1) if q & 1 else ch.get('rc', 3)
    if f == 2:
        for j in range(3):
            if W(j + q) > 1:
                return j
        return q
    return 0


def source(s):
    out = ['def build(mk, mkpool):']
    pools = []
    for c, ch in enumerate(s['children']):
        body(ch, 'c%d' % c, out, s['gc'] if c == 0 else None)
    if s['gc']:
        body(s['gc'], 'cg', out)
    for p, pa in enumerate(s['parents']):
        if pa['pool']:
            body(pa['pool'], 'k%d' % p, out)
    for p, pa in enumerate(s['parents']):
        out.append('    def p%d():' % p)
        e = lambda t, i: out.append('    ' * (2 + i) + t)
        e('z = 0', 0)
        e('o = 1', 0)
        e('r = 0', 0)
        cnt = [0]

        def obj(o):
            return 't%d' % o[1] if o[0] == 'c' else 'pl%d' % p

        def ids(o):
            return [] if o[0] == 'c' else [str(o[1])]

        def emit(ops, i):
            for op in ops:
                k = op[0]
                o = op[1] if len(op) > 1 else None
                if k == 'run':
                    ch = s['children'][o[1]] if o[0] == 'c' else pa['pool']
                    a = ids(o) + [('a%d=%s' % (x, v) if kw else '%s' % v) for x, v, kw in op[2]]
                    e('print("R %s %d")' % tuple(o), i)
                    e('%s.run(%s)' % (obj(o), ', '.join(a)), i)
                elif k == 'join':
                    e('%s.join(%s)' % (obj(o), ', '.join(ids(o))), i)
                    e('print("J %s %d")' % tuple(o), i)
                elif k == 'poll':
                    e('while not %s.done(%s):' % (obj(o), ', '.join(ids(o))), i)
                    e('z = 0', i + 1)
                    e('print("J %s %d")' % tuple(o), i)
                elif k == 'wait':
                    e('%s.join(%s)' % (obj(o), ', '.join(ids(o))), i)
                    e('r = %s.ret(%s)' % (obj(o), ', '.join(ids(o))), i)
                    e('print("J %s %d")' % tuple(o), i)
                    e('print("V %d", r)' % o[1], i)
                elif k == 'ret':
                    e('r = %s.ret(%s)' % (obj(o), ', '.join(ids(o))), i)
                    e('print("V %d", r)' % o[1], i)
                elif k == 'done':
                    e('r = %s.done(%s)' % (obj(o), ', '.join(ids(o))), i)
                    e('print("D %d", r)' % o[1], i)
                elif k == 'reset':
                    e('%s.reset(%s)' % (obj(o), ', '.join(ids(o))), i)
                elif k == 'print':
                    e('print("P %d")' % o, i)
                elif k == 'pause':
                    cnt[0] += 1
                    e('for w%d in range(%d):' % (cnt[0], o), i)
                    e('pass', i + 1)
                elif k == 'if':
                    e('if %s:' % ('o' if op[1] else 'z'), i)
                    emit(op[2], i + 1)
                    e('pass', i + 1)
                    if op[3] is not None:
                        e('else:', i)
                        emit(op[3], i + 1)
                        e('pass', i + 1)
                elif k == 'cont':
                    e('if x%d == %d:' % (cnt[0], o), i)
                    e('continue', i + 1)
                elif k == 'loop':
                    cnt[0] += 1
                    x = 'x%d' % cnt[0]
                    if op[2] and not any(b[0] == 'cont' for b in op[3]):
                        e('%s = 0' % x, i)
                        e('while %s < %d:' % (x, op[1]), i)
                        emit(op[3], i + 1)
                        e('%s += 1' % x, i + 1)
                    else:
                        e('for %s in range(%d):' % (x, op[1]), i)
                        emit(op[3], i + 1)
        emit(pa['script'], 0)
        e('print("X")', 0)
    for c, ch in enumerate(s['children']):
        out.append('    t%d = mk("th_c%d", c%d, %r)' % (c, c, c, ch['asm']))
    if s['gc']:
        out.append('    tg = mk("th_cg", cg, False)')
    for p, pa in enumerate(s['parents']):
        if pa['pool']:
            out.append('    pl%d = mkpool("pl%d", k%d, %d)' % (p, p, p, pa['pool']['n']))
    for p in range(len(s['parents'])):
        out.append('    q%d = mk("th_p%d", p%d, False)' % (p, p, p))
        out.append('    q%d.start()' % p)
    return '\n'.join(out) + '\n'


def expect(s):
    """Per-thread logs and, per parent, the (join line index -> child, run number) constraints."""
    half = 1 << (s['width'] - 1)
    W = lambda v: ((v + half) & (2 * half - 1)) - half
    logs = {}
    cons = []
    ret = {}
    runs = {}
    env = dict(z=0, o=1)
    for p, pa in enumerate(s['parents']):
        log = logs.setdefault('p%d' % p, [])

        def ev(ops, x=None):
            for op in ops:
                k = op[0]
                o = op[1] if len(op) > 1 else None
                key = (p,) + tuple(o) if isinstance(o, list) else None
                if k == 'run':
                    ch = s['children'][o[1]] if o[0] == 'c' else pa['pool']
                    nm = 'c%d' % o[1] if o[0] == 'c' else 'k%d.%d' % (p, o[1])
                    vals = dict((ch['na'] - len(ch['defs']) + i, v) for i, v in enumerate(ch['defs']))
                    for i, v, kw in op[2]:
                        vals[i] = env.get(v, v)
                    vals = [vals[i] for i in range(ch['na'])]
                    log.append('R %s %d' % tuple(o))
                    fn = nm.split('.')[0]
                    l = logs.setdefault(nm, [])
                    l.append(' '.join(['S %s' % fn] + [str(v) for v in vals]))
                    if o == ['c', 0] and s['gc']:
                        g = s['gc']
                        q = W(sum(vals)) if vals else 5
                        for _ in range(g['runs']):
                            gl = logs.setdefault('cg', [])
                            gl.append(' '.join(['S cg'] + [str(q)] * g['na']))
                            gl.append('E cg')
                            l.append('G %d' % retval(g, [q] * g['na'], W))
                    l.append('E %s' % fn)
                    runs[key] = runs.get(key, 0) + 1
                    cons.append(('p%d' % p, len(log) - 1, nm, runs[key], 'run'))
                    ret[key] = retval(ch, vals, W)
                elif k in ('join', 'poll', 'wait'):
                    nm = 'c%d' % o[1] if o[0] == 'c' else 'k%d.%d' % (p, o[1])
                    log.append('J %s %d' % tuple(o))
                    cons.append(('p%d' % p, len(log) - 1, nm, runs[key], 'join'))
                    if k == 'wait':
                        log.append('V %d %d' % (o[1], ret[key]))
                elif k == 'ret':
                    log.append('V %d %d' % (o[1], ret[key]))
                elif k == 'done':
                    log.append('D %d %d' % (o[1], op[2]))
                elif k == 'print':
                    log.append('P %d' % o)
                elif k == 'if':
                    b = op[2] if op[1] else op[3]
                    if b is not None:
                        ev(b, x)
                elif k == 'cont':
                    if x == o:
                        return
                elif k == 'loop':
                    for i in range(op[1]):
                        ev(op[3], i)
        ev(pa['script'])
        log.append('X')
    return logs, cons


def run(s):
    src = source(s)
    logs, cons = expect(s)
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')

    def mk(name, f, asm):
        return vthread.Thread(m, name, clk, rst, f, datawidth=s['width'], fsm_as_module=asm)

    def mkpool(name, f, n):
        return vthread.ThreadPool(m, name, clk, rst, f, n, datawidth=s['width'])
    ns, path = thr.load(src, {})
    try:
        ns['build'](mk, mkpool)
        text = m.to_verilog()
    finally:
        thr.unload(path)
    nexp = sum(len(v) for v in logs.values())
    extra = ''
    if s['rst']:
        extra = 'initial begin wait(cyc == %d); #1 RST = 1; #40 $display("AGAIN"); RST = 0; end' % (s['rst'] + 12)
    tb = thr.TB % (400 + 200 * nexp, 'dut d(.CLK(CLK), .RST(RST)); %s' % extra)
    out = sim.compile_and_run(text + tb, top='tb')
    lines = [' '.join(l.split()) for l in out.splitlines()]
    if 'AGAIN' in lines:
        lines = lines[lines.index('AGAIN') + 1:]
    lines = [l for l in lines if l and not l.startswith('TIMEOUT') and '$finish' not in l]
    got = {}
    # distribute the lines over the threads; the two parents print the same kinds of line, so parents are checked by merging
    par = []
    kids = {}
    for i, l in enumerate(lines):
        w = l.split()
        if w[0] in ('S', 'E'):
            kids.setdefault(w[1], []).append((i, l))
        elif w[0] == 'G':
            kids.setdefault('c0', []).append((i, l))
        else:
            par.append((i, l))

    def bad(msg):
        raise Violation('%s\n%s\nsimulated:\n%s\nexpected: %s' % (msg, src, '\n'.join(lines[:80]), logs))
    # children run by one parent each: exact sequences
    for c in range(len(s['children'])):
        nm = 'c%d' % c
        if [l for _, l in kids.get(nm, [])] != logs.get(nm, []):
            bad('thread %s does not execute its body exactly once per run with the arguments of the run' % nm)
    if [l for _, l in kids.get('cg', [])] != logs.get('cg', []):
        bad('thread cg does not execute its body exactly once per run with the arguments of the run')
    pos = {}
    for nm, ls in logs.items():
        if nm[0] == 'c':
            pos[nm] = [i for i, l in kids.get(nm, []) if l.split()[0] in 'SE']
    for p, pa in enumerate(s['parents']):
        if not pa['pool']:
            continue
        nm = 'k%d' % p
        have = sorted(l for _, l in kids.get(nm, []))
        want = sorted(l for k, v in logs.items() if k.startswith(nm + '.') for l in v)
        if have != want:
            bad('members of pool %d do not execute their bodies once per run with the arguments of the run' % p)
    # parents: with one parent an exact sequence; with two, a merge of the two
    if len(s['parents']) == 1:
        if [l for _, l in par] != logs['p0']:
            bad('the observations of the starting thread are wrong')
        index = {'p0': [i for i, _ in par]}
    else:
        index = merge(par, logs['p0'], logs['p1'])
        if index is None:
            bad('the observations of the starting threads are wrong')
    for p, k, nm, r, kind in cons:
        if nm[0] != 'c' or (index is not None and p not in index):
            continue
        at = index[p][k]
        se = [i for i, l in kids[nm] if l.split()[0] in ('S', 'E')]
        if kind == 'run' and se[2 * r - 2] < at:
            bad('run %d of %s started before it was requested' % (r, nm))
        if kind == 'join' and se[2 * r - 1] > at:
            bad('join returned before run %d of %s had finished' % (r, nm))
    # pools: number of finished runs at each join
    for p, pa in enumerate(s['parents']):
        if pa['pool'] and len(s['parents']) == 1:
            for q, k, nm, r, kind in cons:
                if nm.startswith('k%d.' % p) and kind == 'join':
                    at = index['p%d' % p][k]
                    joined = sum(1 for a in cons if a[2].startswith('k%d.' % p) and a[4] == 'join' and a[1] <= k and
                                 not any(b[2] == a[2] and b[3] == a[3] and b[4] == 'join' and b[1] < a[1] for b in cons))
                    ended = sum(1 for i, l in kids['k%d' % p] if l.startswith('E') and i < at)
                    if ended < joined:
                        bad('pool join returned before the run had finished')
    txt = src
    labels = [x for x in ('.run(', '.join(', '.done(', '.reset(', '.ret(', 'pl0', 'while', 'for x', 'if o', 'tg.', 'continue') if x in txt]
    labels.append('p%d' % len(s['parents']))
    return dict(nontrivial='.run(' in txt and nexp > 6, labels=labels)


def merge(par, a, b):
    """Positions of the lines of a and b in the interleaving par, or None when it is not an interleaving (backtracking search)."""
    n = len(par)
    if n != len(a) + len(b):
        return None
    seen = set()
    stack = [(0, ())]
    # dynamic programming over (i, j)
    prev = {(0, 0): None}
    order = [(0, 0)]
    for i, j in order:
        k = i + j
        if k == n:
            break
        l = par[k][1]
        if i < len(a) and a[i] == l and (i + 1, j) not in prev:
            prev[(i + 1, j)] = ('a', (i, j))
            order.append((i + 1, j))
        if j < len(b) and b[j] == l and (i, j + 1) not in prev:
            prev[(i, j + 1)] = ('b', (i, j))
            order.append((i, j + 1))
    if (len(a), len(b)) not in prev:
        return None
    amb = any(x in b for x in a if x != 'X' and x[0] in 'PDV')
    res = {'p0': [0] * len(a), 'p1': [0] * len(b)}
    cur = (len(a), len(b))
    while prev[cur] is not None:
        w, p = prev[cur]
        if w == 'a':
            res['p0'][p[0]] = par[p[0] + p[1]][0]
        else:
            res['p1'][p[1]] = par[p[0] + p[1]][0]
        cur = p
    return res


PARTS = [Part('lifecycle', case(), run, quick=1200, thorough=40000)]

if __name__ == '__main__':
    main('C12', PARTS,
         rule='1-2 starting threads, 1-4 children and a pool of 1-4, scripts of up to ~30 lifecycle operations under '
              'if/for/while, default and keyword arguments, grandchildren, a second hardware reset; non-trivial = something is '
              'run and more than 6 lines are printed',
         assumptions=['Icarus Verilog 12 executes the threads',
                      'a child is run again only after join and reset, as documented by the examples'])
