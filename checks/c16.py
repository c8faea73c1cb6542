"""C16: AXI master transfers move exactly the requested data.

Oracle: a byte-addressed memory and RAM arrays in Python executing the same transfers; an independent AXI memory with random timing
and a protocol monitor (checks/axibfm.py) is the environment.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr, axibfm

from veriloggen import *  # noqa
import veriloggen.thread as vthread

MEMSIZE = 65536


def init_byte(i):
    return ((i * 7) ^ (i >> 8) ^ (i >> 3)) + 13 & 255


# ------------------------------------------------------------------------------------------------------ shape of RAMs
def leaves(r):
    """r = ['ram', dw, aw, ports] or ['multi', dw, aw, ports, n] or ['pair', ...] (tuple of RAMs) or ['nest', dw, aw, ports, n, m]"""
    return {'ram': 1, 'multi': r[4] if len(r) > 4 else 0, 'pair': r[4] if len(r) > 4 else 0}.get(r[0]) or r[4] * r[5]


def op_words(r, o, k):
    """the leaf cells of the k-th word of the transfer, as a list of (leaf, index) from the least significant element"""
    la, st, bs = o['la'], o['st'], o['bs']
    kind = o['k']
    if r[0] == 'ram':
        return [(0, la + k * st)]
    n = r[4]
    if kind == 'plain':
        a = la + k * st
        sh = (n - 1).bit_length()
        return [(a & ((1 << sh) - 1), a >> sh)]
    if kind == 'bank':
        return [(o['bank'], la + k * st)]
    if kind == 'bcast':
        return [[(b, la + k * st)] for b in range(n)]
    if kind == 'packed':
        a = la + k * (n if o['dst'] else st)
        return [(b, a // n) for b in range(n)]
    if r[0] == 'nest':      # one word = all banks of the inner RAM; sizes count elements
        mm = r[5]
        bs = -(-bs // mm)
    blk = k // bs
    if r[0] == 'nest':
        outer = blk % n
        a = la + ((blk // n) * bs + k % bs) * (mm if o['dst'] else st)
        return [(outer * mm + b, a // mm) for b in range(mm)]
    return [(blk % n, la + ((blk // n) * bs + k % bs) * (1 if o['dst'] else st))]


def op_shape(r, o):
    """number of words, width of a word"""
    n = r[4] if len(r) > 4 else 1
    if r[0] in ('multi', 'pair') and o['k'] == 'packed':
        return -(-o['n'] // n), r[1] * n
    if r[0] == 'nest':
        return -(-o['n'] // r[5]), r[1] * r[5]
    return o['n'], r[1]


@spec
def dma_case(d):
    dw = d.pick([32, 32, 32, 64, 128, 16, 8])
    rams = []
    for _ in range(d.int(1, 3)):
        k = d.pick(['ram', 'ram', 'ram', 'multi', 'multi', 'pair', 'nest'])
        e = d.pick([32, 32, dw, dw, dw // 2, dw * 2, dw // 4, dw * 4, dw * 3])
        e = max(8, min(e, 256))
        ports = d.int(1, 2)
        if k == 'ram':
            rams.append([k, e, d.pick([3, 4, 6, 9, 10]), ports])
        elif k == 'nest':
            rams.append([k, min(e, 64), d.int(3, 6), ports, d.pick([2, 3, 4]), d.pick([2, 4])])
        else:
            rams.append([k, min(e, 64), d.pick([3, 5, 7]), ports, d.pick([2, 2, 3, 4]) if k == 'multi' else d.pick([2, 4])])

    def size_bound(r, o):
        """the largest size which stays inside the RAM"""
        depth = 1 << r[2]
        best = 0
        lo, hi = 1, 2048
        while lo <= hi:
            mid = (lo + hi) // 2
            o['n'] = mid
            words, _ = op_shape(r, o)
            # blocks visit higher addresses before lower ones: check the last blocks
            ok = True
            for kk in range(max(0, words - 2 * o['bs'] * 4 - 4), words):
                c = op_words(r, o, kk)
                c = sum(c, []) if o['k'] == 'bcast' and r[0] != 'ram' else c
                if any(i >= depth for _, i in c):
                    ok = False
                    break
            if ok:
                best, lo = mid, mid + 1
            else:
                hi = mid - 1
        return best

    def op(i, write, gbase):
        r = rams[i]
        kinds = {'ram': ['plain'], 'multi': ['plain', 'bank', 'packed', 'block', 'bcast'], 'pair': ['packed', 'block', 'bank', 'bcast'], 'nest': ['block']}[r[0]]
        if len(r) > 4 and r[4] == 3 and r[0] != 'nest':
            kinds = ['bank', 'block', 'bcast']
        if write:
            kinds = [k for k in kinds if k != 'bcast']
        k = d.pick(kinds)
        o = dict(i=i, w=write, k=k, st=d.pick([1, 1, 1, 1, 2, 3, 5]), bs=d.pick([1, 2, 3, 5, 8]) if k == 'block' else 1, port=d.int(0, r[3] - 1), dst=True,
                 la=d.pick([0, 0, d.int(0, 7), d.int(0, (1 << r[2]) - 1)]), bank=d.int(0, r[4] - 1) if k == 'bank' else 0)
        if k in ('packed', 'block'):
            o['dst'] = d.int(0, 3) > 0
            if not o['dst']:
                o['st'] = o['st'] * (r[5] if r[0] == 'nest' else r[4] if k == 'packed' else 1)
        if k == 'packed' or r[0] == 'nest':
            g = r[5] if r[0] == 'nest' else r[4]
            o['la'] = o['la'] // g * g
        b = size_bound(r, o)
        if b < 1:
            o['la'] = 0
            o['st'] = 1 if k not in ('packed', 'block') else o['st']
            b = size_bound(r, o)
        if b < 1:
            return None
        o['n'] = d.pick([1, 2, 3, d.int(1, min(b, 20)), d.int(1, b), b])
        if o['n'] > b:
            o['n'] = b
        words, ww = op_shape(r, o)
        nbytes = -(-words * ww // dw) * dw // 8
        room = 32768 - nbytes - 256
        if room < 0:
            return None
        a = d.pick([d.int(0, 64) * 4, 4096 - d.int(0, 20) * 4, 4096 * d.int(0, 6) + d.int(0, 4095), d.int(0, 28000), 4096 * d.int(1, 5) - dw // 8 * d.int(0, 30)])
        a = max(0, min(a, room)) // (dw // 8) * (dw // 8)
        if d.chance(8):
            a += d.int(0, dw // 8 - 1)
        o['ga'] = a + gbase
        return o

    groups = []
    for _ in range(d.int(1, 4)):
        k = d.pick(['sync', 'sync', 'sync', 'async', 'async', 'mix', 'single', 'single'])
        if k == 'single':
            ops = []
            for _ in range(d.int(1, 4)):
                ops.append([d.pick(['write', 'fence', 'read']), d.int(0, MEMSIZE * 8 // dw - 1) * (dw // 8), d.int(0, 2 ** 31 - 1), d.int(0, 9)])
            groups.append([k, ops])
        elif k == 'sync':
            groups.append([k, [x for x in [op(d.int(0, len(rams) - 1), d.bool(), d.pick([0, 32768]))] if x]])
        elif k == 'async':
            w = d.bool()
            groups.append([k, [x for x in [op(d.int(0, len(rams) - 1), w, 0) for _ in range(d.int(2, 6))] if x], d.int(0, 2)])
        else:
            # reads and writes at the same time use different RAMs and memory
            side = [d.bool() for _ in rams]
            groups.append([k, [x for x in [op(i, side[i], 32768 * side[i]) for i in [d.int(0, len(rams) - 1) for _ in range(d.int(2, 6))]] if x], d.int(0, 1)])
    return dict(dw=dw, rams=rams, groups=groups, prob=[d.pick([15, 15, 8, 3, 1]) for _ in range(5)], seed=d.int(0, 9999), base=d.pick([None, None, None, d.int(0, 255) * 256]),
                sb=d.pick([1, 1, 1, 2, 3]), ids=d.pick([0, 0, 0, 4]), user=d.pick([2, 2, 0, 3]), fifo=d.pick([3, 3, 3, 2, 4]), form=d.int(0, 2), asmod=d.chance(5),
                verify=d.chance(4))


def thread_source(s):
    rams, L = s['rams'], []
    L.append('def program():')
    e = L.append
    count = [0]

    def val(x):
        count[0] += 1
        if s['form'] == 0 or s['form'] == 2 and count[0] % 2:
            return str(x)
        e('    v%d = %d' % (count[0] % 7, x))
        return 'v%d' % (count[0] % 7)
    mark = [0]

    def mk():
        mark[0] += 1
        e('    mark.value = %d' % mark[0])
        e('    pass')
        e('    while gate != %d:' % mark[0])      # the testbench prints the state
        e('        pass')
    off = s['base'] or 0
    if s['base'] is not None:
        e('    axi.set_global_base_addr(%d)' % s['base'])

    def call(o, suffix=''):
        r = rams[o['i']]
        name = 'r%d' % o['i']
        dr = 'write' if o['w'] else 'read'
        ga = val((o['ga'] - off) % (1 << 32) if s['base'] is not None else o['ga'])
        la = val(o['la'])
        n = val(o['n'])
        k = '' if o['k'] == 'plain' else '_' + o['k']
        args = [name]
        if o['k'] == 'bank':
            args.append(val(o['bank']))
        args += [la, ga, n]
        if o['k'] == 'block':
            args.append(val(o['bs']))
        if not (o['k'] in ('packed', 'block') and o['dst']) and (o['st'] != 1 or o['port'] == 1):
            args.append(val(o['st']))
        if o['port']:
            args.append('port=%d' % o['port'])
        e('    axi.dma_%s%s%s(%s)' % (dr, k, suffix, ', '.join(args)))
    for g in s['groups']:
        if g[0] == 'single':
            for k, a, v, dl in g[1]:
                a = val((a - off) % (1 << 32))
                if k == 'read':
                    e('    x = axi.read%s' % ('_delayed(%s, %d)' % (a, dl) if s['verify'] else '(%s)' % a))
                    e("    print('V', x)")
                elif k == 'write':
                    e('    axi.write%s' % ('_delayed(%s, %d, %d)' % (a, v, dl) if s['verify'] else '(%s, %s)' % (a, val(v))))
                    e('    axi.dma_wait_write_response()')
                else:
                    e('    axi.write_fence(%s, %s)' % (a, val(v)))
        elif g[0] == 'sync':
            for o in g[1]:
                call(o)
                r = rams[o['i']]
                if r[0] == 'ram' and not o['w']:
                    for k in (o['n'] - 1, 0):
                        e("    print('V', r%d.read(%d))" % (o['i'], o['la'] + k * o['st']))
        else:
            for o in g[1]:
                call(o, '_async')
            if g[0] == 'mix':
                e('    axi.dma_wait()') if g[2] else (e('    axi.dma_wait_read()'), e('    axi.dma_wait_write()'))
            else:
                w = g[1] and g[1][0]['w']
                if g[2] == 2 and w:
                    e('    axi.dma_wait_write_idle()')
                    e('    axi.dma_wait_write_response()')
                else:
                    e('    axi.dma_wait()' if g[2] else '    axi.dma_wait_write()' if w else '    axi.dma_wait_read()')
        mk()
    e("    print('DONE')")
    return '\n'.join(L) + '\n', mark[0]


def dma_run(s):
    dw, rams = s['dw'], s['rams']
    if not any(g[1] for g in s['groups']):
        return dict(nontrivial=False, labels=['empty'])
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    gate = m.Input('gate', 32)
    mark = m.OutputReg('mark', 32, initval=0)
    env = dict(vthread=vthread, m=m, clk=clk, rst=rst, mark=mark, gate=gate)
    cls = vthread.AXIMVerify if s['verify'] else vthread.AXIM
    env['axi'] = cls(m, 'axi', clk, rst, dw, waddr_id_width=s['ids'], wresp_id_width=s['ids'], raddr_id_width=s['ids'], rdata_id_width=s['ids'],
                     waddr_user_width=s['user'], raddr_user_width=s['user'], sb_depth=s['sb'], use_global_base_addr=s['base'] is not None,
                     req_fifo_addrwidth=s['fifo'], fsm_as_module=s['asmod'])
    names = []
    for i, r in enumerate(rams):
        if r[0] == 'ram':
            x = vthread.RAM(m, 'r%d' % i, clk, rst, r[1], r[2], r[3])
            names.append(['r%d' % i])
        elif r[0] == 'multi':
            x = vthread.MultibankRAM(m, 'r%d' % i, clk, rst, r[1], r[2], r[3], numbanks=r[4])
            names.append(['r%d_%d' % (i, b) for b in range(r[4])])
        elif r[0] == 'pair':
            x = tuple(vthread.RAM(m, 'r%d_%d' % (i, b), clk, rst, r[1], r[2], r[3]) for b in range(r[4]))
            names.append(['r%d_%d' % (i, b) for b in range(r[4])])
        else:
            x = vthread.to_multibank_ram([vthread.MultibankRAM(m, 'r%d_%d' % (i, b), clk, rst, r[1], r[2], r[3], numbanks=r[5]) for b in range(r[4])], keep_hierarchy=True)
            names.append(['r%d_%d_%d' % (i, b, c) for b in range(r[4]) for c in range(r[5])])
        env['r%d' % i] = x
    src, marks = thread_source(s)
    src += "\nvthread.Thread(m, 'th', clk, rst, program, datawidth=%d).start()\n" % max([32, dw] + [r[1] for r in rams])
    ns, path = thr.load(src, env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    decl, conn = axibfm.declare(m, ('CLK', 'RST'))
    ports = set(m.io_variable)
    t = ['module tb;', '  reg CLK, RST; integer cyc, k, lastmark;', decl, '  dut d(%s);' % conn,
         '  initial begin CLK = 0; forever #5 CLK = !CLK; end',
         '  initial begin RST = 1; gate = 0; lastmark = 0; #100 RST = 0; end', '  initial begin']
    for i, r in enumerate(rams):
        for b, nme in enumerate(names[i]):
            t.append('    for(k = 0; k < %d; k = k + 1) d.inst_%s.mem[k] = {%d{8\'h%02x}} ^ (k * 32\'h9e3779b1);' % (1 << r[2], nme, r[1] // 8, (i * 16 + b * 5 + 3) & 255))
    t.append('  end')
    t.append('  always @(posedge CLK) if(!RST) begin if(mark != lastmark) begin lastmark = mark; #1; gate = mark;')
    t.append('    $write("M %0d", mark);')
    for i, r in enumerate(rams):
        for nme in names[i]:
            t.append('    $write(" ;"); for(k = 0; k < %d; k = k + 1) $write(" %%h", d.inst_%s.mem[k]);' % (1 << r[2], nme))
    t.append('    $write("\\n");')
    t.append('    if(mark == %d) begin repeat(30) @(posedge CLK); $display("END"); $finish(0); end' % marks)
    t.append('  end end')
    t.append(axibfm.bfm('axi', dw, ports, s['seed'], s['prob'], MEMSIZE))
    t.append('  initial begin cyc = 0; repeat(200000) @(posedge CLK); $display("TIMEOUT"); $finish(0); end\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb', timeout=300)
    return judge(s, out, names, marks)


def judge(s, out, names, marks):
    dw, rams = s['dw'], s['rams']
    nb = dw // 8
    lines = out.splitlines()
    for l in lines:
        if l.startswith('PROTO') or 'TIMEOUT' in l:
            raise Violation(l + ' ' + str([g for g in s['groups']])[:600])
    # reference
    mem = [init_byte(i) for i in range(MEMSIZE)]
    ram = []
    for i, r in enumerate(rams):
        M = (1 << r[1]) - 1
        ram.append([[(int.from_bytes(bytes([(i * 16 + b * 5 + 3) & 255]) * (r[1] // 8), 'little') ^ (k * 0x9e3779b1)) & M for k in range(1 << r[2])] for b in range(len(names[i]))])
    obs_mem = list(mem)
    pos = 0
    want_v = []
    got_v = []
    moved = 0
    free = set()
    gi = 0

    def put(a, v, n):
        for j in range(n):
            mem[a + j] = v >> (8 * j) & 255

    def execute(o):
        nonlocal moved
        r = rams[o['i']]
        words, ww = op_shape(r, o)
        a = o['ga'] // nb * nb
        E = r[1]
        for k in range(words):
            cells = op_words(r, o, k)
            groups = cells if o['k'] == 'bcast' and r[0] != 'ram' else [cells]
            if o['w']:
                v = sum(ram[o['i']][b][x] << (E * j) for j, (b, x) in enumerate(groups[0]))
                put(a + k * ww // 8, v, ww // 8)
            else:
                v = int.from_bytes(bytes(mem[a + k * ww // 8: a + (k + 1) * ww // 8]), 'little')
                for g in groups:
                    for j, (b, x) in enumerate(g):
                        ram[o['i']][b][x] = v >> (E * j) & ((1 << E) - 1)
            moved += 1
        if o['w']:
            end = a + words * ww // 8
            stop = a + -(-words * ww // dw) * nb
            for x in range(end, stop):       # the rest of the last word of the bus is not specified
                free.add(x)
    for gi, g in enumerate(s['groups']):
        if g[0] == 'single':
            for k, a, v, _ in g[1]:
                if k == 'read':
                    x = int.from_bytes(bytes(mem[a:a + nb]), 'little')
                    if not any(y in free for y in range(a, a + nb)):
                        want_v.append((len(want_v), thr.signed(x, dw)))
                    else:
                        want_v.append((len(want_v), None))
                else:
                    put(a, v & ((1 << dw) - 1), nb)
                    free.difference_update(range(a, a + nb))
                    moved += 1
        else:
            for o in g[1]:
                r = rams[o['i']]
                if not o['w']:
                    words, ww = op_shape(r, o)
                    a = o['ga'] // nb * nb
                    rng = range(a, a + words * ww // 8)
                    if free and any(y in free for y in rng):
                        return dict(nontrivial=False, labels=['unspecified'])
                else:
                    words, ww = op_shape(r, o)
                    free.difference_update(range(o['ga'] // nb * nb, o['ga'] // nb * nb + words * ww // 8))
                execute(o)
                if g[0] == 'sync' and r[0] == 'ram' and not o['w']:
                    for k in (o['n'] - 1, 0):
                        want_v.append((0, thr.signed(ram[o['i']][0][o['la'] + k * o['st']], r[1])))
        # observed until mark gi + 1
        found = None
        while pos < len(lines):
            l = lines[pos].split()
            pos += 1
            if not l:
                continue
            if l[0] == 'W':
                a = int(l[1], 16)
                st = int(l[3], 16)
                for j in range(nb):
                    if st >> j & 1:
                        if a + j >= MEMSIZE:
                            raise Violation('a write to %x, outside of every transfer of %s' % (a, s['groups'][gi]))
                        c = l[2][len(l[2]) - 2 * j - 2:len(l[2]) - 2 * j]
                        obs_mem[a + j] = int(c, 16) if not set(c) & set('xz') else None
            elif l[0] == 'V':
                got_v.append(l[1])
            elif l[0] == 'M':
                found = l
                break
        if found is None or int(found[1]) != gi + 1:
            raise Violation('the program stopped in %s\n%s' % (g, out[-300:]))
        for x in range(MEMSIZE):
            if obs_mem[x] != mem[x] and x not in free:
                raise Violation('after %s: memory[0x%x] is %s, expected %02x' % (g, x, obs_mem[x], mem[x]))
        secs = ' '.join(found[2:]).split(';')[1:]
        q = 0
        for i, r in enumerate(rams):
            for b in range(len(names[i])):
                vals = secs[q].split()
                q += 1
                for x, c in enumerate(vals):
                    if set(c) & set('xz') or int(c, 16) != ram[i][b][x]:
                        raise Violation('after %s: RAM %s[%d] is %s, expected %x' % (g, names[i][b], x, c, ram[i][b][x]))
    if len(got_v) != len(want_v):
        raise Violation('%d values read, expected %d' % (len(got_v), len(want_v)))
    for gv, (_, w) in zip(got_v, want_v):
        if w is not None and gv != str(w):
            raise Violation('read %s, expected %s; %s' % (got_v, [w for _, w in want_v], s['groups']))
    for l in lines[pos:]:
        if l.startswith('W '):
            raise Violation('a write after the last wait: ' + l)
    return dict(nontrivial=moved > 8, labels=['dw%d' % dw] + [g[0] for g in s['groups']] + sorted(set('%s/%s' % (rams[o['i']][0], o['k']) for g in s['groups'] if g[0] != 'single' for o in g[1])))


# ----------------------------------------------------------------------------------------------------------------- AXI-Lite
@spec
def lite_case(d):
    dw = d.pick([32, 32, 64, 16])
    ops = []
    base = d.pick([None, None, 0, 256, 4096])
    for _ in range(d.int(1, 12)):
        k = d.pick(['write', 'write', 'fence', 'read', 'read', 'wait'] + ([] if base is None else ['base']))
        ops.append([k, d.int(0, 63) * (dw // 8), d.int(0, (1 << min(dw, 60)) - 1), d.pick([0, 0, 1, 3, 7])])
    return dict(dw=dw, base=base, ops=ops, prob=[d.pick([15, 15, 8, 3, 1]) for _ in range(5)], seed=d.int(0, 9999), sb=d.pick([1, 1, 2, 3]), verify=d.chance(4),
                full=d.chance(4), form=d.bool(), threads=d.pick([1, 1, 1, 2]))


def lite_run(s):
    if s['threads'] == 2 and s['full']:
        s = dict(s, threads=1)
    if s['threads'] == 2:
        s = dict(s, base=None)
    dw, nb = s['dw'], s['dw'] // 8
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    done = m.OutputReg('done', 8, initval=0)
    env = dict(vthread=vthread, m=m, clk=clk, rst=rst, done=done)
    cls = {(0, 0): vthread.AXIMLite, (0, 1): vthread.AXIMLiteVerify, (1, 0): vthread.AXIM, (1, 1): vthread.AXIMVerify}[int(s['full']), int(s['verify'])]
    kw = dict(sb_depth=s['sb'], use_global_base_addr=s['base'] is not None)
    env['axi'] = cls(m, 'axi', clk, rst, dw, **kw)
    L = []
    nthr = s['threads']
    want = [[] for _ in range(nthr)]
    writes = [[] for _ in range(nthr)]
    mem = [init_byte(i) for i in range(MEMSIZE)]
    for t in range(nthr):
        base = 0
        off = 0x2000 * t
        L.append('def program%d():' % t)
        e = L.append
        if s['base'] is not None and t == 0:
            e('    axi.set_global_base_addr(%d)' % s['base'])
        if s['base'] is not None:
            base = s['base']
        lock = nthr > 1
        for j, (k, a, v, dl) in enumerate(s['ops'][t::nthr]):
            if k == 'base' and nthr == 1:
                base = v % 16 * 256
                e('    axi.set_global_base_addr(%d)' % base)
                continue
            if k == 'wait':
                e('    for i in range(%d):' % (dl + 1))
                e('        pass')
                continue
            if k == 'base':
                continue
            if lock:
                e('    axi.lock()')
            A = str(a + off)
            V = str(v)
            if s['form']:
                e('    a = %s' % A)
                A = 'a'
                e('    v = %s' % V)
                V = 'v'
            ad = a + off + base
            cur = mem
            if k == 'read':
                e('    x = axi.read%s' % ('_delayed(%s, %d)' % (A, dl) if s['verify'] else '(%s)' % A))
                e("    print('V%d', x)" % t)
                want[t].append(thr.signed(int.from_bytes(bytes(cur[ad:ad + nb]), 'little'), dw))
            else:
                if k == 'fence' and not s['verify']:
                    e('    axi.write_fence(%s, %s)' % (A, V))
                else:
                    e('    axi.write%s' % ('_delayed(%s, %s, %d)' % (A, V, dl) if s['verify'] else '(%s, %s)' % (A, V)))
                if s['full']:
                    e('    axi.dma_wait_write_response()')
                writes[t].append((ad, v & ((1 << dw) - 1)))
                cur[ad:ad + nb] = list((v & ((1 << dw) - 1)).to_bytes(nb, 'little'))
            if lock:
                e('    axi.unlock()')
        if nthr == 2:
            e('    fin%d.value = 1' % t)
        else:
            e('    fin0.value = 1')
    for t in range(nthr):
        env['fin%d' % t] = m.OutputReg('fin%d' % t, initval=0)
        L.append("vthread.Thread(m, 'th%d', clk, rst, program%d, datawidth=%d).start()" % (t, t, max(32, dw)))
    if not any(want) and not any(writes):
        return dict(nontrivial=False, labels=['empty'])
    ns, path = thr.load('\n'.join(L) + '\n', env)
    try:
        text = m.to_verilog()
    finally:
        thr.unload(path)
    decl, conn = axibfm.declare(m, ('CLK', 'RST'))
    t = ['module tb;', '  reg CLK, RST;', decl, '  dut d(%s);' % conn, '  initial begin CLK = 0; forever #5 CLK = !CLK; end', '  initial begin RST = 1; #100 RST = 0; end',
         axibfm.bfm('axi', dw, set(m.io_variable), s['seed'], s['prob'], MEMSIZE, lite=not s['full']),
         '  always @(posedge CLK) if(!RST && %s) begin repeat(40) @(posedge CLK); $display("END"); $finish(0); end' % ' && '.join('fin%d' % i for i in range(nthr)),
         '  initial begin repeat(20000) @(posedge CLK); $display("TIMEOUT"); $finish(0); end', 'endmodule']
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb', timeout=60)
    got = [[] for _ in range(nthr)]
    gw = [[] for _ in range(nthr)]
    end = False
    for l in out.splitlines():
        w = l.split()
        if l.startswith('PROTO') or l.startswith('TIMEOUT'):
            raise Violation('%s; %s' % (l, s['ops']))
        if l.startswith('V'):
            got[int(w[0][1:])].append(w[1])
        elif l.startswith('W '):
            a = int(w[1], 16)
            if nb > 0 and set(w[3]) & set('xz') or int(w[3], 16) != (1 << nb) - 1:
                raise Violation('write strobe %s' % l)
            gw[1 if nthr > 1 and (a - (s['base'] or 0)) >= 0x2000 else 0].append((a, w[2]))
        elif l == 'END':
            end = True
    if not end:
        raise Violation('the program did not end: %s' % out[-300:])
    for t in range(nthr):
        if got[t] != [str(x) for x in want[t]]:
            raise Violation('read %s, expected %s: %s' % (got[t], want[t], s['ops']))
        if [(a, int(v, 16) if not set(v) & set('xz') else v) for a, v in gw[t]] != writes[t]:
            raise Violation('written %s, expected %s: %s' % (gw[t], writes[t], s['ops']))
    return dict(nontrivial=len(s['ops']) > 2, labels=['lite' if not s['full'] else 'axi', 'dw%d' % dw, 'threads%d' % nthr])


# ----------------------------------------------------------------------------------- the memory models of the library
@spec
def model_case(d):
    dw = d.pick([32, 32, 32, 64, 16, 128])
    numports = d.pick([1, 1, 2, 3])
    mdw = d.pick([32, 32, 8, 16, 64])

    def master(p):
        r = [d.pick([dw, dw, 32, dw * 2]), d.int(3, 7)]
        r[0] = max(dw // 4, min(r[0], 128))
        ops = []
        for _ in range(d.int(1, 5)):
            w = d.bool()
            n = d.pick([1, 2, d.int(1, 1 << r[1]), 1 << r[1]])
            la = d.int(0, (1 << r[1]) - n)
            ga = d.pick([d.int(0, 60), d.int(0, 1023 - 256), 1024 - d.int(1, 8)]) // 1 * (dw // 8)
            ga = min(ga, 6144 - (r[0] // 8 << r[1]) - 64) // (dw // 8) * (dw // 8)
            ops.append([d.pick(['dma', 'dma', 'async', 'single']), w, la, ga, n, d.int(0, 0x7fffffff)])
        return dict(ram=r, ops=ops)
    acc = []
    for _ in range(d.int(0, 6)):
        k = d.pick(['read', 'write', 'read_word', 'write_word', 'read_word', 'write_word'])
        bits = d.pick([8, 8, 16, 32, 64, 1, 2, 4])
        acc.append([k, d.int(0, 255), d.int(0, 100) * 8, d.int(0, 0x7fffffff), bits])
    return dict(dw=dw, ports=[master(p) for p in range(numports)], mdw=mdw, multi=d.bool() or numports > 1, serial=d.chance(3), delays=[d.int(0, 12), d.int(0, 12), d.pick([0, 1 + d.int(1, 20), 16]), d.int(0, 5)],
                sb=d.pick([1, 1, 2]), before=acc[:len(acc) // 2], after=acc[len(acc) // 2:], img=d.pick(['default', 'array', 'file']), imgdw=d.pick([8, 16, 32]), ids=d.pick([0, 0, 4]),
                rst2=d.bool())


def model_run(s):
    import numpy as np
    import veriloggen.types.axi as axi
    dw, nb = s['dw'], s['dw'] // 8
    NP = len(s['ports'])
    REG = 8192
    aw = 13 + 2
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    go = m.Input('go')
    env = dict(vthread=vthread, m=m, clk=clk, rst=rst, go=go)
    L = []
    for p, q in enumerate(s['ports']):
        env['axi%d' % p] = vthread.AXIM(m, 'axi%d' % p, clk, rst, dw, sb_depth=s['sb'], waddr_id_width=s['ids'], wresp_id_width=s['ids'], raddr_id_width=s['ids'], rdata_id_width=s['ids'])
        env['ram%d' % p] = vthread.RAM(m, 'ram%d' % p, clk, rst, q['ram'][0], q['ram'][1], 1)
        env['fin%d' % p] = m.OutputReg('fin%d' % p, initval=0)
        L.append('def program%d():' % p)
        L.append('    while go == 0:')
        L.append('        pass')
        for k, w, la, ga, n, v in q['ops']:
            g = ga + p * REG
            if k == 'single':
                if w:
                    L.append('    axi%d.write(%d, %d)' % (p, g, v))
                    L.append('    axi%d.dma_wait_write_response()' % p)
                else:
                    L.append('    x = axi%d.read(%d)' % (p, g))
                    L.append("    print('V%d', x)" % p)
            else:
                L.append('    axi%d.dma_%s%s(ram%d, %d, %d, %d)' % (p, 'write' if w else 'read', '_async' if k == 'async' else '', p, la, g, n))
                if k == 'async':
                    L.append('    axi%d.dma_wait()' % p)
        L.append('    fin%d.value = 1' % p)
        L.append("vthread.Thread(m, 'th%d', clk, rst, program%d, datawidth=%d).start()" % (p, p, max(32, dw)))
    ns, path = thr.load('\n'.join(L) + '\n', env)
    # the testbench
    t = Module('tb')
    params = t.copy_params(m)
    ports = t.copy_sim_ports(m)
    tclk, trst = ports['CLK'], ports['RST']
    clsname = 'Axi' + ('Serial' if s['serial'] else '') + ('Multiport' if s['multi'] else '') + 'MemoryModel'
    import os
    img = os.path.abspath('img.out')
    if s['img'] == 'default':
        kw = dict(memimg_name=img)
        words = s['mdw'] // 8
        mem = []
        for i in range((1 << aw) // words):
            mem += [i >> (8 * j) & 255 if j < 8 else 0 for j in range(words)]
    elif s['img'] == 'array':
        arr = [(i * 2654435761) % (1 << s['imgdw']) for i in range((1 << aw) * 8 // s['imgdw'])]
        kw = dict(memimg=np.array(arr, dtype=np.int64), memimg_name=img, memimg_datawidth=s['imgdw'])
        mem = []
        for x in arr:
            mem += list(x.to_bytes(s['imgdw'] // 8, 'little'))
    else:
        mem = [init_byte(i) for i in range(1 << aw)]
        with open(img, 'w') as f:
            f.write(''.join('%02x\n' % x for x in mem))
        kw = dict(memimg=img)
    if s['multi']:
        kw['numports'] = NP
    mm = getattr(axi, clsname)(t, 'memory', tclk, trst, dw, 32, mem_datawidth=s['mdw'], mem_addrwidth=aw, write_delay=s['delays'][0], read_delay=s['delays'][1],
                               sleep_interval=s['delays'][2], keep_sleep=s['delays'][3], waddr_id_width=s['ids'], wresp_id_width=s['ids'], raddr_id_width=s['ids'], rdata_id_width=s['ids'], **kw)
    for p in range(NP):
        if s['multi']:
            mm.connect(p, ports, 'axi%d' % p)
        else:
            mm.connect(ports, 'axi%d' % p)
    t.Instance(m, 'd', params=t.connect_params(m), ports=t.connect_ports(m))
    simulation.setup_clock(t, tclk)
    init = simulation.setup_reset(t, trst, t.make_reset(), period=100)
    env2 = dict(vthread=vthread, m=t, clk=tclk, rst=trst, mem=mm, goreg=ports['go'])
    for p in range(NP):
        env2['fin%d' % p] = ports['fin%d' % p]
    T = ['def program():']
    e = T.append
    want = []
    nbm = s['mdw'] // 8

    def access(a):
        k, i, off, v, bits = a
        if k == 'read':
            e('    x = mem.read(%d)' % (off + i))
            want.append(thr.signed(int.from_bytes(bytes(mem[off + i:off + i + nbm]), 'little'), s['mdw']))
        elif k == 'write':
            e('    mem.write(%d, %d)' % (off + i, v))
            mem[off + i:off + i + nbm] = list((v & ((1 << s['mdw']) - 1)).to_bytes(nbm, 'little'))
            return
        else:
            by = off + i * bits // 8
            sh = i * bits % 8
            n = -(-bits // 8)
            cur = int.from_bytes(bytes(mem[by:by + n]), 'little')
            msk = (1 << bits) - 1
            if k == 'read_word':
                e('    x = mem.read_word(%d, %d, %d)' % (i, off, bits))
                want.append(thr.signed(cur >> sh & msk, bits))
            else:
                e('    mem.write_word(%d, %d, %d, %d)' % (i, off, v & msk, bits))
                cur = cur & ~(msk << sh) | (v & msk) << sh
                mem[by:by + n] = list(cur.to_bytes(n, 'little'))
                return
        e("    print('A', x)")
    for a in s['before']:
        access(a)
    e('    goreg.value = 1')
    vals = [[] for _ in range(NP)]
    rams = [[(k * 0x9e3779b1 + 77) & ((1 << q['ram'][0]) - 1) for k in range(1 << q['ram'][1])] for q in s['ports']]
    for p, q in enumerate(s['ports']):
        E = q['ram'][0]
        for k, w, la, ga, n, v in q['ops']:
            g = ga + p * REG
            if k == 'single':
                if w:
                    mem[g:g + nb] = list((v & ((1 << dw) - 1)).to_bytes(nb, 'little'))
                else:
                    if -1 in mem[g:g + nb]:
                        thr.unload(path)
                        return dict(nontrivial=False, labels=['unspecified'])
                    vals[p].append(thr.signed(int.from_bytes(bytes(mem[g:g + nb]), 'little'), dw))
            elif w:
                if None in rams[p][la:la + n]:
                    thr.unload(path)
                    return dict(nontrivial=False, labels=['unspecified'])
                for j in range(n):
                    mem[g + j * E // 8:g + (j + 1) * E // 8] = list(rams[p][la + j].to_bytes(E // 8, 'little'))
                if n * E % dw:      # the rest of the last word is not specified
                    st = g + n * E // 8
                    for b in range(st, g + -(-n * E // dw) * nb):
                        mem[b] = -1
            else:
                by = mem[g:g + n * E // 8]
                for j in range(n):
                    c = by[j * E // 8:(j + 1) * E // 8]
                    rams[p][la + j] = int.from_bytes(bytes(c), 'little') if -1 not in c else None
    if any(-1 in mem[o:o + 1100 * 8] for o in (0,)) and s['after']:
        s = dict(s, after=[])
    e('    while %s:' % ' or '.join('fin%d == 0' % p for p in range(NP)))
    e('        pass')
    for a in s['after']:
        access(a)
    e("    for i in range(30):")
    e("        pass")
    e("    print('END')")
    e('    stop.value = 1')
    env2['stop'] = t.Reg('stop', initval=0)
    T.append("vthread.Thread(m, 'tth', clk, rst, program, datawidth=%d).start()" % max(64, s['mdw']))
    ns2, path2 = thr.load('\n'.join(T) + '\n', env2)
    try:
        text = t.to_verilog()
    finally:
        thr.unload(path)
        thr.unload(path2)
    tail = ['  integer k;', '  initial begin']
    for p, q in enumerate(s['ports']):
        tail.append("    for(k = 0; k < %d; k = k + 1) d.inst_ram%d.mem[k] = {%d{1'b0}} + k * 64'h9e3779b1 + 77;" % (1 << q['ram'][1], p, q['ram'][0]))
    tail.append('  end')
    tail.append('  always @(posedge CLK) if(stop === 1) begin')
    tail.append('    $write("M "); for(k = 0; k < %d; k = k + 1) $write(" %%h", _memory_mem[k]); $write("\\n");' % (1 << aw))
    for p, q in enumerate(s['ports']):
        tail.append('    $write("R "); for(k = 0; k < %d; k = k + 1) $write(" %%h", d.inst_ram%d.mem[k]); $write("\\n");' % (1 << q['ram'][1], p))
    tail.append('    $finish(0); end')
    tail.append('  initial begin repeat(30000) @(posedge CLK); $display("TIMEOUT"); $finish(0); end')
    i = text.index('endmodule')
    text = text[:i] + '\n'.join(tail) + '\n' + text[i:]
    out = sim.compile_and_run(text, top='tb', timeout=60)
    os.unlink(img)
    if 'TIMEOUT' in out or 'END' not in out:
        raise Violation('%s: the program did not end: %s %s' % (clsname, s['ports'], out[-300:]))
    got = [l.split()[1] for l in out.splitlines() if l.startswith('A ')]
    if got != [str(x) for x in want]:
        raise Violation('%s read %s, expected %s: %s' % (clsname, got, want, s['before'] + s['after']))
    for p in range(NP):
        gv = [l.split()[1] for l in out.splitlines() if l.startswith('V%d ' % p)]
        if gv != [str(x) for x in vals[p]]:
            raise Violation('%s port %d: read %s, expected %s: %s' % (clsname, p, gv, vals[p], s['ports'][p]))
    M = [l for l in out.splitlines() if l.startswith('M ')][0].split()[1:]
    for a in range(1 << aw):
        if mem[a] >= 0 and M[a] != '%02x' % mem[a]:
            raise Violation('%s: memory[%d] is %s, expected %02x: %s %s' % (clsname, a, M[a], mem[a], s['ports'], s['before'] + s['after']))
    R = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    for p in range(NP):
        for a, c in enumerate(R[p]):
            if rams[p][a] is not None and (set(c) & set('xz') or int(c, 16) != rams[p][a]):
                raise Violation('%s: RAM %d[%d] is %s, expected %x: %s' % (clsname, p, a, c, rams[p][a], s['ports'][p]))
    return dict(nontrivial=sum(len(q['ops']) for q in s['ports']) > 1, labels=[clsname, 'img-' + s['img'], 'sleep%d' % (s['delays'][2] > 0)])


# ------------------------------------------------------------------------------------------- images of the memory models
@spec
def image_case(d):
    shape = [d.int(1, 9) for _ in range(d.int(1, 3))]
    n = 1
    for x in shape:
        n *= x
    sdw = d.pick([4, 8, 8, 16, 32, 2, 1])
    return dict(shape=shape, vals=[d.int(-(1 << sdw - 1), (1 << sdw) - 1) for _ in range(n)], sdw=sdw, mdw=d.pick([8, 16, 32, 64]), align=d.pick([None, None, 1, 2, 4, 3]), off=d.int(0, 8) * 8,
                length=d.pick([None, None, d.int(1, 40)]), word=d.pick([8, 8, 16, 32, 4]), dtype=d.pick(['int64', 'int32']))


def image_run(s):
    import os
    import numpy as np
    import veriloggen.types.axi as axi
    sdw, mdw = s['sdw'], s['mdw']
    if (s['align'] or 1) > 1 and mdw > sdw:      # aligned rows consist of whole words
        s = dict(s, align=s['align'] * (mdw // sdw))
    src = np.array(s['vals'], dtype=np.int64).reshape(s['shape'])
    M = (1 << sdw) - 1
    # set_memory: rows are padded to the alignment and to whole words of the memory
    rows = [s['vals'][i:i + s['shape'][-1]] for i in range(0, len(s['vals']), s['shape'][-1])]
    al = s['align'] or 1
    pad = [r + [0] * (-len(r) % al) for r in rows]
    words = []
    if mdw >= sdw:
        k = mdw // sdw
        for r in pad:
            r = r + [0] * (-len(r) % k)
            words += [sum((x & M) << (sdw * j) for j, x in enumerate(r[i:i + k])) for i in range(0, len(r), k)]
    else:
        for r in pad:
            for x in r:
                words += [x >> (mdw * j) & ((1 << mdw) - 1) for j in range(sdw // mdw)]
    mem = np.zeros([12000], dtype=np.int64)
    base = (np.arange(12000, dtype=np.int64) * 77 + 5)
    mem[:] = base
    axi.set_memory(mem, src, mdw, sdw, s['off'], s['align'])
    o = s['off'] // (mdw // 8)
    for i in list(range(o + len(words) + 4)) + [11999]:
        w = words[i - o] if o <= i < o + len(words) else int(base[i])
        if (int(mem[i]) ^ w) & ((1 << mdw) - 1):
            raise Violation('set_memory(%s, mem %d, src %d, offset %d, align %s): word %d is %x, expected %x' % (src.tolist(), mdw, sdw, s['off'], s['align'], i, int(mem[i]), w))
    sh = axi.aligned_shape(list(s['shape']), sdw, mdw)
    want = list(s['shape'])
    if sdw < mdw:
        want[-1] += -want[-1] % (mdw // sdw)
    if list(sh) != want:
        raise Violation('aligned_shape(%s, %d, %d) = %s, expected %s' % (s['shape'], sdw, mdw, sh, want))
    if axi.shape_to_length(s['shape']) != len(s['vals']):
        raise Violation('shape_to_length')
    # to_memory_image
    W = s['word']
    vals = [x & ((1 << sdw) - 1) for x in s['vals']]
    if s['length'] is not None:
        vals = vals[:s['length']] + [0] * (s['length'] - len(vals))
    if W > sdw:
        k = W // sdw
        vals = vals[:len(vals) // k * k]
        exp = [sum(x << (sdw * j) for j, x in enumerate(vals[i:i + k])) for i in range(0, len(vals), k)]
        if s['length'] is not None or not vals:
            return dict(nontrivial=True, labels=['set'])
        src = np.array(s['vals'][:len(vals)], dtype=s['dtype'])
    else:
        exp = [x >> (W * j) & ((1 << W) - 1) for x in vals for j in range(-(-sdw // W))]
        src = src.astype(s['dtype'])
    f = os.path.abspath('img.out')
    n = axi.to_memory_image(f, src, length=s['length'] if W <= sdw else None, datawidth=sdw, wordwidth=W)
    got = [int(l, 16) for l in open(f)]
    os.unlink(f)
    if got != exp or n != len(exp):
        raise Violation('to_memory_image(%s, length=%s, datawidth=%d, wordwidth=%d) wrote %s (%s words), expected %s' % (s['vals'], s['length'], sdw, W, got, n, exp))
    return dict(nontrivial=len(s['vals']) > 1, labels=['set', 'image'])


PARTS = [Part('dma', dma_case(), dma_run, quick=200, thorough=120000), Part('lite', lite_case(), lite_run, quick=120, thorough=3000), Part('model', model_case(), model_run, quick=60, thorough=2000), Part('image', image_case(), image_run, quick=300, thorough=20000)]

if __name__ == '__main__':
    main('C16', PARTS,
         rule='1-4 groups of transfers (single reads and writes, DMA, asynchronous DMA in one or both directions) between 1-3 RAMs (plain, banks, '
              'tuples of RAMs, nested banks; narrower, equal, wider than the bus; 1-2 ports) and an AXI memory with random timing, with random '
              'sizes, strides, blocks, addresses around 4 KB boundaries; the memory and the RAMs are compared completely after every wait, the '
              'protocol is monitored; non-trivial = more than 8 words moved',
         assumptions=['the size of a transfer is at least 1', 'when the bus is wider than the RAM the rest of the last bus word of a DMA write is '
                      'not specified', 'asynchronous transfers which are not waited for do not use the same RAM or memory in both directions'])
