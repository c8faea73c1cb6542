"""Regenerates the per-property part of /verif/DESIGN.md from the checks, properties.jsonl and known_findings.json."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
known = json.load(open(os.path.join(here, 'known_findings.json')))
WHY = dict(
 C01='operators are combined in trees; the tests show a few trees with one formatting, the values (precedence, width and sign context) depend on every combination',
 C02='the space of spellings x contexts is a product no list of examples covers; the width at the edge of the sign bit is where defects sit',
 C03='dangling else, order of blocking assignments and loop nesting only differ in some nestings and some input histories',
 C04='purity is a relation between two generations of one design (again, copied, rebuilt, other process); the tests generate every design once',
 C05='collisions need two names from different name spaces or hierarchies that meet',
 C06='an importer has a case for every construct of the language; what is dropped or read wrongly is still legal Verilog, and shows only with the right values and overrides',
 C07='a wrong connection is legal Verilog; it needs a hierarchy whose values tell the ports apart, for each option combination',
 C08='the modifiers interact (delay x keep x reset x last assignment wins), in the cycle in which they overlap',
 C09='delayed actions of one state overlap the states entered later; priority of jumps depends on the conditions of one cycle',
 C10='equivalence of two elaborations over all inputs and resets',
 C11='a compiler: all programs of the subset; control transfer, scopes and width only meet in some programs',
 C12='repeated runs and resets in any order, with arguments that change',
 C13='a safety property over all interleavings of the requests; the skews decide',
 C14='any history of reads and writes over any geometry',
 C15='any interleaving of producer and consumer, around empty and full',
 C16='alignment x size x ratio x bank layout x memory timing; 4 KB and burst limits are only met by some requests',
 C17='linearizability over all timings of five channels',
 C18='backpressure patterns and width ratios',
 C19='all graph shapes, i.e. all latency differences between the operands of an operator',
 C20='descriptions that change from run to run; stale registers show in the second run only',
 C21='independence from the schedule is a statement about all valid/ready patterns',
 C22='the same for hand-built pipelines',
 C23='all formats and values, negative ones in particular',
 C24='bounds are reached by a vanishing part of the operand space',
 C25='an optimiser is right for all expressions or wrong',
 C26='constants appear in every place of a module, each with width and sign consequences',
 C27='times are sums of parameters; two backends have to agree on a design nobody wrote a test for',
 C28='phases, gaps and rate differences between two clocks',
 C29='every valid/ready pattern; loss needs a stall in one specific cycle',
 C30='all operand values and signs, stalls in any stage',
 C31='nesting x selection x parameter value')
out = []
for p in props:
    i = p['id']
    path = os.path.join(here, 'checks', i.lower() + '.py')
    out.append('### %s %s\n' % (i, p['title']))
    if not os.path.exists(path):
        out.append('Not claimed (see MANIFEST.json, `not_applicable`).\n')
        continue
    t = ast.parse(open(path).read())
    doc = ast.get_docstring(t)
    parts, rule, ass = [], '', []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Part':
            k = {x.arg: ast.unparse(x.value) for x in n.keywords}
            parts.append('`%s` %s/%s' % (n.args[0].value, k.get('quick'), k.get('thorough', '12x')))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'main':
            k = {x.arg: x.value for x in n.keywords}
            rule = ast.literal_eval(k['rule'])
            ass = ast.literal_eval(k['assumptions']) if 'assumptions' in k else []
    body = doc.split('\n\n', 1)[1] if '\n\n' in doc else ''
    out.append('%s\n' % ' '.join(body.split()))
    out.append('* Generated: %s.' % rule)
    out.append('* Cases (quick/thorough): %s.' % ', '.join(parts))
    out.append('* Why the tests cannot settle it: %s.' % WHY.get(i, ''))
    if ass:
        out.append('* Domain and trust: %s.' % '; '.join(ass))
    kf = [f['what'] for f in known['findings'] if f['property'] == i]
    if kf:
        out.append('* Known findings (recorded, re-run every time): %s.' % '; '.join(kf))
    fx = [f.split(None, 3)[2] for f in known['fixed'] if f.split()[1] == 'property=' + i]
    if fx:
        out.append('* Repaired in /repo: %d (%s).' % (len(fx), ', '.join(fx)))
    out.append('')
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
a, b = '<!-- properties: begin (tools/mkdesign.py) -->', '<!-- properties: end -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(f, 'w').write(s)
