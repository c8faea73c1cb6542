"""Regenerates /verif/properties.jsonl (kept as a script only for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ['emitted Verilog, simulated with Icarus Verilog'],
                               state=state or [], hook_needed=None)))

V = 'veriloggen/'
p('C01', 'Expressions mean in hardware what they say in Python',
  'For every expression built from the Python API (operators, comparisons, shifts, reductions, bit/part selects with Python indexing, concatenation, repetition, multiplexers, literals), the emitted Verilog evaluates, for all operand values, widths and signedness, to the value that the operator tree has under the Verilog standard rules for that tree. No operand is dropped, reordered, re-associated or re-parenthesised into a different value.',
  ['inputs', 'programs'], 'all expression trees over variables of any width/signedness, all operand values',
  'tests compare the emitted text of a few fixed designs; precedence, indexing and literal combinations are unbounded and no test evaluates them against an independent semantics',
  [V+'core/vtypes.py', V+'verilog/to_verilog.py'],
  [('operator node classes and Python operator overloading', V+'core/vtypes.py'), ('expression visitor', V+'verilog/to_verilog.py')])
p('C02', 'Integer literals keep value, width, base and sign',
  'A literal given as a Python int, a sized/based literal, a Verilog-style literal string, a bool or a float denotes the same number (modulo its declared width) in the emitted Verilog as in Python, in every base, including negatives, underscores, x/z digits and width overrides. Literals that cannot be represented are rejected rather than silently changed.',
  ['inputs'], 'all integer values, widths, bases, signs and spellings of literals',
  'tests use a handful of small decimal constants',
  [V+'core/vtypes.py', V+'verilog/to_verilog.py'],
  [('Int and str_to_value/str_to_width/str_to_base/str_to_signed', V+'core/vtypes.py'), ('visit_Int', V+'verilog/to_verilog.py')])
p('C03', 'Procedural code executes exactly as described',
  'Always, initial, function and task bodies built from nested If/Elif/Else, Case/Casex/When, For, While and blocking/non-blocking assignments execute in the emitted Verilog with the described structure: the same assignments under the same conditions, in the same order, to the same targets (whole variables, bits, slices, array elements, concatenations).',
  ['programs', 'inputs'], 'all statement trees, all input valuations',
  'golden tests pin the text of a few statement shapes; nesting, dangling-else and ordering combinations are unbounded',
  [V+'core/vtypes.py', V+'core/module.py', V+'core/function.py', V+'core/task.py', V+'verilog/to_verilog.py'],
  [('If/Case/For/While/Subst nodes', V+'core/vtypes.py'), ('statement visitors', V+'verilog/to_verilog.py')])
p('C04', 'Code generation is a pure, deterministic function of the design',
  'Generating Verilog from a design any number of times, before or after copying it, simulating it or generating other designs, gives identical text and leaves the design unchanged; building the same design again, in a fresh process or after veriloggen.reset(), gives the same text.',
  ['histories', 'programs', 'configurations'], 'all designs; all interleavings of generation, copying and inspection calls; all hash seeds',
  'tests generate each design once, in a fresh interpreter with a fixed hash seed',
  [V+'core/module.py', V+'verilog/to_verilog.py', V+'seq/seq.py', V+'fsm/fsm.py'],
  [('hook resolution on a copied module tree', V+'core/module.py'), ('per-call visitor state', V+'verilog/to_verilog.py')],
  ['returned text'])
p('C05', 'Names in a design never silently collide',
  'Within one module, defining two objects with one name is rejected, generated temporary names never collide with another object, and two different submodule definitions that carry the same name both survive in the output, each instance using the definition it was made from. Every accepted design is emitted as Verilog that compiles.',
  ['programs', 'histories'], 'all sequences of definitions, temporaries, instances and module names',
  'tests rarely define clashing names; the set of orders in which names may clash is unbounded',
  [V+'core/module.py'], [('check_existing_identifier, Tmp*, Instance renaming, get_modules', V+'core/module.py')])
p('C06', 'Importing Verilog preserves the behaviour of the source',
  'Reading Verilog source that the importer accepts and generating it again gives modules with the same ports, parameters and behaviour as the source; reading the regenerated code again changes nothing further.',
  ['programs', 'inputs'], 'all accepted Verilog modules, all input traces',
  'tests import about a dozen fixed files and compare text, never behaviour',
  [V+'verilog/from_verilog.py', V+'verilog/to_verilog.py'], [('VerilogReadVisitor', V+'verilog/from_verilog.py')])
p('C07', 'Copied interfaces and submodule hookups connect the right things',
  'Copying ports, signals, parameters between modules (with prefix, postfix, include/exclude and use of fullmatch) and connecting a child instance through those copies, positional or named port lists or the Submodule wrapper gives a hierarchy in which every child port is tied to exactly the intended parent object with the same width, direction and parameter values.',
  ['programs', 'configurations'], 'all child port/parameter lists, renamings and filters, all parameter values',
  'tests exercise one small child per feature',
  [V+'core/module.py', V+'core/submodule.py', V+'core/rename_visitor.py'],
  [('copy_*/connect_* methods', V+'core/module.py'), ('Submodule', V+'core/submodule.py'), ('RenameVisitor', V+'core/rename_visitor.py')])
p('C08', 'Sequential blocks follow their cycle semantics',
  'In every synchronous block each assignment takes effect exactly in the cycles its If/Elif/Else conditions, delay, keep and lazy/eager modifiers state; the last applicable assignment wins, previous-value references return the value that many cycles ago, and reset restores every initial value (whole, bit, slice or array element).',
  ['programs', 'inputs', 'histories'], 'all blocks, all input and reset traces',
  'tests simulate about 20 fixed blocks with a fixed stimulus',
  [V+'seq/seq.py', V+'seq/subst_visitor.py', V+'seq/reset_visitor.py'],
  [('Seq.add/_add_statement/make_code', V+'seq/seq.py'), ('ResetVisitor', V+'seq/reset_visitor.py')])
p('C09', 'State machines step as written',
  'In every state machine the machine is in the state its jump history dictates, state actions (immediate, delayed, kept, conditional) happen in exactly the cycles their state and condition dictate, unconditional and conditional jumps are taken with the right priority, and reset returns to the initial state and initial values, in both the case and if encodings.',
  ['programs', 'inputs', 'histories'], 'all state machines, all input and reset traces',
  'tests cover about 20 fixed machines',
  [V+'fsm/fsm.py'], [('FSM.add/goto*/make_case/make_if', V+'fsm/fsm.py')])
p('C10', 'Outlining control logic into a separate module changes nothing',
  'Requesting that a synchronous block or a state machine be emitted as its own module gives a design that is cycle-for-cycle equivalent to the inlined one.',
  ['programs', 'inputs', 'configurations'], 'all blocks and state machines, all traces',
  'a few golden-text tests exist; none compares the two forms',
  [V+'seq/seq.py', V+'fsm/fsm.py', V+'seq/subst_visitor.py'],
  [('as_module paths and rename visitors', V+'seq/seq.py, fsm/fsm.py, seq/subst_visitor.py')])
p('C11', 'Compiled threads compute what the Python function computes',
  'A Python function in the supported subset run as a hardware thread produces the same sequence of observable effects (register writes, prints, returned values) as CPython executing it on fixed-width two-complement integers, for any nesting of if/while/for, break/continue/return, function calls with positional, keyword, default and variable arguments, tuples and lists.',
  ['programs', 'inputs'], 'all supported functions and inputs that stay within the data width',
  'about 250 tests each run one hand-written function on one input',
  [V+'thread/compiler.py', V+'thread/thread.py', V+'thread/scope.py', V+'thread/operator.py'],
  [('AST compiler to FSM', V+'thread/compiler.py'), ('scope frames', V+'thread/scope.py')])
p('C12', 'Thread lifecycle: run, join, done, reset, return value',
  'A started thread executes its body exactly once per run with the arguments given to that run; join returns only after it has finished; done is true exactly between completion and the next run or reset; ret is the value returned by the latest completed run. The same holds for every member of a thread pool and for threads started by other threads.',
  ['programs', 'schedules', 'histories'], 'all interleavings of run/join/done/reset/ret over any number of threads with any relative speeds',
  'tests start one or two threads with fixed timing',
  [V+'thread/thread.py', V+'thread/pool.py'], [('_synthesize_run_fsm/join/done/reset', V+'thread/thread.py')])
p('C13', 'Mutexes, barriers and shared variables synchronise correctly',
  'At no cycle do two threads hold one mutex (or the lock of one shared object), a thread that waits for a mutex acquires it once the other users have stopped requesting it, try_lock succeeds iff it acquires, a barrier releases no thread before all parties have arrived and then releases all of them, repeatedly, and updates to a shared variable are never lost.',
  ['schedules', 'programs', 'histories'], 'all thread counts, arrival orders, critical-section lengths and repetitions',
  'tests run one fixed schedule each',
  [V+'thread/ttypes.py'], [('Mutex, Barrier, Shared', V+'thread/ttypes.py')])
p('C14', 'On-chip memories behave as arrays',
  'Every read of a RAM or ROM through any port returns the last value written to that address (or its initial value), with the documented latency, for all widths, depths, port counts, initial contents, enables, and bank layouts, including reads and writes issued by threads, by RTL connections and by multi-bank addressing.',
  ['histories', 'configurations'], 'all access sequences and RAM geometries',
  'tests write then read one linear pattern',
  [V+'types/ram.py', V+'types/rom.py', V+'thread/ram.py'],
  [('mkRAMDefinition', V+'types/ram.py'), ('read/write/MultibankRAM', V+'thread/ram.py'), ('mkROMDefinition', V+'types/rom.py')])
p('C15', 'FIFOs deliver every accepted item once, in order',
  'For every FIFO and every interleaving of producer and consumer activity, the sequence dequeued is a prefix of the sequence accepted; nothing is lost, duplicated or reordered, full/empty/almost flags and counts agree with occupancy, and non-blocking operations report success exactly when they took effect.',
  ['schedules', 'histories', 'configurations'], 'all enqueue/dequeue schedules, widths, depths and modes',
  'tests use one producer and one consumer at fixed rates',
  [V+'types/fifo.py', V+'thread/fifo.py'], [('mkFifoDefinition', V+'types/fifo.py'), ('enq/deq/try_*', V+'thread/fifo.py')])
p('C16', 'AXI master transfers move exactly the requested data',
  'Every single access or DMA between a RAM and AXI memory, of any size, alignment, stride, data-width ratio, bank layout and memory timing, moves exactly the requested words to exactly the requested places and touches nothing else; after a wait the data is in place; no burst crosses the protocol limits (256 beats, 4 KB).',
  ['inputs', 'schedules', 'configurations'], 'all transfer geometries, latencies and backpressure patterns',
  'tests copy a few fixed blocks with default timing',
  [V+'thread/axim.py', V+'types/axi.py', V+'thread/ram.py'],
  [('DMA controller FSMs', V+'thread/axim.py'), ('AxiMaster channels, AxiMemoryModel', V+'types/axi.py')])
p('C17', 'AXI slave registers are coherent under any bus traffic',
  'A memory-mapped register bank returns for every bus read the value last written by the bus or by the hardware thread, writes reach exactly the addressed register, and flags and waits observe every write, for any order and timing of valid/ready on all channels.',
  ['schedules', 'histories', 'configurations'], 'all bus traffic and handshake timings, register counts and modes',
  'tests issue one fixed sequence of accesses',
  [V+'thread/axis.py', V+'types/axi.py'], [('AXISRegister', V+'thread/axis.py'), ('AxiSlave/AxiLiteSlave', V+'types/axi.py')])
p('C18', 'AXI-Stream endpoints neither lose nor reorder beats',
  'Stream input and output ports move every word exactly once, in order, with last asserted on the right beat, between threads, RAMs, FIFOs and the stream channel under any backpressure and any transfer sizes.',
  ['schedules', 'histories', 'configurations'], 'all transfer sequences, widths and handshake timings',
  'tests use fixed lengths and an always-ready peer',
  [V+'thread/axistreamin.py', V+'thread/axistreamout.py', V+'types/axi.py'],
  [('AXIStreamIn', V+'thread/axistreamin.py'), ('AXIStreamOut', V+'thread/axistreamout.py')])
p('C19', 'Stream accelerators compute their dataflow graph',
  'A stream pipeline built from any combination of stream operators (arithmetic, logic, comparisons, selection, casts, concatenation, previous values, counters, reductions, lookups, constants and parameters) produces for every element exactly the value of the corresponding expression over that element, regardless of operator latencies and graph shape.',
  ['programs', 'inputs'], 'all graphs, operand widths/signs and data',
  'each test runs a single small graph on ramp data',
  [V+'stream/stream.py', V+'stream/stypes.py', V+'stream/scheduler.py', V+'stream/allocator.py'],
  [('ASAP scheduling with delay balancing', V+'stream/scheduler.py'), ('operator implementations', V+'stream/stypes.py')])
p('C20', 'Stream sources and sinks walk exactly the described addresses',
  'For every source and sink access description (offset/size/stride, multi-dimensional patterns, multi-patterns, empty sources, FIFO sources, indirect) and any number of back-to-back runs with changed parameters, the stream reads exactly the described elements in order and writes exactly the described places, and join returns after the last write.',
  ['inputs', 'histories', 'configurations'], 'all access descriptions and run sequences',
  'tests use a single description each, usually one run',
  [V+'thread/stream.py'], [('source/sink FSMs and pattern generators', V+'thread/stream.py')])
p('C21', 'Dataflow pipelines are latency-insensitive',
  'The sequence of values leaving a dataflow graph equals the graph applied to the sequence of values entering it, independent of when producers assert valid and consumers assert ready, for every operator, accumulator and graph shape.',
  ['programs', 'inputs', 'schedules'], 'all graphs, data and handshake patterns',
  'tests drive fixed patterns into about 60 fixed graphs',
  [V+'dataflow/dataflow.py', V+'dataflow/dtypes.py', V+'dataflow/scheduler.py'],
  [('valid/ready generation per operator', V+'dataflow/dtypes.py'), ('scheduler', V+'dataflow/scheduler.py')])
p('C22', 'Manual pipelines keep data and handshakes aligned',
  'Every pipeline built stage by stage delivers for each accepted input tuple exactly one output tuple, in order, equal to the composed expressions, with previous-value and accumulator semantics, under any valid/ready pattern.',
  ['programs', 'inputs', 'schedules'], 'all stage graphs, data and handshake patterns',
  'tests cover 14 fixed pipelines',
  [V+'pipeline/pipeline.py'], [('stage/_accumulate/_make_prev', V+'pipeline/pipeline.py')])
p('C23', 'Fixed-point values and operations are exact to their format',
  'Converting numbers to fixed point and back, and every fixed-point operation and mixed-format combination, yields the exact real result rounded in the documented way to the result format, for all formats including negative numbers.',
  ['inputs', 'configurations'], 'all formats (width, point, sign), operators and values',
  'tests use two formats and positive values',
  [V+'types/fixed.py', V+'thread/fixed.py'], [('to_fixed/adjust/_Fixed* operators', V+'types/fixed.py')])
p('C24', 'Saturating arithmetic clamps and never wraps',
  'Every saturating operation returns the exact mathematical result when it fits the result format and the nearest bound otherwise, for all widths and operand values.',
  ['inputs', 'configurations'], 'all widths, bounds and values',
  'tests sample a few points',
  [V+'types/saturate.py'], [('saturating operators', V+'types/saturate.py')])
p('C25', 'Expression optimisation preserves value',
  'Optimising an expression gives an expression with the same value for all valuations of its variables.',
  ['programs', 'inputs'], 'all expression trees and valuations',
  'no test evaluates an optimised expression; it is only exercised through golden texts',
  [V+'optimizer/optimizer.py'], [('try_optimize', V+'optimizer/optimizer.py')])
p('C26', 'Resolving parameters to constants preserves behaviour',
  'Replacing parameters and localparams of a module by their values gives a module that behaves as the original instantiated with those values.',
  ['programs', 'inputs', 'configurations'], 'all parameterised modules and parameter values',
  'two small golden tests',
  [V+'resolver/resolver.py'], [('Resolver visitors and static operator evaluation', V+'resolver/resolver.py, core/vtypes.py')])
p('C27', 'Simulation helpers run the design faithfully',
  'Clock, reset and stimulus helpers produce the documented waveforms, and running a design through any supported simulator backend gives the output of running its emitted Verilog directly.',
  ['programs', 'configurations'], 'all clock periods, reset lengths/polarities, backends and designs',
  'tests use default periods',
  [V+'simulation/simulation.py'], [('setup_clock/setup_reset/next_clock/run_*', V+'simulation/simulation.py')])
p('C28', 'UART transmits every byte unchanged',
  'Bytes sent through the UART transmitter are received unchanged and in order by the UART receiver (and by any standard 8N1 receiver within tolerance), for all byte values, back-to-back timings and supported baud/clock ratios.',
  ['inputs', 'schedules', 'configurations'], 'all byte sequences, gaps and divisors',
  'one example sends a few bytes at one ratio',
  [V+'thread/uart.py'], [('mkUartTx/mkUartRx', V+'thread/uart.py')])
p('C29', 'Skid buffers pass every beat once under backpressure',
  'A skid buffer forwards every accepted beat exactly once, in order, without combinational dependence of upstream ready on downstream ready, for any valid/ready pattern and any tuple of signals.',
  ['schedules', 'inputs', 'configurations'], 'all handshake traces and payload shapes',
  'used indirectly by a few tests with ready tied high',
  [V+'types/skidbuffer.py'], [('make_skidbuffer', V+'types/skidbuffer.py')])
p('C30', 'Pipelined multipliers and dividers are exact',
  'Pipelined multiplier and divider cores return the exact product, quotient and remainder for all operand values, widths and signedness, with their stated latency, and hold their results when stalled.',
  ['inputs', 'schedules', 'configurations'], 'all operands, widths, signs, depths and stall patterns',
  'tests multiply ramps at 32 bits',
  [V+'types/mul.py', V+'stream/mul.py', V+'stream/div.py', V+'stream/madd.py', V+'dataflow/mul.py', V+'dataflow/div.py'],
  [('mkMultiplier', V+'types/mul.py'), ('divider cores', V+'stream/div.py')])
p('C31', 'Generate blocks elaborate as described',
  'Everything placed in a generate-for or generate-if/else block (signals, assignments, always blocks, synchronous blocks and state machines, instances and the modules they need, nested generate blocks) appears in the emitted Verilog in that block, once per iteration and only in the selected branch, and references across scopes reach the intended object.',
  ['programs', 'configurations', 'inputs'], 'all nestings of generate blocks, loop bounds, conditions and contents',
  'four golden-text tests with plain assignments and instances',
  [V+'core/module.py', V+'verilog/to_verilog.py'],
  [('GenerateFor/GenerateIf/GenerateIfElse', V+'core/module.py'), ('visit_GenerateFor/visit_GenerateIf/visit_Scope', V+'verilog/to_verilog.py')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
