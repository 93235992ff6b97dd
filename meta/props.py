ABS = 'path-sensitive abstract interpretation of MIR against reference transfer functions'
NOTE = ('Every feasible path of every listed function is abstractly interpreted (global value numbering over the full VM state, '
        'linear-arithmetic path facts) and must agree with the reference on stacks, memory stores, registers, dictionary and raised exceptions; '
        'trusts the MIR front end, the models of core/std calls and the reference tables; paths outside the models are listed as undecided and not claimed.')
T = ('The tests run each word on one to three small operand tuples; the property quantifies over all 64-bit operands, stack depths and surrounding state.')


def P(id, title, statement, quant, why=T, files=('src/core.rs',), mech=(), over=('inputs',), technique=ABS, note=NOTE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=list(files), mech=list(mech),
                      over=list(over), technique=technique, note=note, **kw))


PROPS = []
P('C02', 'Integer arithmetic and logic words compute two\'s-complement results',
  'For every operand, + - * 1+ 1- negate abs and or xor invert lshift rshift char+ cell+ cells aligned max-n and max-u replace their operands '
  'by the exact 64-bit two\'s-complement result, wrapping on overflow without ever stopping the host process; shifts use the count modulo 64 and rshift is logical. '
  '/ mod and /mod give the symmetric (truncating) quotient and remainder, raise exception -10 for a zero divisor, and survive the most negative number divided by -1. '
  'Nothing else in the machine changes.',
  'all 64-bit operands, all stack depths, checked and unchecked builds',
  mech=[('plus, minus, star, slash, p_mod, slash_mod, and, or, xor, lshift, rshift', 'src/core.rs')])
P('C03', 'Comparison words return well-formed flags',
  'For every operand, 0< 0= 0> 0<> not = <> < > and within push exactly -1 when the signed comparison holds and exactly 0 when it does not; '
  'within is true exactly when lo <= x < hi as signed numbers. true pushes -1 and false pushes 0. Nothing else in the machine changes.',
  'all 64-bit operands including both sign extremes', mech=[('zero_less, equals, less_than, within', 'src/core.rs')])
P('C04', 'Stack words permute exactly the documented cells',
  'dup drop swap over nip rot -rot 2dup 2drop 2swap 2over pick depth >r r> r@ 2>r 2r> and 2r@ leave the data and return stacks exactly as their documented '
  'before/after picture says, for every content and depth. Cells below the picture, the other stacks and the rest of the machine are unchanged.',
  'all stack contents and depths for which the operands exist', mech=[('swap, rot, pick, two_swap, p_to_r, two_to_r', 'src/core.rs')])
P('C05', 'Counted loops run the documented number of times',
  'For every limit, index and step, do enters with loop parameters from which i and j recover the exact index; ?do skips the body exactly when limit equals index; '
  'loop and +loop leave exactly when the index crosses the boundary between limit-1 and limit in either direction (wrapping arithmetic), otherwise jump back to the loop body. '
  'leave and unloop discard exactly the loop parameters, and leave continues after the loop.',
  'all limits, starting indexes and steps', over=('inputs', 'programs'), mech=[('_do, _qdo, _loop, _plus_loop, leave, unloop, p_i, p_j', 'src/core.rs')])
P('C06', 'Control structures compile to correct branches or raise -22',
  'if else then case of endof endcase begin while repeat until again do ?do loop +loop compile exactly the branch cells whose targets give the documented control flow, and recurse compiles a call of the word being defined. '
  'When the innermost open structure is not the one the word closes, exception -22 is raised and nothing is compiled or patched.',
  'all nestings of control structures, matched or not', over=('programs', 'inputs'), mech=[('imm_if ... imm_plus_loop', 'src/core.rs')])
P('C07', 'The inner interpreter executes threaded code faithfully',
  'Each step fetches the cell at the instruction pointer only when that whole cell lies in the data space, advances by one cell and performs that word; an execution token outside the dictionary raises -21. '
  'Literals, string literals, branch, 0branch, colon calls, exit, execute, variables, constants and does> bodies push and jump exactly as compiled.',
  'all threaded programs and instruction pointer values', over=('programs', 'inputs'), mech=[('run, forth, execute_word, nest, exit, lit, branch, zero_branch, xdoes', 'src/core.rs')])
P('C19', 'Float words and unit conversions compute IEEE results',
  'For every float operand including NaN, infinities and signed zeros, the float words move, compare, combine and convert f-stack values exactly as IEEE double arithmetic '
  'prescribes, unit words scale by the documented factor, f>s saturates, f~ follows its three documented cases, and memory words f@ f! access exactly eight bytes inside the data space or raise -9. Nothing else in the machine changes.',
  'all IEEE double operands and stack depths', files=('src/float.rs', 'src/units.rs'), mech=[('Float words', 'src/float.rs'), ('Units', 'src/units.rs')])

P('C01', 'Words access memory only inside the data space',
  'For every operand and every stack depth, each byte that a word loads from or stores to memory lies inside the data space; the memory words @ ! c@ c! f@ f! move, type, !token and the file words '
  'check the whole accessed range without wrap-around and otherwise raise an exception or return an error result, storing nothing. '
  'The inner interpreter fetches a cell only if all of it lies in the data space.',
  'all addresses and lengths, including those near both ends of the data space and of the address space, and all stack depths', over=('inputs', 'programs'),
  files=('src/core.rs', 'src/memory.rs', 'src/float.rs', 'src/output.rs', 'src/file_access.rs'),
  mech=[('fetch, store, c_fetch, c_store, p_move, run', 'src/core.rs'), ('system_str_from_bytes, put_cstr, compile_str', 'src/memory.rs'), ('p_type', 'src/output.rs')],
  technique='abstract interpretation of MIR; every raw load and store is proved in range from path facts',
  note=NOTE + ' Addresses the machine itself recorded (name fields, control-stack entries, label chains) are trusted to be in range.')
P('C08', 'Words leave the documented number of stack cells on every path',
  'On every path that does not raise an exception, success or failure alike, each word consumes and produces exactly the number of data-stack, float-stack, return-stack and control-flow cells its documented stack effect says.',
  'all operands, flags, input texts, file results and other conditions a word branches on, for all stack depths', over=('inputs', 'programs'),
  files=('src/core.rs', 'src/float.rs', 'src/units.rs', 'src/output.rs', 'src/tools.rs', 'src/facility.rs', 'src/file_access.rs', 'src/loader.rs', 'src/env.rs'),
  mech=[('every function registered with add_primitive, add_immediate, add_compile_only, add_immediate_and_compile_only', 'src/core.rs')])
P('C09', 'Borrowed buffers are always given back',
  'A word that takes the token buffer, the input buffer or the output buffer out of the machine has put it back when it returns, when it raises an exception and when it runs another word, on every path including early exits; '
  'so the next word never finds a buffer missing. Parsing words advance the input position exactly past the text they consumed, tolerate an input position outside the text, and leave the buffer contents unchanged.',
  'all input texts, input positions and input sources, successful and failing paths', over=('inputs', 'histories'),
  files=('src/core.rs', 'src/output.rs', 'src/tools.rs', 'src/loader.rs'),
  mech=[('parse_word, parse, skip, imm_paren, imm_backslash, evaluate_input', 'src/core.rs'), ('p_dot_quote, p_dot_paren, p_type', 'src/output.rs')],
  technique='typestate of the borrowed buffers over every MIR path of every word (path-sensitive abstract interpretation), plus reference transfer functions of the parsing words')
P('C10', 'A failing word raises the right exception once and changes nothing else',
  'When a word fails (zero divisor -10, invalid address -9, undefined word -13, compile-only word -14, missing name -16, unbalanced control structure -22 and the like) it records exactly that exception, empties the data, float and control-flow stacks, '
  'runs the installed error handler if there is one, and stores nothing to memory or dictionary before or after. '
  'handler!, error, 0error, abort, 0stacks and reset keep the pending error and the handler consistent, and an invalid handler or execution token cannot recurse or crash.',
  'all failing operands, tokens and states of every word that can raise', over=('inputs', 'histories'),
  files=('src/core.rs', 'src/exception.rs', 'src/memory.rs'), mech=[('abort_with, handler_store, check_stacks, reset', 'src/core.rs')])
P('C11', 'File words report every outcome with the documented results',
  'open-file create-file read-file write-file file-size file-position reposition-file resize-file close-file and delete-file leave, for every handle, address, length and operating-system outcome, exactly the documented results and an ior that is 0 if and only if the operation succeeded; '
  'an invalid handle or memory range is reported and nothing is read or written. A handle refers to the same open file until it is closed, a closed slot is reused and no other file is disturbed.',
  'all handles, ranges and outcomes of host file operations', over=('inputs', 'fault_sequences', 'histories'), files=('src/file_access.rs',),
  mech=[('open_file, create_file, read_file, write_file, resize_file, reposition_file', 'src/file_access.rs')])
P('C12', 'Tasks have separate stacks and state, and the scheduler visits awake ones',
  'Stacks, input source, compilation state and open files belong to the current task and no word run by one task changes those of another; the dictionary, data space, token and output buffer are shared. '
  'pause switches to the next awake task in cyclic order, activate starts a task at the following code with fresh stacks, suspend and resume change only the awake flag of the named task and ignore numbers that name no task; me pushes the current task number. '
  'All embeddings of the machine in the repository implement the same ownership.',
  'all task numbers, awake sets and task states', over=('schedules', 'inputs'), files=('src/core.rs', 'src/mock_vm.rs', 'examples/vm.rs', 'rtf/src/main.rs'),
  mech=[('pause, activate, suspend, resume, me', 'src/core.rs'), ('accessors of the VM', 'examples/vm.rs')])
P('C13', 'Words other than input/output words never leave the machine',
  'Whatever its operands, no word outside the file, source-loading and output-flushing groups makes a system call, reads the host clock (except mtime utime and the execution timer), blocks, sleeps or takes a lock. '
  'Arithmetic, stack, memory, control-flow, tasking, error, float and unit words, and the inner interpreter itself, use no heap allocation. Library words inherit this from the words they are made of.',
  'all operands and all paths of every word', over=('inputs', 'programs'),
  why='Tests observe results, not system calls or allocations; the guarantee covers every path of every word.',
  files=('src/core.rs', 'src/float.rs', 'src/units.rs', 'src/memory.rs', 'src/output.rs', 'src/tools.rs', 'src/facility.rs', 'core.fth'),
  mech=[('every registered word', 'src/core.rs'), ('run, execute_word, abort_with, check_stacks', 'src/core.rs')],
  technique='call-graph effect analysis over resolved monomorphic MIR, including drop glue and functions whose address is taken',
  note='Reachability over direct calls, drop glue and taken function addresses; dispatch through word pointers is judged under the callee\'s own name; panicking paths and external crates without MIR (bit set, libm) are trusted to be effect-free.')
P('C14', 'Names resolve to the newest definition and words obey their compile rules',
  'A name, ignoring letter case, resolves to the most recent definition of it or to none; the dictionary record of a new word carries its name, flags, semantics and data field address. '
  'The text interpreter executes or compiles each token as the current state, the immediate flag and the compile-only flag require: words before numbers, -13 for what is neither, -14 for interpreting a compile-only word. '
  "The defining and compiling words : ; create constant fconstant marker does> ' ['] postpone [ ] [char] char immediate compile-only recurse >body s\" .\" compile or define exactly what they document.",
  'all names, dictionary contents and states', over=('inputs', 'programs', 'histories'), files=('src/core.rs', 'src/output.rs'),
  mech=[('Wordlist::find, push, hash', 'src/core.rs'), ('compile_token, interpret_token, define, colon, semicolon, create, postpone', 'src/core.rs')])
P('C15', 'A marker removes exactly the words defined after it',
  'Executing a word made by marker restores the dictionary, its name lookup and the data-space pointer to what they were before the marker was defined; every earlier word stays reachable under its name and every later one becomes undefined. '
  'Nothing else changes.',
  'all dictionaries and definitions between marker and use', over=('histories',), mech=[('marker, unmark, compile_unmark, Wordlist::push', 'src/core.rs')])
P('C16', 'Data-space allocation is exact',
  'here , compile, align falign allot base and the string compiler advance the data-space pointer by exactly the documented amount, store exactly the given cells and bytes at the old pointer, and never move the pointer outside the data space. '
  'here reports the pointer and .memory the bounds of the space.',
  'all pointer positions, amounts and strings that fit', files=('src/core.rs', 'src/memory.rs'), mech=[('Memory trait', 'src/memory.rs'), ('allot, comma, align, here', 'src/core.rs')])
P('C17', 'Exception numbers and messages follow the ANS table',
  'Every exception has its ANS throw code (system range below -255) and .error prints the documented description of exactly that code, including codes that have no description.',
  'all exception codes', files=('src/exception.rs', 'src/core.rs', 'src/tools.rs'), mech=[('Exception::description', 'src/exception.rs')])
P('C18', 'Number texts convert to exactly the number they spell',
  'A token is an integer exactly when it is an optional base prefix (# $ % or a character literal), an optional minus sign and at least one digit of that base, and then yields its wrapped 64-bit value; '
  'a float token is an optional sign, digits with an optional point, and an exponent mark with optional signed digits. Anything else is rejected as undefined, without partial effects or a host crash.',
  'all token texts of the lengths followed by the analysis, every base from 2 to 36', files=('src/parser.rs', 'src/core.rs'),
  mech=[('parser combinators', 'src/parser.rs'), ('evaluate_integer, evaluate_float', 'src/core.rs')])
P('C20', 'Library words written in Forth have their documented effect',
  'For every operand, stack content and machine state, each word of the bundled Forth library does exactly what its documentation says: 2* 2/ bl space spaces . f. f, ? decimal hex h. h.r <= >= f> ?dup tuck cr 2@ 2! +! 2, max min chars c, fill '
  'count /string append variable on off literal 2literal fliteral 2constant 2variable fvariable +field defer defer@ defer! source pad bounds >char _type _dump dump word xtime nod halt stop get release ms bin _save-input _restore-input '
  'save-source restore-source evaluate-input load-source-file included include \\ r/o w/o r/w and operator. Constants have their documented values, buffers have room for every byte the words put in them, '
  'and every definition is well-formed, balanced on all branches, and immediate or compile-only exactly when documented. load_core_fth interprets the whole library text and reports a library that fails to load.',
  'all operands, memory contents, task states and results of the words they call', over=('inputs', 'programs'),
  why='No unit test exercises most of the bundled library; the property quantifies over all operands and over every result of the words a library word calls.',
  files=('core.fth', 'src/loader.rs'), mech=[('every definition in the library', 'core.fth'), ('load_core_fth', 'src/loader.rs')],
  technique='abstract interpretation of the Forth source over reference transfer functions of the primitives',
  note='The library source is parsed and every path of every definition is abstractly interpreted over the reference transfer functions of the primitives (themselves checked against the MIR by the other properties); scanning loops are unrolled to a bound and checked beyond it only for agreement in termination; trusts the reader and the reference tables.')

P('C21', 'No word can panic the host program',
  'Whatever the stacks, operands, input text, tokens and machine state hold, executing a word ends normally or raises a Forth exception: it never indexes out of bounds, unwraps a missing value, slices text off a character boundary or overflows a checked arithmetic operation in the host. '
  'The only deliberate exception is exhaustion of the data space.',
  'all operands, stack depths (including under- and overflowed stacks), texts and states', over=('inputs', 'programs', 'histories'),
  files=('src/core.rs', 'src/float.rs', 'src/units.rs', 'src/output.rs', 'src/tools.rs', 'src/facility.rs', 'src/file_access.rs', 'src/loader.rs', 'src/memory.rs', 'src/parser.rs'),
  mech=[('Stack: wrapping index arithmetic', 'src/core.rs'), ('bounds checks of words', 'src/core.rs')],
  technique='reachability of panic terminators and overflow checks over MIR paths (path-sensitive abstract interpretation)')
P('C22', 'Stack underflow and overflow are detected and stay contained',
  'After every token the text interpreter checks the stacks: ?stacks raises -4 -3 -6 -5 -45 -44 or the matching control-flow error exactly when a guard cell is damaged or the depth is out of range, and otherwise changes nothing. '
  'Pushing and popping beyond the limits stays inside the stack storage.',
  'all stack depths and guard cells', over=('inputs', 'programs'), mech=[('Stack, check_stacks, evaluate_input', 'src/core.rs')])
P('C23', 'Source files load line by line and nest correctly',
  'open-source pushes a source and returns its number or an error, load-line replaces the line buffer of that source by its next line and reports end of file, and close-source frees it; source-id source-id! source-idx source-idx! read and set the current source and ignore nothing silently. '
  'Loading a text interprets all of it from its first character.',
  'all source numbers, line lengths and host read outcomes', over=('inputs', 'histories', 'fault_sequences'), files=('src/loader.rs', 'src/core.rs'),
  mech=[('open_source, load_line, close_source, load_str', 'src/loader.rs')])
P('C24', 'Labels connect goto and call to their targets',
  'Within a definition, goto and call to a label compile a jump or call whose target is the position of the label, whether the label comes before or after; the end of the definition rejects unresolved or out-of-range labels and 0labels forgets all of them.',
  'all label numbers and orders of use', over=('programs',), mech=[('imm_label, imm_goto, imm_call, zero_labels, semicolon', 'src/core.rs')])
P('C25', 'Printed text is exactly the documented rendering',
  'emit type ." .( .token .r f.r .s words .word .memory .error .backtrace .input .xtime (xtime) 0xtime .source-path .source-line append exactly the documented text to the output buffer: numbers in the current base right-justified in the given width, floats with the given digits, strings byte for byte. '
  'flush-output empties the buffer after writing it out, and nothing else in the machine changes.',
  'all numbers, bases, widths, texts and buffer contents', files=('src/output.rs', 'src/tools.rs', 'src/core.rs', 'src/loader.rs'),
  mech=[('Output trait', 'src/output.rs'), ('Tools trait', 'src/tools.rs')])

P('C26', 'No word loops for ever',
  'Apart from running the Forth code it was asked to run, every word comes to an end for every operand, stack content, input text, dictionary and label table: each of its loops consumes a finite sequence, '
  'counts towards a fixed bound or follows a chain that ends, and no loop goes round again in a state it was in before. pause ends as soon as some task is awake. '
  'So no input makes the interpreter, the compiler, a search or a number printer hang the host program.',
  'all operands, texts, dictionaries and loop iterations', over=('inputs', 'histories'), files=('src/core.rs', 'src/output.rs', 'src/parser.rs', 'src/tools.rs', 'src/memory.rs'),
  why='A test that hangs samples one input; the property quantifies over every loop, path and state.',
  mech=[('find, parse_word, _parse, _skip, imm_label, imm_endcase, pause', 'src/core.rs'), ('.r f.r padding', 'src/output.rs'), ('words, .s, .backtrace', 'src/tools.rs')],
  technique='loop analysis over MIR: finite-iterator measure per loop, recurrence of abstract states, and widened loops without exit',
  note='Structural rule: each natural loop is driven by a finite standard iterator it does not replace and leaves when it is exhausted. Path rule on every word: no feasible path returns to a loop head in an '
       'unchanged state, and no loop, widened to an invariant, is without a feasible exit. Loops along data-dependent chains (dictionary links, label chains, control-flow stack) are followed for the stated number of rounds and listed as undecided beyond it.')
P('C27', 'Machines in one process are independent',
  'Each machine owns its state: no function keeps state outside the machine it is given (no mutable global, no thread-local, no static that can change behind a shared reference), so several machines in one process, also on different threads, '
  'cannot influence each other. Each data space is one freshly allocated, zero-filled block of exactly the requested number of pages, whose start, limit and here describe that block, and it is given back exactly once, with the layout it was taken with, when the machine is dropped.',
  'all functions of the crate; all sizes', over=('schedules', 'histories'), files=('src/memory.rs', 'src/core.rs'),
  why='Tests create one machine at a time and never compare a machine with what another did before; the property is about every function.',
  mech=[('DataSpace::new, with_capacity, drop', 'src/memory.rs'), ('every function', 'src')],
  technique='global-state and ownership lint over resolved MIR; abstract interpretation of the constructor and destructor of the data space',
  note='Every constant of every function of the crate is resolved to the static it points to; interior mutability is searched through the type. Standard-library internals are trusted.')
P('C28', 'Every word finishes within a bounded number of machine cycles',
  'For real-time use, each word other than the loops a program writes itself takes a bounded time that does not depend on the history of the machine.',
  'all words, processors and histories', over=('inputs', 'histories'), why='Tests measure one machine.', mech=[('every word', 'src')],
  na='A bound in cycles depends on the processor, the code generator and the host calls; no sound static timing model of the target is available here. What can be decided statically is claimed as C13 (no blocking, no heap, no host calls) and C26 (loops end).')
P('C29', 'Printed and parsed floats are correctly rounded',
  'f. f.r and .s print the decimal digits nearest to the value, and a float token converts to the nearest double.',
  'all doubles and digit strings', why='Tests sample a few values.', files=('src/output.rs', 'src/parser.rs'), mech=[('f_dot_r', 'src/output.rs'), ('exponent, fraction', 'src/parser.rs')],
  na='Printing is delegated to the formatter of the standard library, and parsing computes significand * 10^exponent with powi and a running sum whose rounding error is a numerical quantity; bounding it needs a floating-point error analysis beyond these domains. The structure (which digits, which precision, which formula) is decided in C18 and C25.')
P('C30', 'Every awake task is eventually run',
  'Under cooperative scheduling each awake task gets its turn within one round of pause calls.',
  'all programs and schedules', over=('schedules', 'programs'), why='Tests run one schedule.', mech=[('pause', 'src/core.rs')],
  na='Whether the other tasks ever call pause is a liveness property of the Forth programs they run, not of this code base. That pause itself picks the cyclically next awake task is decided in C12.')
P('C31', 'Programs written for ANS Forth run unchanged',
  'A standard program using the word sets rtForth provides has its standard meaning.',
  'all standard programs', over=('programs',), why='Conformance suites sample programs.', mech=[('every word', 'src')],
  na='The repository departs from the standard deliberately (single-cell file positions, no nested input sources in the kernel, symmetric flags of i and j, missing words), and the standard is an informal text outside it; there is no specification to decide against. Each implemented word is decided against its own documented effect in C01 to C25.')

PROPS.sort(key=lambda p: p['id'])
