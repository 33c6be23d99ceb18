"""What each check builds and runs (see check.py) and how its counters are reported."""
import subprocess
def expl(t): return dict(evaluations=t.get('evaluations', 0), distinct_nontrivial=t.get('nontrivial', 0))
def mc(t): return dict(evaluations=t.get('evaluations', 0), distinct_nontrivial=t.get('nontrivial', 0), states=t.get('states', 0) + t.get('model_states', 0), transitions=t.get('transitions', 0), traces_validated_against_impl=t.get('traces', 0))
SOLVE = 'Every index of every listed family is run (a family is a full Cartesian product or a fixed catalogue); indices are distinct problems or distinct (problem, format, option) combinations. '
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
ASANP = dict(name='asan', cflags='-O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer', cxxflags='-O1 -g -std=c++17 -fsanitize=address', ldflags='-fsanitize=address', env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'})
CHECKS = {
 'C01': dict(level='exploration', coverage=expl, parts=[dict(name='solve', src='c_solve.cpp', args='1')],
   rule=SOLVE + 'Non-trivial: the solve returned exit code 0 after at least one iteration, so the certificate was checked on a non-initial iterate.',
   assumptions=['IEEE double arithmetic; residuals re-evaluated in long double with an explicit rounding allowance']),
 'C02': dict(level='exploration', coverage=expl, parts=[dict(name='solve', src='c_solve.cpp', args='2')],
   rule=SOLVE + 'Problems are classified exactly (rational Fourier-Motzkin, rank and active-set enumeration); non-trivial: well-posed and at least one iteration.',
   assumptions=['the rational oracle in src/exact.hpp', 'for n=3 only problems with a regular solution (strict complementarity, LICQ, second order) are required to solve']),
 'C03': dict(level='exploration', coverage=expl, parts=[dict(name='solve', src='c_solve.cpp', args='3')],
   rule=SOLVE + 'Non-trivial: every evaluation solves a problem proved infeasible or unbounded by the exact oracle (or infeasible by construction).',
   assumptions=['the rational oracle in src/exact.hpp']),
 'C04': dict(level='exploration', coverage=expl, parts=[dict(name='equiv', src='c_equiv.cpp', args='4')],
   rule=SOLVE + 'Each problem is solved in every representation (format x row order in every column x subset of stored zeros x spelling of absent equalities) and compared with plain compressed columns; non-trivial: a comparison whose reference solve made at least one iteration.',
   assumptions=['answers are compared for well-posed problems (exit code, objective, unique minimiser) and infeasible ones (exit code)']),
 'C05': dict(level='exploration', coverage=expl, parts=[dict(name='equiv', src='c_equiv.cpp', args='5')],
   rule=SOLVE + 'Each problem is solved once per permutation of its KKT system and compared with the built-in ordering; non-trivial: the reference made at least one iteration.',
   assumptions=['answers are compared for well-posed problems with a regular solution']),
 'C06': dict(level='exploration', coverage=expl, parts=[dict(name='readonly', src='c_ro.cpp')],
   rule='Every index of every family is run; a case is one API call (setup, solve or cleanup) within a history, executed with all caller arrays in write-protected pages and compared byte-wise afterwards; non-trivial: solve calls that performed at least one iteration.',
   assumptions=['MMU write protection at page granularity; caller arrays are packed into protected pages']),
 'C07': dict(level='model_checking', coverage=mc, parts=[
     dict(name='asan', src='c_mem.cpp', args='7', cflags='-O1 -g -fsanitize=address -fno-omit-frame-pointer', cxxflags='-O1 -g -std=c++17 -fsanitize=address', ldflags='-fsanitize=address ' + WRAP, env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'}),
     dict(name='msan', src='c_mem.cpp', args='7', cc='clang', cxx='clang++', cflags='-O1 -g -fsanitize=memory -fno-sanitize-memory-param-retval -fno-omit-frame-pointer', cxxflags='-O1 -g -std=c++17 -DMSAN=1', ldflags='-fsanitize=memory ' + WRAP, env={'MSAN_OPTIONS': 'poison_in_malloc=0,poison_in_free=0'})],
   rule='Operation histories are executed on the real library, instrumented; states are the (problem, history prefix) pairs reached, transitions the API operations executed, every trace is an execution of the implementation. Non-trivial: complete life cycles.',
   assumptions=['AddressSanitizer and MemorySanitizer instrumentation of the library sources', 'caller arrays are exact-size heap blocks']),
 'C16': dict(level='fault_enumeration', coverage=expl, parts=[
     dict(name='asan', src='c_mem.cpp', args='16', cflags='-O1 -g -fsanitize=address -fno-omit-frame-pointer', cxxflags='-O1 -g -std=c++17 -fsanitize=address', ldflags='-fsanitize=address ' + WRAP, env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'})],
   rule='For every problem (or matrix pattern) all subsets of the allocation requests of the ordering phase are made to fail, through the allocator pointers the ordering package documents; non-trivial: evaluations with at least one request planned to fail.',
   assumptions=['answers are compared for well-posed problems with a regular solution; for the others only survival, memory safety and release are checked']),
 'C08': dict(level='model_checking', coverage=mc, parts=[dict(name='fill', src='c_fill.cpp', ldflags=WRAP),
     dict(name='threads', src='c_thr.cpp', isolate=True, cflags='-O1 -g -DNDEBUG -fsanitize=thread', cxxflags='-O2 -g -std=c++17', ldflags=WRAP + ',--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=clock_gettime')],
   rule='Sequential part: every heap and stack fill pattern of the menu for every problem, every merge of the operation sequences of two and three problems, every problem after every same-shaped twin in the same caller buffers, and up to 70000 (thorough 250000) successive life cycles in one process, each compared with the first; the reference of each comparison is computed in a fresh process. Concurrent part (static data of the library is set back to its initial contents before every schedule; every problem of the small universes is also searched for shared state against itself): for every pair of problems all schedules of two real threads over the detected conflicting accesses (preemption bound 2, to a fixpoint; none exist on a correct tree, so that every interleaving is equivalent to a serial one) and, independently, all schedules with one preemption (two for the smallest pairs) at any function entry. States: problem/operation-order prefixes reached and serial orders; transitions: operations or schedule segments executed. Non-trivial: comparisons after at least one iteration, or schedules with at least one preemption.',
   assumptions=['accesses are seen through compiler instrumentation of the library and wrapped memcpy/memset; state inside libc is not', 'sequential consistency']),
 'C09': dict(level='model_checking', coverage=mc, parts=[dict(name='histories', src='c_hist.cpp')],
   rule='Every history of the operation alphabet up to the depth bound is executed on the real library next to the reference state machine (states: trajectory positions per entering-parameter history; transitions: operations checked; traces: complete histories replayed on the implementation). Non-trivial: solves that performed at least one iteration and were compared.',
   assumptions=['iterates beyond 1e8 in magnitude or with complementarity below 1e-13 are only compared for identity', 'tolerance decisions within rounding of the threshold, or between 1/sqrt(3) of the tolerance and the tolerance, may fall either way']),
 'C17': dict(level='model_checking', coverage=mc, parts=[dict(name='log', src='c_log.cpp')],
   rule='Every history of the operation alphabet up to the depth bound (solve limits x tolerances x verbosity) is executed on the real library and its complete output is parsed and compared line by line with the run: states are the iterates of the reference trajectory, transitions solves, traces complete histories. Non-trivial: verbose solves that performed at least one iteration.',
   assumptions=['iterates beyond 1e8 or with complementarity below 1e-13 are compared with the silent run instead of the long double evaluation', 'numbers are compared to the printed precision; the layout of the log beyond its labels is not prescribed']),
 'C10': dict(level='exploration', coverage=expl, parts=[dict(ASANP, src='c_kern.cpp')],
   rule=SOLVE + 'A case is one kernel call on one matrix pattern (or triple of patterns) with distinguishable values in exact-size buffers; non-trivial: the pattern has at least one entry.',
   assumptions=['values are chosen so that every product and sum is exact or compared with an explicit rounding allowance', 'AddressSanitizer for index ranges']),
 'C11': dict(level='exploration', coverage=expl, parts=[dict(ASANP, src='c_amd.cpp')],
   rule=SOLVE + 'A case is one ordering (or validity) call on one stored pattern with one control setting; non-trivial: valid input with at least one off-diagonal entry (ordering) or a valid matrix (validity).',
   assumptions=['statistics are compared with an independent symbolic elimination of the same pattern', 'the in-place routine is given the documented minimum of n spare words']),
 'C12': dict(level='exploration', coverage=expl, parts=[dict(ASANP, src='c_ldl.cpp')],
   rule=SOLVE + 'A case is one (pattern, permutation, value assignment) factorised and solved, or one candidate vector given to a validity checker; non-trivial: at least one off-diagonal entry (factorisation) or a valid input (checkers).',
   assumptions=['factors are compared with a dense reference factorisation in long double with an explicit rounding allowance']),
 'C15': dict(level='exploration', coverage=expl, parts=[dict(name='clock', src='c_time.cpp', cflags='-O2 -g -DNDEBUG -finstrument-functions', ldflags='-Wl,--wrap=clock_gettime,--wrap=gettimeofday,--wrap=time,--wrap=clock'),
     dict(name='windows', optional=True, src='c_plat.cpp', cflags='-O2 -g -DNDEBUG -D_WIN64 -D__int64=long -D_I64_MAX=0x7fffffffffffffffL -I{verif}/src/plat/win', cxxflags='-O2 -std=c++17 -D_WIN64 -D__int64=long -D_I64_MAX=0x7fffffffffffffffL -I{verif}/src/plat/win'),
     dict(name='macos', optional=True, src='c_plat.cpp', cflags='-O2 -g -DNDEBUG -D__APPLE__ -I{verif}/src/plat/mac', cxxflags='-O2 -std=c++17 -DPLAT_MAC -I{verif}/src/plat/mac')],
   rule='Every clock script of the listed families is run on the real library with a virtual clock: time passes inside exactly one library function (all functions x entry/exit), by a constant at every reading, at one or two readings (all placements), or by every word over an alphabet; the timer branches of the other platforms are run on models of their counters; non-trivial: time passes, so that non-zero times must be reported.',
   assumptions=['the clock is the one returned by clock_gettime for a monotonic clock id; wall clocks are set back and CPU clocks run slower in the model', 'functions are observed through compiler-inserted entry and exit hooks']),
 'C14': dict(level='model_checking', coverage=mc, parts=[
     dict(name='mex', lib=False, post=['bash {verif}/src/mex/build.sh {repo} {d} {verif} mex'], env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'}, cmd='{d}/harness'),
     dict(name='codegen', lib=False, post=['bash {verif}/src/mex/build.sh {repo} {d} {verif} cg'], env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'}, cmd='{d}/harness')],
   rule='Gateway: every element of every listed family is one call (or call sequence) of the real gateway against the API model. Blocks: every listed sequence of simulation steps of one or two real blocks; transitions are gateway calls and simulation steps, traces complete step sequences; all are executions of the implementation under AddressSanitizer. Non-trivial: calls and steps whose solve made at least one iteration and was compared.',
   assumptions=['the models of the MATLAB (separate complex, 64-bit indices) and Simulink interfaces in src/mex', 'error calls of MATLAB release the memory of the call', 'NV outputs are configured not to exceed the number of variables']),
 'C13': dict(level='model_checking', coverage=mc, parts=[
     dict(name='binding', lib=False, post=['bash {verif}/src/py/build.sh {repo} {d} {verif}/src/py "-O2 -g -DNDEBUG" gcc'], cmd='/usr/bin/python3 -B {verif}/src/py/c_py.py --dir {d}', env={'PYTHONMALLOC': 'pymalloc_debug', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0'}),
     dict(name='asan', lib=False, post=['bash {verif}/src/py/build.sh {repo} {d} {verif}/src/py "-O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer" gcc'], cmd='/usr/bin/env LD_PRELOAD=%s /usr/bin/python3 -B {verif}/src/py/c_py.py --asan 1 --dir {d}' % subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip(), env={'PYTHONMALLOC': 'malloc', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0', 'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=1'})],
   rule='Every element of every listed family is one call (or call sequence, or one call with an interference at one point of the lock-free window) of the real extension; the window has one scheduling point at each library function entry/exit, clock reading and lock transition, and every point is combined with every action of another thread; non-trivial: all but plainly accepted shape combinations.',
   assumptions=['interference is injected at function granularity inside the window', 'CPython and numpy of this sandbox; block counts from the debug allocator']),
}
MANIFEST_TEXT = {
 'C14': ('exhaustive enumeration of argument classes, option values, permutations and step sequences on the real gateways against executable models of the MATLAB and Simulink interfaces, differential against the library, under AddressSanitizer', 'Complete over the listed families (all argument-class pairs, thorough: triples; all permutations up to KKT size 5, thorough 7; all step sequences up to depth 3, thorough 4). Trusts the API models; no MATLAB is available.'),
 'C13': ('exhaustive enumeration of argument kinds/layouts/options on the real extension, and model checking of the lock-free window: every scheduling point x every action of another thread', 'Complete over the listed families; the window is explored with one interference per call at function granularity; allocation failures inside numpy are not explored.'),
 'C15': ('exhaustive enumeration of scripted clock behaviours (placements of time advances) on the real solver with a virtual clock', 'All functions x entry/exit x advance sizes x start fractions; all one- and two-jump placements; all words over {0, 0.6 s, 1.25 s} for a one-iteration solve. The Windows and macOS branches of the timer are built against models of their counters (all counter starts x advances x tick rates of a menu, all placements of one jump).'),
 'C08': ('stateless model checking of two real threads under a controlled scheduler with conflict detection (partial-order reduction, preemption bound 2), plus exhaustive operation merges of two/three live problems and heap-fill enumeration', 'All merges of 4+4 and 3+3+3 operations for the catalogue; all schedules over conflicting accesses up to two preemptions and over all function entries up to one (two, capped, for the smallest pairs). Bit-identical comparison with the run alone in a fresh process.'),
 'C09': ('explicit-state exploration of all operation histories (solve limits, tolerances, verbosity, entering parameter) to a depth bound on the real solver against a reference state machine, every model trace replayed on the implementation', 'All histories up to depth 5 (thorough 6) over an 11-operation alphabet for a catalogue, every iteration limit for thousands of problems, all option combinations of a menu. Trusts the long double residual evaluation.'),
 'C17': ('exhaustive enumeration of solve histories with verbosity changes on the real solver, the captured output checked line by line against a reference trajectory', 'All histories up to depth 3 (thorough 4) over an 8-operation alphabet for a catalogue, single solves and pairs for the small universes. Only the text written to the standard streams is judged.'),
 'C10': ('bounded-exhaustive enumeration of matrix patterns on the real kernels against dense definitions, under AddressSanitizer', 'All patterns up to 3x4/4x3 and all P, A, G pattern triples of small shapes for the assembly; larger matrices from structured families.'),
 'C11': ('bounded-exhaustive enumeration of graphs x control settings x storage variants on the real ordering routine, oracle: independent symbolic elimination, under AddressSanitizer', 'All digraphs up to 4 nodes, all graphs up to 6 (thorough 7) nodes, plus structured families to 3000 nodes; inputs to the validity checkers are complete for their small alphabets.'),
 'C12': ('bounded-exhaustive enumeration of symmetric patterns x permutations x pivot signs on the real factorisation, dense reference, under AddressSanitizer', 'All patterns up to 5 nodes with all permutations; larger ones from structured families.'),
 'C04': ('bounded-exhaustive enumeration of representations of each enumerated problem on the real solver, differential comparison', 'All formats, row orders, stored-zero subsets (up to 64/512 per problem) and NULL/p=0 spellings for the enumerated problems; comparison is to tolerance, for well-posed or infeasible problems.'),
 'C05': ('exhaustive enumeration of all elimination orders of each enumerated problem on the real solver, differential comparison', 'All permutations up to KKT size 8, structured ones beyond; comparison is to tolerance, for regular problems.'),
 'C06': ('exhaustive enumeration of API histories with caller memory write-protected by the MMU', 'All histories up to depth 3 (thorough 4) over a catalogue, all formats, plus short histories for all small problems.'),
 'C07': ('explicit exploration of all operation sequences over two live problems on the sanitizer-instrumented library with allocation accounting', 'All sequences up to depth 6 (thorough 7) over the shape catalogue and life cycles of all small problems; AddressSanitizer, MemorySanitizer and an allocation ledger decide.'),
 'C16': ('exhaustive fault injection: every subset of failing allocation requests of the ordering phase', 'All subsets (the phase makes at most 5 requests) for every enumerated problem, format and spelling of absent equalities, under AddressSanitizer with an allocation ledger.'),
 'C01': ('bounded-exhaustive enumeration of input problems x formats x option settings on the real solver, each exit-0 result checked against an independent KKT certificate', 'Complete for the enumerated universes and option menu; nothing is claimed for values outside the alphabets. Trusts the long double re-evaluation of the residuals.'),
 'C02': ('bounded-exhaustive enumeration of well-posed problems on the real solver against an exact rational optimum', 'Complete for the enumerated universes with default options and tolerance 1e-8; n=3 only for regular solutions. Trusts the rational oracle.'),
 'C03': ('bounded-exhaustive enumeration of infeasible/unbounded problems (exact rational classification) on the real solver', 'Complete for the enumerated universes x option menu. Answers with iterates beyond 1e6 are outside the property.'),
}
