SRC = 'src/'; INC = 'include/qpOASES/'
TODO = 'check under construction'
LIB = 'all library sources as the build compiles them (LLVM IR of src/*.cpp), plus the C wrapper and the Octave option tables where named'

prop('C08', 'Print level none makes solver calls silent',
     'With the print level set to none, no call on a solver object (setup, solving, hotstarting, getters, printing of iterations) writes anything to standard output or standard error, whether the call succeeds, fails or meets an error in any component it uses.',
     ['inputs', 'configurations'], 'every path of every solver member function with the solver option for the print level at none',
     'The test programs never look at what is printed, and most messages sit on error paths no test reaches.',
     [SRC + 'MessageHandling.cpp', SRC + 'Utils.cpp', SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'SparseSolver.cpp', SRC + 'Options.cpp', SRC + 'SolutionAnalysis.cpp'],
     [('message handler visibility flags', 'MessageHandling::throwMessage, QProblemB::setPrintLevel'), ('print level guards around progress output', 'QProblem::printIteration and siblings')],
     [('options.printLevel', 'how much the solver may print')],
     technique='interprocedural control-dependence: every output primitive reachable from a solver call must be guarded by the print level or by the message handler visibility flags derived from it',
     note='Decides where output can be produced and under which guard, for all paths; trusts that libc output functions are the only sinks. The message handler is process-wide: construction and destruction of other solvers is outside the statement.')
prop('C09', 'Separate solver objects share no mutable state',
     'Two solver objects (and the problem, option, matrix and working-set objects they use) can be built, used and destroyed independently: no call on one of them changes state that a call on the other reads, except the process-wide message handler.',
     ['schedules', 'histories'], 'every pair of interleaved call histories on different objects, in one thread or in several',
     'Tests solve one problem at a time, so hidden shared state (a static workspace or cache) keeps giving the right answers.',
     [SRC + '*.cpp', INC + '*.hpp'], [('no static or global mutable variables', 'whole library'), ('message handler singleton', 'MessageHandling.cpp getGlobalMessageHandler')],
     technique='whole-program effect analysis: inventory of writable global and function-local static storage with the functions that write or leak it',
     note='Covers every global of the library, the BLAS/LAPACK replacements included; only the message handler singleton may be written after start-up. The legacy C wrapper (documented as one global problem) is outside.')
prop('C10', 'Every return code has its own number, text and simple status',
     'Every return code the library can hand out has exactly one entry in the message catalogue, found under its own number, with a text, so that looking up a code never fails or yields the text of another code. The simple status (solved, iteration limit, internal error, infeasible, unbounded) computed from a code agrees with that code\'s documented meaning in every interface.',
     ['inputs', 'configurations'], 'every return code of the enumeration and every function that maps codes',
     'Tests compare a handful of codes; a shifted or missing row only shows when that very failure occurs.',
     [INC + 'MessageHandling.hpp', SRC + 'MessageHandling.cpp', SRC + 'Utils.cpp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('message list', 'MessageHandling.cpp returnValueList'), ('simple status mapping', 'Utils.cpp getSimpleStatus')],
     technique='exhaustiveness and agreement of tables: enumeration (debug info) against the constant message table and the value map computed from the mapping functions on all codes',
     note='Complete over all enumerators. Texts are checked to exist and to be distinct per code, not for their wording.')
prop('C11', 'Options presets, consistency repair and transfers cover every option',
     'Each options preset (default, reliable, MPC, fast) gives every option field a fixed value that does not depend on what the fields held before, the consistency check brings every field it covers into its documented range, and copying options or passing them through the C or Octave interface carries every option, each to the option of the same name.',
     ['inputs', 'configurations'], 'every options field, preset and interface, for any earlier contents',
     'Tests use the presets on fresh objects; a field a preset forgets keeps whatever was there, which only shows on reuse.',
     [SRC + 'Options.cpp', INC + 'Options.hpp', 'interfaces/c/qpOASES_wrapper.cpp', 'interfaces/octave/qpOASES_octave_utils.cpp'],
     [('presets', 'Options::setToDefault/Reliable/MPC/Fast'), ('consistency', 'Options::ensureConsistency'), ('transfer', 'qpOASES_Options_copy, setupOptions')],
     technique='definite-assignment dataflow with constant values per preset, member-by-member agreement of transfers by name, and interval reasoning on the guarded repairs',
     note='Complete over all option fields and all paths of the preset, copy, repair and transfer functions. It does not judge whether the chosen values are good.')
prop('C01', 'Copies are complete and independent',
     'A copy of a solver, problem, working set, index list, options, flipper or matrix object (by copy construction, assignment or duplication) takes over every data member of the original, own, inherited and nested, each from the member of the same meaning and over its full length. Storage the original owns is never shared with the copy, so that changing or destroying one never affects the other.',
     ['inputs', 'histories'], 'every copy operation on objects in any state (empty, partly set up, solved), for every member',
     'Tests copy a few solved problems; a member that is lost, crossed or shared matters only for particular later calls on the copy.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'Matrices.cpp', SRC + 'Bounds.cpp', SRC + 'Constraints.cpp', SRC + 'Flipper.cpp', SRC + 'Indexlist.cpp', SRC + 'Options.cpp', SRC + 'SubjectTo.cpp'],
     [('copy functions', 'every class: copy(), operator=, copy constructor'), ('deep copies of matrices', 'Matrices.cpp duplicate, duplicateSym')],
     technique='must-dataflow of transferred members through the copy call tree, path-sensitive value check per member, symbolic comparison of block sizes and copied lengths',
     note='Complete over members and paths; lengths are compared as polynomials where both are expressible. The linear solver behind the Schur complement and per-solve progress output are excluded.')
prop('C02', 'Working memory is released exactly once on every path',
     'Every block of memory a routine allocates for its own use is released before the routine returns, on every path including all error exits, or is handed to an object, an out-parameter or the caller that then owns it. No block is released twice, released through a pointer the routine does not own (memory of the caller, memory held by an object), released in the wrong form (delete instead of delete[]), or used after its release.',
     ['inputs', 'histories'], 'every allocation, every path to every return of every routine',
     'The tests watch results, not memory, and leaks or double releases sit on failure paths (a refused factorisation, a bad argument, a full workspace) that tests do not take.',
     [SRC + '*.cpp', INC + 'extras/OQPinterface.hpp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('workspace arrays', 'new[]/delete[] pairs throughout QProblem.cpp, SQProblemSchur.cpp, Matrices.cpp, SolutionAnalysis.cpp, OQPinterface.cpp'), ('transfer of ownership to solver members', 'set*Data, duplicate, OQPinterface readOqpData')],
     technique='path-sensitive typestate analysis of every allocated block (owned, handed over, released) with interprocedural summaries for releasing, capturing and returning functions',
     note='All paths of all functions of the library and the C wrapper; conditions correlate through null tests and return codes only. Members owned by objects are left to C03. Failing allocations (exceptions) are outside.')
prop('C04', 'A failing step is never reported as success',
     'When a step of a solver call fails, that is, a routine it calls returns a failure code, it raises an error through the message handler, or a numerical kernel (Cholesky, triangular solve, sparse factorisation) reports a failure, then the routine that took the step does not return success, unless it repeats that step successfully or takes a documented fallback (regularised Cholesky, working set built afresh, linear dependence resolved by an exchange). Storing already validated data and printing progress do not count as steps.',
     ['inputs', 'fault_sequences'], 'every call of a routine that can fail, every failure code it can return, every later path to an exit',
     'The tests almost never make an inner step fail; a dropped failure lets the solver go on with a half-updated working set or factorisation and hand out a wrong result as success.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'Bounds.cpp', SRC + 'Constraints.cpp', SRC + 'SubjectTo.cpp', SRC + 'SolutionAnalysis.cpp', SRC + 'SparseSolver.cpp', SRC + 'OQPinterface.cpp', SRC + 'Utils.cpp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('error chains', 'if ( step(...) != SUCCESSFUL_RETURN ) return THROWERROR( ... ) throughout'), ('kernel results', 'computeCholesky, computeProjectedCholesky, backsolveSchurQR, Ma57SparseSolver::factorize')],
     technique='path-sensitive dataflow: from every failing outcome of every call (value sets from return-code summaries) to the exits, with the failure pending until discharged',
     note='All functions returning a code, in the default, MA57 (quick) and further configurations (thorough). Conditions on the tracked results are exact; which other failures may be accepted is a short list of named fallbacks in the checker.')
prop('C12', 'File handles are closed and file errors are reported',
     'Every file a library routine opens is closed exactly once on every path to an exit, is used only after opening it is known to have succeeded, and is not used after it was closed. A routine that returns a code never returns success after a read converted fewer items than it asked for, or after a write or the closing of a file it wrote failed.',
     ['inputs', 'fault_sequences'], 'every routine that opens, reads or writes files, every failure of a file operation, every exit',
     'The tests read well-formed files and write to a working disk; truncated files, full disks and early error exits are not exercised.',
     [SRC + 'Utils.cpp', SRC + 'OQPinterface.cpp', SRC + 'QProblem.cpp', SRC + 'QProblemB.cpp', SRC + 'Matrices.cpp'],
     [('data files', 'Utils.cpp readFromFile, writeIntoFile, writeIntoMatFile'), ('MAT export', 'QProblem.cpp writeQpDataIntoMatFile, writeQpWorkspaceIntoMatFile')],
     technique='path-sensitive typestate of file handles (unopened, open, error seen, closed) with every stdio call split into success and failure',
     note='All stdio calls of the library and C wrapper. The content and format of the files is not judged. Files handed to the message handler belong to it and are outside.')
prop('C14', 'Nothing is read before it is set',
     'Every constructor gives every data member that library code reads a value, and no local scalar variable, also one that a routine is to fill through an output argument, is used on a path where it was not set.',
     ['inputs', 'histories'], 'every constructor and every member, every local variable and every path to each of its uses',
     'Fresh memory is mostly zero in short test programs, so a forgotten member or an output left unset on an error path reads as a harmless default there.',
     [SRC + '*.cpp', INC + '*.hpp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('constructors', 'all constructors, through base constructors, init helpers and copy()'), ('outputs', 'performStep, dropInfeasibles, ensureNonzeroCurvature, areBoundsConsistent and other out-argument routines')],
     technique='definite-assignment dataflow over constructors with call summaries; path-sensitive propagation of undefined values of scalar locals with joint callee outcomes per return code',
     note='Elements of arrays are not tracked one by one. Members no library function reads are exempt; TabularOutput fields are per-iteration records reset by the solve routines and the value arrays of a sparse copy of size zero are exempt (both named in the checker).')
prop('C03', 'Objects release the storage they own, and only that',
     'Every solver, matrix, working set, index list and flipper object releases in its destructor each array and matrix its members own, exactly once, and never releases matrices or arrays that belong to the caller. Giving a member a new block releases the old one, no member is left pointing to a released block when a public function ends, and the flags that say whether the Hessian, the constraint matrix and the arrays of a matrix are owned agree with where the data came from, on every path including error exits.',
     ['inputs', 'histories'], 'every class with owned members, every sequence of init, hotstart, copy, assignment and destruction through its public functions, every error exit',
     'A double release or a leak shows only in particular histories (a failed hotstart, re-initialisation, assignment over a used object) and mostly without any change in results.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'Matrices.cpp', SRC + 'Indexlist.cpp', SRC + 'SubjectTo.cpp', SRC + 'Flipper.cpp', SRC + 'SparseSolver.cpp'],
     [('release', 'clear(), free(), destructors'), ('ownership flags', 'freeHessian, freeConstraintMatrix, Matrix::freeMemory'), ('replacement', 'setH, setA, copy, operator=, setupNewAuxiliaryQP')],
     technique='path-sensitive typestate of every owned data member (null, owned, borrowed, released) with summaries per member function correlated with return codes and ownership flags',
     note='The owned members are found from the delete and new expressions. Histories are covered by requiring each public function to take consistent states to consistent states. Failing allocations (exceptions) are outside.')
prop('C13', 'Optional arguments may really be omitted',
     'A pointer argument of a library or C interface function that is documented to allow a null pointer (by its description or a null default), or that the function itself tests for null, is never read or written through while it is null, neither by that function nor by any routine it passes it to. Bound vectors that may be missing because no such bounds exist are only looked up for variables or constraints that are active at that bound.',
     ['inputs'], 'every optional pointer argument, every combination of the other arguments and object states',
     'The tests pass null for a few arguments in a few option settings; a missing guard on a rarely taken option path crashes only there.',
     [SRC + '*.cpp', INC + '*.hpp', 'interfaces/c/qpOASES_wrapper.cpp', 'interfaces/c/qpOASES_wrapper.h'],
     [('optional arguments', 'init, hotstart, setupInitialQP, solveCurrentEQP, getKktViolation, SolutionAnalysis, readOqpData, print')],
     technique='path-sensitive null-pointer analysis from every optional argument, interprocedural by contexts of null arguments, with the documented optional arguments read from the headers',
     note='All contexts reachable from the optional arguments. An argument that is stored and read back through a member is not followed.')
prop('C06', 'Solving leaves the user\'s options as they were',
     'No call on a solver object other than the option setters (setOptions, setPrintLevel) and assignment leaves an option of that object different from its value before the call, whether the call succeeds or fails: an option that a routine changes for its own purposes has its old value again at every exit. Two documented adjustments are excepted: regularisation is switched on, with one step, when the Hessian type is zero and it was off; and epsRegularisation is raised when a Cholesky routine reports an indefinite Hessian.',
     ['inputs', 'histories', 'fault_sequences'], 'every routine of the solver classes, every option, every exit including all error exits',
     'An option that stays changed shows only in later calls on the same object, and the exits that forget to restore it are failure exits the tests do not take.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'OQPinterface.cpp', SRC + 'SolutionAnalysis.cpp'],
     [('temporary changes', 'QProblem::setupAuxiliaryWorkingSet'), ('documented adjustments', 'determineHessianType, computeCholesky, computeProjectedCholesky')],
     [('QProblemB::options', 'the options the user set')],
     technique='path-sensitive typestate of every option field (as at entry, changed, restored) to every exit; internal helpers are judged at their call sites through summaries',
     note='All functions of the library in the default and MA57 (quick) and further configurations (thorough).')
prop('C05', 'The reported solver status is the truth',
     'When init or hotstart of a solver class returns success, the status is QPS_SOLVED (isSolved() is true) and neither the infeasibility nor the unboundedness flag is set. When it returns an infeasibility code (RET_INIT_FAILED_INFEASIBILITY, RET_HOTSTART_STOPPED_INFEASIBILITY), isInfeasible() is true and the QP does not count as solved; likewise isUnbounded() for the unboundedness codes. When it stops at the limit on working set recalculations or CPU time (RET_MAX_NWSR_REACHED) the QP does not count as solved, no failing call sets the status to QPS_SOLVED, and also every routine called on the way that returns an infeasibility or unboundedness code has set the corresponding flag.',
     ['inputs', 'histories', 'fault_sequences'], 'every path of every init and hotstart overload of QProblemB, QProblem, SQProblem and SQProblemSchur through all routines they call, from every earlier state of the object',
     'A stale flag or status needs an infeasible, unbounded or interrupted QP after (or before) a solved one, in every combination with regularisation, ramping and far bounds; tests check the status only after plain solves.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', INC + 'QProblemB.ipp'],
     [('solve', 'solveInitialQP, hotstart, solveRegularisedQP, solveQP'), ('flags', 'setInfeasibilityFlag, performStep, changeActiveSet, far bounds loop of hotstart')],
     [('QProblemB::status', 'solution status'), ('QProblemB::infeasible', 'infeasibility found'), ('QProblemB::unbounded', 'unboundedness found')],
     technique='interprocedural path-sensitive typestate of status and flags, with summaries that keep each outcome together with the codes it can be returned with, per known entry state',
     note='All paths; numerical tests are taken both ways. Whether the QP really is infeasible or unbounded is not judged, only that code, flags and status agree.')
prop('C07', 'An index outside the valid range is refused',
     'A member function that refuses an index (documented to return RET_INDEX_OUT_OF_BOUNDS, or returning it: Bounds, Constraints and SubjectTo setup, move, flip and set functions, and the functions changing a single entry of a QP bound vector) returns that code whenever the index is negative or not less than the number of bounds or constraints of the object, and then neither accesses an array by that index nor changes the object; it does not return that code for a valid index. Indexlist::getNumber treats positions outside the list in the same way, and the other index list functions never read outside the list for a number that is not in it.',
     ['inputs'], 'every index value, valid or not, of every such argument, in every state of the object',
     'An index one too large reads or writes just behind an array and mostly goes unnoticed; the tests pass valid indices.',
     [SRC + 'Bounds.cpp', SRC + 'Constraints.cpp', INC + 'SubjectTo.ipp', INC + 'QProblemB.ipp', INC + 'QProblem.ipp', SRC + 'Indexlist.cpp', INC + 'Indexlist.ipp'],
     [('range tests', 'setupBound, moveFixedToFree, moveFreeToFixed, flipFixed, swapFree, setType, setStatus, setLB, setUB, setLBA, setUBA'), ('lookups', 'Indexlist::findInsert and its callers')],
     technique='path-sensitive analysis of each function under the assumption that the index is below, above or inside the range, with interval and symbolic difference reasoning against the entry count, through the calls it makes',
     note='Shift and rotation offsets are not indices and are left out, as are virtual declarations without a body. Inline functions nobody calls are compiled for the analysis.')
prop('C15', 'What is printed does not influence what is computed',
     'Print level and message visibilities influence only what is printed: every return code, and every change to solvers, matrices, working sets, options other than the print level, counters and memory of the caller, is the same whatever print level and visibilities are set. Only accessors of these settings return a value that depends on them.',
     ['configurations', 'inputs', 'histories'], 'all functions of the library, every print level and combination of message visibilities',
     'The tests run with one or two print levels; a side effect inside a branch for debug output, or a code lost when a message is hidden, shows only in the others.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'MessageHandling.cpp', SRC + 'Utils.cpp'],
     [('printing', 'printIteration, printProperties, branches on options.printLevel'), ('messages', 'MessageHandling::throwError, throwWarning, throwInfo, throwMessage')],
     [('Options::printLevel', 'chosen print level'), ('MessageHandling::errorVisibility', 'and warningVisibility, infoVisibility')],
     technique='information flow (non-interference): explicit and implicit flows by control dependence on output settings, interprocedural effect summaries, return values compared across the branches they merge from',
     note='All functions and paths, flow-insensitive in memory of local objects. CPU time consumed by printing is outside the property.')

prop('C16', 'Input data of the caller is never modified',
     'Data passed in as input, that is through a pointer or reference to const (arrays of matrices, vectors and bounds, initial guesses, working sets, index lists, options, objects copied from), is never written to by the library: neither by the routine it is passed to and those called from there, nor by a later call on an object that keeps a reference to the array. An object writes to an array it refers to only when it owns that array.',
     ['inputs', 'histories'], 'every routine with such a parameter and every sequence of later calls on objects built from it',
     'Tests pass data and look at the solution, not at whether the data changed; a change shows only when the caller uses the data again.',
     [SRC + 'Matrices.cpp', SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', INC + '*.ipp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('wrapping of user arrays in matrix objects', 'QProblemB::setH, QProblem::setA'), ('regularisation of the Hessian', 'QProblemB::regulariseHessian, DenseMatrix::addToDiag')],
     technique='whole-program pointer flow from parameters of type pointer-to-const through casts, calls and members to every store, with path-sensitive ownership at writes through members',
     note='Complete over all stores and external writes of library and C wrapper; arrays of a member are merged over objects of a class (no alarm when ownership is tested). Non-const matrix objects handed over by pointer are outside: the interface allows their modification.')
prop('C17', 'Problem data keep their role on every way through the library',
     'What is passed in as Hessian, gradient, constraint matrix, lower or upper bounds of variables or constraints, primal or dual guess (as an array, a matrix object or a file) is stored, loaded, copied and handed on as exactly that by every routine of the library and the C interface, never as another of these; likewise the steps of these data and the solution vectors handed out. Excepted is arithmetic that computes one from another and moving values between vectors of one solver object (fixing or relaxing a bound).',
     ['inputs', 'configurations'], 'every call and copy that passes on problem data, in every solver class and interface',
     'Test problems often have symmetric or missing bounds, and many variants (files, far bounds, hotstarts with both) are never run.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp', SRC + 'OQPinterface.cpp', SRC + 'SolutionAnalysis.cpp', SRC + 'Utils.cpp', INC + '*.ipp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('setup and loading', 'QProblem::setupQPdata, QProblem::loadQPvectorsFromFile'), ('steps', 'QProblem::determineDataShift, QProblem::performStep')],
     technique='role inference (unification of arrays over copies, calls, matrix wrappers and members, anchored in the declared members and parameters): two roles meeting in one array are a violation',
     note='Roles come from the declared names of public parameters and members; internal routines with other names get the role all their callers pass. Element-wise arithmetic is not judged.')

prop('C18', 'Index lists and statuses of a working set stay consistent',
     'In every working set an index is in the list of free (inactive) entries exactly if its status is inactive, and in the list of fixed (active) entries exactly if its status is lower or upper: a routine that reports success has changed list and status of an entry together, however entries are set up, moved, flipped, shifted or rotated. Code outside the working set classes changes neither the lists nor the statuses of a working set of a solver, except to mark entries it drops.',
     ['inputs', 'histories'], 'every sequence of changes to working sets: all types and statuses of entries, offsets, sizes',
     'A wrong list shows only once a later step looks the entry up by the other of the two; the tests never shift or rotate working sets and set up few combinations of types and statuses.',
     [SRC + 'Bounds.cpp', SRC + 'Constraints.cpp', SRC + 'SubjectTo.cpp', SRC + 'Indexlist.cpp', SRC + 'QProblem.cpp'],
     [('setup and moves', 'Bounds::setupBound, SubjectTo::addIndex, SubjectTo::removeIndex'), ('reordering', 'Bounds::shift, Constraints::rotate')],
     [('SubjectTo::status', 'status of every entry'), ('Bounds::freee, Bounds::fixed', 'indices of the free and of the fixed variables'), ('Constraints::active, Constraints::inactive', 'indices of the active and of the inactive constraints')],
     technique='path-sensitive event summaries (index added or removed, status set, list replaced) composed over calls, judged as typestate at every success exit',
     note='The lists are abstract sets: that Indexlist keeps its two arrays sorted and without gaps is not decided here. A flip between the two bounds needs the old status to be known.')

prop('C19', 'The limit on working set recalculations is kept and their number reported',
     'A call of a solver routine (init or hotstart, with or without matrices, ramping of far bounds or regularisation steps, also through the C interface) changes the working set in an iteration only while the number of recalculations performed is below the limit handed in, over all homotopies of the call together. On every exit after the homotopy started - solved, stopped, refused or failed - the argument holds the number of recalculations performed, and never more than the limit.',
     ['inputs', 'histories'], 'every problem, option setting, limit and point of failure',
     'Tests set generous limits and look at the number only after a solution; failures in the middle of a homotopy and the continuation of the count over far bound and regularisation steps occur in few of them.',
     [SRC + 'QProblem.cpp', SRC + 'QProblemB.cpp', SRC + 'SQProblem.cpp', 'interfaces/c/qpOASES_wrapper.cpp'],
     [('homotopy', 'QProblem::solveQP, QProblemB::solveQP'), ('several homotopies in one call', 'QProblem::hotstart, QProblemB::hotstart, QProblem::solveRegularisedQP, QProblemB::solveRegularisedQP'), ('initial solution', 'QProblem::solveInitialQP, QProblemB::solveInitialQP, SQProblem::hotstart'), ('working set change', 'QProblem::changeActiveSet, QProblemB::changeActiveSet')],
     [('nWSR', 'limit on the way in, number performed on the way out'), ('nWSRperformed', 'number performed before')],
     technique='path-sensitive linear counting of working set changes, inductive over loops, with a limit-in/number-out contract at every call between solver routines',
     note='A recalculation is one successful changeActiveSet. Working set changes while an initial working set is built are not recalculations (as documented: nWSR counts homotopy iterations).')

NUM = ('depends on the values computed in floating point along a run of unbounded length; no sound static argument within reach bounds them, '
       'and a run or a solver query would leave the family')
prop('C31', 'A reported solution is optimal for the QP given',
     'When init or hotstart of a solver class returns success, the primal and dual solution handed out satisfy the optimality conditions of the quadratic program that was passed (stationarity, feasibility, sign of multipliers, complementarity) up to the configured tolerances.',
     ['inputs'], 'every quadratic program within the size limits of the classes', 'Tests solve a few hundred programs; optimality must hold for every one.',
     [SRC + 'QProblemB.cpp', SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp'], [('parametric active set loop', 'QProblem::solveQP, QProblem::performStep')],
     na='optimality ' + NUM + '. C04, C05 and C11 decide the parts that are a matter of control flow (no failed step is reported as success; status and flags agree with the code; options are what they are meant to be)')
prop('C32', 'A call ends and tells infeasible from feasible problems correctly',
     'Every solver call ends after finitely many working set changes without cycling. It reports infeasibility or unboundedness only for programs that are infeasible or unbounded, and does report it for those.',
     ['inputs', 'histories'], 'every program and every sequence of hotstarts, degenerate ones included', 'Cycling and wrong verdicts show only on degenerate data that no test suite samples exhaustively.',
     [SRC + 'QProblem.cpp', SRC + 'QProblemB.cpp'], [('ramping and far bounds', 'QProblem::performRamping, QProblemB::updateFarBounds'), ('infeasibility decision', 'QProblem::ensureLI')],
     na='the verdict rests on ratio tests and sign decisions on computed data; it ' + NUM + '. That loops respect nWSR cannot be shown to imply a correct verdict')
prop('C33', 'Matrix factorisations stay accurate under updates',
     'After any sequence of working set changes the stored factors (Cholesky factor, null space basis and reverse triangular factor, Schur complement) equal, up to rounding, those computed afresh for the current working set.',
     ['inputs', 'histories'], 'every sequence of additions, removals and refactorisations', 'Drift and a wrong update show only after particular exchange sequences.',
     [SRC + 'QProblem.cpp', SRC + 'QProblemB.cpp', SRC + 'SQProblemSchur.cpp'], [('Givens updates', 'QProblem::addConstraint, QProblem::removeConstraint'), ('Schur updates', 'SQProblemSchur::addToSchurComplement')],
     na='equality of factors up to rounding ' + NUM)
prop('C34', 'Hotstart, init and the sparse variant give the same solution',
     'Solving a program by hotstart from any previous program, from a cold start, with a guessed working set, with dense or sparse matrices, or with the Schur complement solver leads to the same optimal objective value.',
     ['inputs', 'histories', 'configurations'], 'every sequence of programs and every solver variant', 'Tests compare a few sequences on fixed data.',
     [SRC + 'QProblem.cpp', SRC + 'SQProblem.cpp', SRC + 'SQProblemSchur.cpp'], [('homotopy between programs', 'QProblem::solveQP')],
     na='agreement of two iterative computations ' + NUM)
prop('C35', 'Dense and sparse matrix classes compute the same results',
     'For the same mathematical matrix, the dense, symmetric, compressed column and compressed row classes return the same products, bilinear forms, rows, columns, norms and submatrices up to rounding, for all index sets and leading dimensions.',
     ['inputs'], 'every matrix, index subset, leading dimension and scaling factor', 'Unit tests use a few small matrices, one leading dimension and sorted index sets.',
     [SRC + 'Matrices.cpp', INC + 'Matrices.hpp'], [('products', 'DenseMatrix::times, SparseMatrix::times, SparseMatrixRow::times and transTimes')],
     na='equivalence of loop nests over data dependent index structures (merge loops over compressed columns and unsorted index lists) needs functional verification with loop invariants; dataflow and syntax rules in reach cannot decide it. C01 decides the completeness of the copies of these classes')
prop('C36', 'Solution analysis and residuals report true figures',
     'The maximum KKT violation, objective value, curvature verdict and covariance figures returned by the analysis routines are those of the current program and solution.',
     ['inputs'], 'every solved program', 'Tests compare against stored figures of a few programs.',
     [SRC + 'SolutionAnalysis.cpp', SRC + 'Utils.cpp'], [('analysis', 'SolutionAnalysis::getKktViolation, getKktResidual')],
     na='correctness of the figures ' + NUM)
prop('C37', 'The CPU time limit is kept',
     'A solver call stops within the given CPU time up to one iteration, and reports the CPU time it took.',
     ['inputs', 'schedules'], 'every program and machine load', 'Timing differs from run to run; tests set generous limits.',
     [SRC + 'QProblem.cpp', SRC + 'QProblemB.cpp'], [('time test', 'QProblemB::isCPUtimeLimitExceeded')],
     na='it quantifies over clock readings at run time, which no static argument bounds (the limit on working set recalculations is decided in C19)')
prop('C38', 'Data files are read back as they were written',
     'Numbers written to problem, solution and binary data files are read back to the same values, for every matrix size and value.',
     ['inputs'], 'every value and size', 'Tests read fixed files.', [SRC + 'Utils.cpp', SRC + 'Matrices.cpp', SRC + 'OQPinterface.cpp'],
     [('text and binary output', 'writeIntoFile, DenseMatrix::writeToFile, writeIntoMatFile'), ('input', 'readFromFile')],
     na='the text formats are lossy by their conversion width and the round trip runs through the C library number conversions, whose effect on every value no static argument in reach decides; opening, closing and error reporting of files are decided in C12')
