"""Writes properties.jsonl (the prose lives here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p('P01', 'Dense forward Laplacian is exact',
  'For every program of supported array operations and every real input point at which it is twice differentiable, transforming the program without sparsity (threshold 0) returns, for every output, the value of the program, its full Jacobian and the exact sum of unmixed second derivatives with respect to all inputs, up to rounding. This holds whatever the order and nesting of operations, however operations share intermediates, and whichever operands are constants.',
  ['programs', 'inputs'], 'All compositions of the supported operations (elementwise, reductions, contractions, cumulative, indexing, scatter, selection, determinants, calls), all shapes and broadcast patterns, all smooth input points.',
  'The tests evaluate about thirty fixed functions on one or two random points each; nothing composes rules, varies shapes and axes systematically or reuses intermediates in unusual ways.',
  ['folx/interpreter.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/custom_hessian.py', 'folx/wrapped_functions.py', 'folx/utils.py'],
  [('evaluation of the traced program operation by operation', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian'), ('dense Jacobian-vector products', 'folx/jvp.py:dense_jvp'), ('trace of J^T H J per operation', 'folx/hessian.py:get_jacobian_hessian_jacobian_trace'), ('rule registry', 'folx/wrapped_functions.py')],
  ['forward_laplacian(f, 0)(*xs): value, jacobian and laplacian of every output'])
p('P02', 'Sparsity never changes the result',
  'For every program, input and sparsity threshold (integer or fraction of the input size), the value, the densified Jacobian and the Laplacian of every output equal those obtained without sparsity up to rounding; a supported program never starts to fail because of the threshold.',
  ['programs', 'inputs', 'configurations'], 'All compositions of supported operations, all thresholds from 1 to beyond the number of inputs and all fractions in (0,1), including thresholds at which some intermediates switch to dense storage and others do not.',
  'Tests use a few functions with thresholds 0 and 6; every combination of representations meeting at an operation (sparse with equal or different patterns, padded, dense, constant) needs its own branch, and most never meet in the tests.',
  ['folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/api.py', 'folx/interpreter.py'],
  [('sparse Jacobian propagation', 'folx/jvp.py:sparse_jvp, sparse_reduction_jvp, sparse_index_jvp, sparse_scatter_jvp'), ('joint materialisation for Hessian contributions', 'folx/hessian.py, folx/utils.py:get_reduced_jacobians'), ('gathering stored rows by index', 'folx/api.py:FwdJacobian.construct_jac_for')],
  ['forward_laplacian(f, t)(*xs) for several t'])
p('P03', 'Sparse index arrays are sound, in range and static',
  'Whenever a Jacobian is stored sparsely, its index array is known while tracing, has the shape of the stored data, contains only input numbers between 0 and the number of inputs minus one or the padding value -1, and lists for every output element every input on which that element really depends. Scattering the stored entries to the listed inputs (adding repeated ones, ignoring padding) yields exactly the Jacobian.',
  ['programs', 'inputs', 'configurations'], 'All programs and thresholds for which any output or intermediate is stored sparsely.',
  'The tests only look at densified results of whole functions; a wrong pattern of an intermediate can be masked by later operations and show up only in a different composition.',
  ['folx/api.py', 'folx/jvp.py', 'folx/utils.py'],
  [('pattern propagation of elementwise, reduction, indexing and scatter operations', 'folx/jvp.py'), ('extraction and merging of patterns', 'folx/utils.py:extract_jacobian_mask, merge_jacobian_masks')],
  ['the index array and data of each sparse Jacobian returned by the transformation'],
  [('x0_idx', 'which input each stored Jacobian entry belongs to', 'folx/api.py:FwdJacobian')])
p('P04', 'The threshold decides between sparse and dense storage',
  'With threshold t, results of structure-preserving operations (elementwise maps, indexing, reshaping, reductions and contractions) whose elements depend on few enough inputs stay sparse with no more columns than the dependency structure of the program accounts for, and reductions or contractions that combine more than t inputs are stored densely. No stored sparse Jacobian attributes an element of such an operation to inputs it has no path from, and a fractional threshold acts like that fraction of the total number of inputs, rounded down.',
  ['programs', 'configurations'], 'All compositions of the operations with a sparsity rule, all thresholds.',
  'Losing sparsity does not change any number, so no numerical test can notice; the tests compare numbers only.',
  ['folx/jvp.py', 'folx/interpreter.py', 'folx/utils.py', 'folx/wrapped_functions.py'],
  [('switch to dense when a reduction exceeds the threshold', 'folx/jvp.py:sparse_reduction_jvp'), ('fractional thresholds', 'folx/interpreter.py:forward_laplacian'), ('indexing annotations', 'folx/wrapped_functions.py')],
  ['storage kind, number of stored columns and index array of each returned Jacobian'])
p('P05', 'Weights act as a rescaling of the inputs',
  'With weights w (one number for everything, one per argument, or any prefix of the argument structure), the Laplacian equals the sum of second derivatives each multiplied by the square of the weight of its input and the Jacobian entry of each input is multiplied by its weight, for every program and threshold. Weight one, the default, changes nothing.',
  ['programs', 'inputs', 'configurations'], 'All programs, all weight values and argument structures, all thresholds.',
  'One test uses one weighted function; negative, fractional and mixed weights, pytree arguments and the interaction with sparsity are not covered.',
  ['folx/interpreter.py'], [('initial Jacobian', 'folx/interpreter.py:init_forward_laplacian_state')],
  ['forward_laplacian(f, t)(*xs, weights=w)'])
p('P06', 'Outputs keep structure, shapes, dtypes and differentiability',
  'The result has the pytree structure of the function\'s result, every leaf has the shape and dtype the function gives it, and Jacobian and Laplacian have the dtype of the value. Outputs which carry no derivative information (constants, integers, booleans, keyword-only data) are returned as plain arrays and all others as triples of value, Jacobian and Laplacian; arguments may be any pytrees, and keyword arguments are constants.',
  ['programs', 'inputs', 'configurations'], 'All argument and result structures, single and double precision, outputs that are inputs, constants, repeated or integers.',
  'Tests return single arrays in default precision; nested structures, pass-through outputs, mixed precision and constants are not sampled.',
  ['folx/interpreter.py', 'folx/tree_utils.py', 'folx/utils.py', 'folx/wrapper.py'],
  [('flattening of arguments and unflattening of outputs', 'folx/interpreter.py:forward_laplacian'), ('dropping derivatives of non-float results', 'folx/api.py:FwdLaplArray.astype, folx/wrapper.py')],
  ['tree structure, shapes, dtypes and types of the leaves of the result'])
p('P07', 'Loops and calls behave like their unrolled program',
  'A function containing fixed-length loops over constant data, with constants, carries and stacked outputs in any number and any nesting with compiled sub-functions, gives the same value, Jacobian and Laplacian as the program with every loop unrolled and every call inlined, for every threshold; where loops are not supported it raises and never returns wrong numbers.',
  ['programs', 'inputs', 'configurations'], 'All loop lengths (including zero), directions, mixtures of plain and differentiated constants, carries and outputs, nested loops and calls, all thresholds.',
  'One test runs one loop; the alignment of carries, outputs and sparsity patterns after the loop depends on the particular mixture.',
  ['folx/interpreter.py', 'folx/utils.py'], [('loop evaluation with static patterns', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian'), ('inlining of calls', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian')],
  ['forward_laplacian of functions built with lax.scan, lax.fori_loop and jax.jit'])
p('P08', 'Custom rules apply exactly while they are registered',
  'After registering a rule for a function name, every later transformation of a program that calls a compiled function of that name uses the latest registered rule, at any nesting depth, and after deregistering it the program is transformed as if the rule had never existed. Registering and deregistering never affects any other function, and removing or overwriting rules leaves the built-in behaviour of everything else intact.',
  ['histories', 'programs'], 'All histories of registrations, re-registrations, deregistrations and uses of several names interleaved with transformations.',
  'One test registers one rule once; histories with several names, overwriting and removal are not exercised.',
  ['folx/wrapped_functions.py', 'folx/interpreter.py', 'folx/wrapper.py'], [('registry', 'folx/wrapped_functions.py:register_function, deregister_function, get_laplacian'), ('lookup of compiled functions by name', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian')],
  ['results of transformed programs after each step of a history'], [('registry', 'rules by name or primitive', 'folx/wrapped_functions.py:_LAPLACE_FN_REGISTRY')])
p('P09', 'Batched vectorisation equals plain vectorisation, in bounded chunks',
  'Vectorising a function with a maximum batch size gives the same results, in the same order, structure and axes, as vectorising it at once, for every batch size, maximum, choice of mapped and unmapped arguments and output axes. The function is never applied to more than the maximum number of elements at once.',
  ['inputs', 'configurations'], 'All batch sizes and maxima (dividing or not, larger or smaller), all pytrees of arguments and results, all axes.',
  'One test with one shape and a few sizes exists; remainder handling, axes and unmapped arguments interact.',
  ['folx/vmap.py'], [('splitting into chunks and a remainder', 'folx/vmap.py:batched_vmap')],
  ['result of batched_vmap and the sizes with which the function is traced'])
p('P10', 'All Laplacian operators agree',
  'For every scalar function and every input shape, the forward operator (with any threshold), the loop operator and the parallel operator return the same Laplacian, which is the sum of unmixed second derivatives over all inputs, and the same full gradient with one entry per input, inside or outside other transformations.',
  ['programs', 'inputs', 'configurations'], 'All scalar programs including those that ignore some or all inputs, all input shapes, all thresholds, with and without enclosing compilation or vectorisation.',
  'The tests use the operators on a handful of functions of a vector, and compare the Laplacian only.',
  ['folx/operators.py'], [('forward operator', 'folx/operators.py:ForwardLaplacianOperator'), ('baselines', 'folx/operators.py:LoopLaplacianOperator, ParallelLaplacianOperator')],
  ['the pair returned by each operator'])
p('P11', 'Complex intermediates and outputs are exact',
  'For real inputs, programs that pass through complex numbers (construction from real and imaginary part, holomorphic functions, conjugation, real and imaginary part, modulus, products and contractions, reductions, indexing) return the exact value, Jacobian and Laplacian of every real or complex output for every threshold.',
  ['programs', 'inputs', 'configurations'], 'All such programs, smooth points away from branch cuts, all thresholds.',
  'Two tests involve complex numbers with fixed functions; the order of conjugations and products matters in every rule.',
  ['folx/wrapped_functions.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/custom_hessian.py'], [('rules for complex elementwise functions and products', 'folx/wrapped_functions.py, folx/custom_hessian.py'), ('derivatives of complex operations', 'folx/ad.py, folx/hessian.py')],
  ['forward_laplacian of functions with complex intermediates'])
p('P12', 'Determinants are differentiated exactly',
  'For matrices of any size and any batch dimensions, real or complex, with any dependence on the inputs and any threshold, the sign and log-modulus of the determinant come back with exact value, and the log-modulus with exact Jacobian and Laplacian; the sign of a real determinant carries no derivatives and the phase of a complex one has exact derivatives.',
  ['programs', 'inputs', 'configurations'], 'All matrix sizes, batch shapes, real and complex entries, entries depending on few or all inputs or constant, all thresholds.',
  'One test uses one matrix; batches, complex matrices, sizes one and two and sparse entries are different code paths.',
  ['folx/custom_hessian.py', 'folx/wrapped_functions.py'], [('determinant rules', 'folx/custom_hessian.py:slogdet_jac_hessian_jac'), ('registration', 'folx/wrapped_functions.py')],
  ['forward_laplacian of functions using jnp.linalg.slogdet'])
p('P13', 'Intermediates live until their last use and no longer',
  'While a program is transformed, every intermediate stays available up to its last use, including repeated use by one operation, use by later sub-functions and use as an output, and it is released once no later operation needs it. No order of uses makes the transformation fail for a missing value or keep a dead intermediate alive.',
  ['programs', 'histories'], 'All data-flow graphs: fan-out, repeated operands, unused results, outputs that are inputs or repeated, nested calls.',
  'Leaks and premature releases depend on the data-flow graph; tests observe only final numbers of a few graphs.',
  ['folx/interpreter.py'], [('reference counted environment', 'folx/interpreter.py:JaxExprEnvironment')],
  ['liveness of intermediates seen by registered rules during a transformation'], [('reference counter', 'remaining uses of each variable', 'folx/interpreter.py:JaxExprEnvironment')])
p('P14', 'Logging configuration is restored after every transformation',
  'The prefixes put on log messages exist only while the operation they describe is processed: once the transformations in progress have ended, whether they succeeded or failed, were nested, or ran concurrently in several threads, the handlers, formats and level of the root logger are what they were before. While transformations are in progress a warning is emitted once, with the prefix of the most recently entered operation that is still being processed.',
  ['schedules', 'histories', 'fault_sequences'], 'All interleavings of entering, logging, leaving and failing in several threads, all nesting depths.',
  'No test touches logging; the configuration is global mutable state and only particular interleavings corrupt it.',
  ['folx/utils.py', 'folx/interpreter.py', 'folx/jvp.py'], [('prefix installation and removal', 'folx/utils.py:LoggingPrefix')],
  ['handlers, formatters and level of the root logger, text of emitted records'], [('handlers', 'handlers of the root logger', 'logging')])
p('P15', 'The memory estimate is the peak of live arrays',
  'For every program (as traced by jax), the estimated memory is the maximum over its operations of the bytes of all arrays alive at that time, plus, for a compiled function call or a scan, the estimate of the called program on the arguments of one call or iteration. Inputs, captured constants and results are kept throughout once they exist; an intermediate is alive from its creation to its last use; results nobody reads and literals are not counted; conditionals, while loops and functions with custom derivatives are single operations. Estimating never executes the program and does not depend on the values of the inputs; estimates made at the same time in several threads, or inside one another, are what they are alone, and what other code prints meanwhile appears once on the standard output, which is left as it was.',
  ['programs', 'inputs', 'schedules'], 'All programs with calls and loops, repeated operands, unused results, all dtypes, static and keyword arguments; all interleavings of estimates.',
  'There is no test of the estimator at all in the stable set.',
  ['folx/experimental/memory.py'], [('reference counted accounting', 'folx/experimental/memory.py:MemoryExprEnvironment'), ('recursion into calls and loops', 'folx/experimental/memory.py:_compute_jaxpr_memory')],
  ['return value of compute_memory'])
p('P16', 'Automatic batching is transparent and fits the memory',
  'Automatically batched vectorisation returns exactly what plain vectorisation returns whatever the device reports about its memory, including nothing. When the device reports a limit, the chosen chunk size is the largest whose estimated cost, extrapolated linearly from one and two elements, fits the allowed fraction of it, and at least one; this holds where the estimate grows with the number of elements (if it stays the same, everything is done at once). Without a reported limit elements are done one by one.',
  ['inputs', 'configurations'], 'All functions, batch sizes, device limits, fractions; devices without statistics.',
  'It is not tested with limits; on CPU only the fallback runs.',
  ['folx/experimental/vmap.py', 'folx/vmap.py'], [('choice of the batch size', 'folx/experimental/vmap.py:auto_batched_vmap')],
  ['result and traced chunk sizes under a given reported limit'])
p('P17', 'Transforming in stages equals transforming at once',
  'Feeding the triples returned by one transformed function into another transformed function gives the value, Jacobian and Laplacian of the composed function with respect to the original inputs, wherever a program is cut, for every threshold and every mix of sparse, dense and plain stage results, as long as the stages are evaluated uncompiled or under one compilation; a stage that is compiled on its own may refuse sparse triples (their index arrays must be known while tracing) but never returns wrong numbers for them.',
  ['programs', 'inputs', 'configurations'], 'All programs, all cuts into two or more stages, all thresholds.',
  'Only single-stage use is tested; the state handed over (patterns, dense rows, plain arrays) varies with cut and threshold.',
  ['folx/interpreter.py', 'folx/wrapper.py', 'folx/api.py'], [('accepting triples as arguments', 'folx/interpreter.py:init_forward_laplacian_state'), ('wrapping of sub-functions', 'folx/wrapper.py:wrap_forward_laplacian')],
  ['results of g applied to results of f'])
p('P18', 'Compiled, uncompiled and vectorised evaluation agree',
  'Evaluating a transformed function eagerly, compiled, under an enclosing compilation or vectorised over a batch of inputs gives the same value, Jacobian and Laplacian per input as evaluating it compiled on each input, for every program and threshold, and repeated evaluations with other inputs of the same shape are independent of earlier ones.',
  ['programs', 'inputs', 'configurations', 'histories'], 'All programs, thresholds, modes of evaluation, and sequences of calls.',
  'Tests compile everything once per function; eager evaluation sees concrete values where tracing sees none, and takes other branches.',
  ['folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/utils.py'], [('compilation of the transformed function', 'folx/interpreter.py:forward_laplacian'), ('constant folding of untouched values', 'folx/interpreter.py:eval_jaxpr_with_forward_laplacian')],
  ['results of all evaluation modes'])
p('P19', 'Derivative helpers are exact for real and complex functions',
  'The library\'s Jacobian, Hessian and vector-Jacobian product helpers return, for every function between real and complex arrays with any number of dimensions, the matrices of first and second partial derivatives with respect to the flattened real input in the documented orientation, forward and reverse mode agreeing.',
  ['programs', 'inputs'], 'All smooth programs, real and complex outputs, all shapes.',
  'The helpers are only used internally by the baselines in tests for fixed functions.',
  ['folx/ad.py', 'folx/utils.py'], [('flattened Jacobians and Hessians', 'folx/ad.py:jacfwd, jacrev, hessian, vjp')],
  ['return values of the helpers'])
p('P20', 'Input-dependent indices and branches are handled exactly',
  'When an index, slice position, update position or selection depends on the inputs, the transformation returns the exact value, Jacobian and Laplacian of the branch actually taken at each input, even when the same compiled transformation is evaluated at inputs that select different elements, for every threshold.',
  ['programs', 'inputs', 'configurations'], 'All data-dependent selections, dynamic slices, updates and gathers, all input points sharing one compilation.',
  'A pattern computed from the first input is right for that input; only re-evaluation at other inputs shows that it was baked in.',
  ['folx/wrapped_functions.py', 'folx/jvp.py', 'folx/wrapper.py'], [('dense fallback when the index is not constant', 'folx/jvp.py:sparse_index_jvp'), ('selection rules', 'folx/wrapped_functions.py')],
  ['results of one compiled transformation at several inputs'])
p('P21', 'Jacobian objects obey their algebra in any representation',
  'Adding, densifying, converting, taking real and imaginary parts or conjugating Jacobians and triples commutes with reading them as full matrices, whatever mixture of sparse patterns (padded, repeated, differing column counts) and dense rows (fewer than inputs) they are stored in, and gathering the rows for any list of distinct inputs (one list for all entries, or for sparse storage one per entry) returns exactly those rows with zeros for padding and inputs without entries.',
  ['inputs', 'configurations'], 'All small index patterns and dense row counts, all pairs, all requested row lists.',
  'Tests never build these objects directly; unusual patterns arise only in particular compositions.',
  ['folx/api.py', 'folx/utils.py'], [('Jacobian container', 'folx/api.py:FwdJacobian'), ('merging and padding', 'folx/utils.py:add_jacobians, merge_jacobian_masks')],
  ['public methods of the Jacobian and triple containers'], [('data, x0_idx', 'stored entries and their inputs', 'folx/api.py:FwdJacobian')])
p('P22', 'Truthful annotations never change results',
  'Wrapping a function with any combination of annotations that are true of it (elementwise or acting on given trailing axes; linear in all, in the first or in single arguments; multiplication, dot product, summation over given axes, reduction, indexing) gives the same value, Jacobian and Laplacian as wrapping it without annotations, for every argument count, mixture of differentiated and constant arguments, representation and threshold.',
  ['programs', 'inputs', 'configurations'], 'All functions with true annotations, all argument mixtures and thresholds.',
  'Annotations select fast paths; each path is tested through one built-in operation at most.',
  ['folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/custom_hessian.py'], [('annotated wrapping', 'folx/wrapper.py:wrap_forward_laplacian'), ('fast paths by annotation', 'folx/hessian.py:get_jacobian_hessian_jacobian_trace')],
  ['results of wrapped functions with and without annotations'])
p('P23', 'Every call of a transformed function stands alone',
  'However often a transformed function or operator is called and whatever the earlier calls were (other numbers, sizes, containers, precisions, weights, keyword arguments, modes of evaluation, calls that failed, calls of other transformations of the same function), a call returns the values, Jacobians, Laplacians, precisions and storage that a fresh transformation would return for its arguments, and a call that cannot succeed fails every time.',
  ['histories', 'inputs', 'configurations'], 'All sequences of calls of all transformations made from a function.',
  'Tests call each transformed function once; state kept between calls (resolved thresholds, caches, compiled programs) shows only on later calls with other arguments.',
  ['folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/operators.py'], [('transformed function and its compilation', 'folx/interpreter.py:forward_laplacian'), ('operators', 'folx/operators.py:ForwardLaplacianOperator')],
  ['results of each call in a history'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))
