from gen import generate, replay_programs
from nattrace import natural

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla replayed with several sparsity thresholds (integers, the number of inputs,
more than that, fractions); value, Jacobian (read through the index array and densified by the library) and Laplacian
of every intermediate are compared with the specification.
Recorded programs: functions written in ordinary JAX (harness/natfuns.py: networks, wave functions, linear algebra,
control flow, nested transformations) are traced, every recorded operation must be a transition of the specification
(spec/TraceR.tla), and what it computes for the outputs is compared with several thresholds.
Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['Derivative tables of elementary functions in spec/TabR.tla.']

SETS = [[1, 'N'], [3, 0.5], [2, 'N'], [4, 'N'], [1, 0.34], [3, 30], [5, 0.75], [2, 6]]


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 240 * n, seed=11)
    replay_programs(ctx, lines, lambda i: SETS[i % len(SETS)], what=('x', 'J', 'L', 'dense'))
    natural(ctx, range(20, 26) if ctx.thorough else [20], [1, 'N/2', 'N'], what=('x', 'J', 'L', 'dense'))
