from gen import generate, replay_programs
from nattrace import natural

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenC.tla (real inputs, complex intermediates; every number of the specification is
complex) replayed for several thresholds; value, Jacobian, Laplacian and dtypes of every intermediate are compared.
The same for recorded programs (functions in ordinary JAX, harness/natfuns.py, validated by spec/TraceC.tla).
Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['Complex derivative tables in spec/TabC.tla.']


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 260 * n, base='GenC.cfg', module='GenC', seed=111)
    replay_programs(ctx, lines, lambda i: [[0], ['N'], [2], [0, 0.5]][i % 4])
    natural(ctx, range(110, 120) if ctx.thorough else [110, 111], [0, 'N', 2], what=('x', 'J', 'L', 'dense', 'rep', 'dtype'), family='C')
