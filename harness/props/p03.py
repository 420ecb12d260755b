from gen import generate, replay_programs
from nattrace import natural

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla replayed with thresholds that keep most Jacobians sparse; for every
intermediate the index array must be static, of the shape of the data, in range, and list every input with a non-zero
derivative in the specification, and scattering the data through it must give the specification's Jacobian.
The same for recorded programs (functions in ordinary JAX, harness/natfuns.py, validated by spec/TraceR.tla).
Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['"Really depends" is read as a non-zero derivative in the specification at the generated point.']


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 260 * n, seed=21)
    replay_programs(ctx, lines, lambda i: ['N'] if i % 3 else [2, 'N'], what=('J', 'rep'))
    natural(ctx, range(30, 38) if ctx.thorough else [30], ['N'], what=('J', 'rep'))
