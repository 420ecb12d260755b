from gen import generate, replay_programs
from nattrace import natural

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla whose inputs carry weights: the specification seeds each input with its
weight as derivative; replayed with weights= (a number, one per argument, nested prefixes) for several thresholds.
The same for recorded programs (functions in ordinary JAX, harness/natfuns.py, validated by spec/TraceR.tla).
Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = []


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 200 * n, dict(WeightSet='<- gW', Depth=7), seed=41)
    replay_programs(ctx, lines, lambda i: [[0], ['N'], [2], [0.5]][i % 4], what=('x', 'J', 'L', 'dense', 'rep'), weights=True)
    natural(ctx, range(40, 48) if ctx.thorough else [40], [0, 'N'], weighted=True, only=None if ctx.thorough else lambda nm, i, s: i % 2 == 0)
