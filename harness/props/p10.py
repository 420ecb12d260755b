from gen import generate, replay_programs
from nattrace import natural_operators

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla with one input array (scalars to three dimensions), evaluated by the
specification at two points and turned into a scalar function (weighted sum of all intermediates, sum of the last one, or
one element). Every operator is applied to it, bare, compiled, vectorised and inside a loop; Laplacian and gradient must be
the ones of the specification. Recorded functions (natfuns.py, validated by TraceR) are made scalar functions of one flat array and
treated alike. Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = []


def per(i):
    return dict(how=['all', 'last', 'elem'][i % 3], outer=['bare', 'jit', 'vmap', 'scan'][i % 4],
                ops=['loop', 'parallel', [0, 'N', 2, 0.5, 1][i % 5]])


def check(ctx):
    n = 8 if ctx.thorough else 1
    natural_operators(ctx, range(500, 500 + n), lambda i: dict(outer=['bare', 'jit', 'vmap', 'scan'][i % 4], ops=['loop', 'parallel', [0, 'N', 2][i % 3]]),
                      None if ctx.thorough else lambda nm, i, s: (i + ctx.seed) % 2 == 0)
    over = dict(Depth=8, Points=2, InputShapes='<- gShapes1')
    lines = generate(ctx, 110 * n, over, seed=101)
    lines += generate(ctx, 50 * n, dict(over, Kinds='<- gKindsS', UnNames='<- gUnS', Depth=6), seed=102)
    replay_programs(ctx, lines, [0], mod='stages', fn='run_operators', per=per)
