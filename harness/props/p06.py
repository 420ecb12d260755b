from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenT.tla: array programs whose inputs arrive in nested containers, whose constants partly
arrive as keyword arguments and whose outputs are returned in nested containers (repeated leaves, constants, integers,
booleans, None). Structure, kind of every leaf, shape, dtype and numbers must be those of the specification; single, half
and mixed precision runs compare shape and dtype with those of the untransformed function. Non-trivial: at least two operations.'''
ASSUMPTIONS = ['Single and half precision runs check structure, shape and dtype only, not numbers.']
MODES = ['values', 'values', 'x32', 'values', 'f32', 'values', 'mixed', 'values', 'mixed2', 'values', 'f16']


def per(i):
    return dict(T=[0, 'N', 2, 0.5, 1][i % 5], mode=MODES[i % 11], jit=i % 4 == 0)


def check(ctx):
    n = 8 if ctx.thorough else 1
    lines = generate(ctx, 240 * n, dict(Depth=8), base='GenT.cfg', module='GenT', seed=61)
    replay_programs(ctx, lines, [0], mod='trees', per=per)
