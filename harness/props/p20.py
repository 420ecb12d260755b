from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla concentrated on slices, gathers, updates and selections whose position or
predicate is computed from the inputs; the specification evaluates each program at two input points and one compiled
transformation is evaluated at both. Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['Positions are kept away from the points where the integer part jumps.']


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 260 * n, dict(Kinds='<- gKindsDD', InputShapes='<- gShapesDD', Depth=8, Points=2, NumV='<- gNum2'), seed=201)
    lines = [l for l in lines if '"dd' in l or 'where' in l or '\\"dd' in l]
    replay_programs(ctx, lines, lambda i: [[0], ['N'], [2], [0.5], [1]][i % 5], what=('x', 'J', 'L', 'dense', 'rep', 'dtype', 'struct'), points=2)
