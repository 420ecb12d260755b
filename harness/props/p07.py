from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenLoop.tla: array programs with loops (constants, carries, stacked outputs, constant or
input-dependent sequences, both directions, lengths 1 to 3, nesting depth 2) and calls (compiled, named, rematerialised,
conditional), whose meaning in the specification is the unrolled and inlined program. Loops whose carries keep their sparsity
pattern, and every loop with matching carries without sparsity, must be accepted; other loops may be refused, never
wrong. Non-trivial: at least two operations.'''
ASSUMPTIONS = ["Loops are refused only with the documented messages, or by jax because a carry changes its shape."]


def per(i):
    return dict(Ts=[[0, 'N'], ['N', 2], [0, 0.5], [0, 1]][i % 4], opt=dict(fori=i % 3 == 0, unroll=1 + i % 2))


def check(ctx):
    n = 8 if ctx.thorough else 1
    lines = generate(ctx, 150 * n, dict(Depth=14), base='GenLoop.cfg', module='GenLoop', seed=71, extra=8)
    lines += generate(ctx, 110 * n, dict(Depth=12, Kinds='<- gKindsEl', UnNames='<- gUnS'), base='GenLoop.cfg', module='GenLoop', seed=72, extra=8)
    lines = [l for l in lines if '\\"scan\\"' in l or '\\"call\\"' in l]
    replay_programs(ctx, lines, [0], mod='loops', per=per)
