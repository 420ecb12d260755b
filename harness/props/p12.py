from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla and spec/GenC.tla concentrated on determinants (sizes 1 to 4, batch
dimensions, constant rows, sparse, dense and complex entries, determinants of results of determinants), replayed for
several thresholds; sign and log-modulus are compared with cofactor expansion of jets. Non-trivial: at least two
operations on inputs.'''
ASSUMPTIONS = ['Matrices are generated away from singularity.']


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 150 * n, dict(Kinds='<- gKindsDet', InputShapes='<- gShapesDet', Depth=7), seed=121)
    lines += generate(ctx, 110 * n, dict(Kinds='<- gKindsDet', InputShapes='<- gShapesDet', Depth=8), base='GenC.cfg', module='GenC', seed=122)
    lines += generate(ctx, 50 * n, dict(Kinds='<- gKindsDet2', InputShapes='<- gShapesDet2', Depth=7), base='GenC.cfg', module='GenC', seed=123)
    replay_programs(ctx, [l for l in lines if 'slogdet' in l], lambda i: [[0], ['N'], [2], [0, 0.5], [1]][i % 5])
