from gen import generate, replay_programs
from nattrace import natural_modes

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla, evaluated by the specification at two input points; each is replayed
uncompiled, compiled (three calls in a row at different points), under an enclosing compilation, vectorised over a batch
(inside and outside of a compilation) and under rematerialisation; so are recorded
functions (natfuns.py, validated by TraceR and TraceC). Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = []
MODES = [['repeat', 'jitvmap'], ['outer', 'vmap'], ['repeat', 'checkpoint'], ['jitvmap', 'outer'], ['eager']]


def check(ctx):
    n = 8 if ctx.thorough else 1
    per = lambda i: dict(T=['N', 0, 2][i % 3], modes=MODES[i % 5])  # noqa: E731
    for family, s in (('R', 600), ('C', 650)):
        natural_modes(ctx, range(s, s + n), per, None if ctx.thorough else lambda nm, i, s: (i + ctx.seed) % 2 == 1, family)
    lines = generate(ctx, 90 * n, dict(Depth=8, Points=2), seed=181)
    lines += generate(ctx, 40 * n, dict(Kinds='<- gKindsDD', InputShapes='<- gShapesDD', NumV='<- gNum2', Depth=8, Points=2), seed=182)
    # derivatives that vanish for some inputs only
    lines0 = generate(ctx, 40 * n, dict(UnNames='{"relu", "clip", "floor", "sign", "square", "stop", "neg"}', Depth=7, Points=2), seed=183)
    replay_programs(ctx, lines0, [0], mod='stages', fn='run_modes',
                    per=lambda i: dict(T=['N', 2, 0, 1][i % 4], modes=[['eager', 'repeat'], ['eager']][i % 2]))
    replay_programs(ctx, lines, [0], mod='stages', fn='run_modes',
                    per=lambda i: dict(T=['N', 2, 0, 0.5, 1, 'N', 3][i % 7], modes=MODES[i % 5]))
