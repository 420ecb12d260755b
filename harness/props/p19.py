from gen import generate, replay_programs
from nattrace import natural_ad

LEVEL = 'model_checking'
RULE = '''Random behaviours with whole Hessians (Full = TRUE) of spec/GenR.tla (real), spec/GenC.tla (real inputs, complex
intermediates) and spec/GenH.tla (complex inputs, holomorphic); jacfwd, jacrev, hessian and vjp of folx.ad of the last
intermediates as functions of the inputs must return the matrices of the specification. The same for recorded functions
(natfuns.py, validated by TraceR and TraceC). Non-trivial: two operations.'''
ASSUMPTIONS = ['Functions of complex inputs are holomorphic.']


def check(ctx):
    n = 8 if ctx.thorough else 1
    for family, s in (('R', 700), ('C', 750)):
        natural_ad(ctx, range(s, s + n), None if ctx.thorough else lambda nm, i, s: (i + ctx.seed) % 2 == 0, family)
    real = dict(Full='TRUE', Depth=6, MaxSize=9)
    a = generate(ctx, 80 * n, real, seed=191)
    b = generate(ctx, 90 * n, dict(real, Depth=7), base='GenC.cfg', module='GenC', seed=192)
    c = generate(ctx, 60 * n, dict(Depth=6, MaxSize=9), base='GenH.cfg', module='GenH', seed=193)
    replay_programs(ctx, a, [0], mod='adh', per=lambda i: dict(cplx=0, jit=i % 2))
    replay_programs(ctx, b, [0], mod='adh', per=lambda i: dict(cplx=0, jit=i % 2))
    replay_programs(ctx, c, [0], mod='adh', per=lambda i: dict(cplx=1, jit=i % 2))
