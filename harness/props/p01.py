from gen import generate, replay_programs
from nattrace import natural
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/MCJet.tla: TLC enumerates all short compositions of sums, products, linear maps and polynomial functions over two
weighted inputs and checks that the propagated triplets (with Laplacian and with whole Hessian) are the exact derivatives of the
resulting polynomials. spec/TabCheck.tla: the derivative tables against finite differences on a grid.
Random behaviours of spec/GenR.tla (TLC simulation): inputs, then operations chosen by the
specification, which also computes value, Jacobian and Laplacian of every intermediate; each is replayed into
forward_laplacian(f, 0) and every intermediate compared.
Recorded programs: functions written in ordinary JAX (harness/natfuns.py: networks, wave functions, linear algebra,
control flow, nested transformations) are traced, every recorded operation must be a transition of the specification
(spec/TraceR.tla), and what it computes for the outputs is compared with forward_laplacian(f, 0).
Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['Derivative tables of elementary functions in spec/TabR.tla agree with finite differences on a grid (spec/TabCheck.tla).',
               'Points are kept away from non-smooth points by the enabling conditions.']


def laws(ctx):
    """the rules of the specification against the definition of derivatives"""
    env = {'GEN_OUT': '/dev/null'}
    with Tlc() as t:
        runs = [('MCJet', dict(Xs='<- cXs2', Steps=2) if ctx.thorough else {}),
                ('TabCheck', dict(Grid='<- gGrid2') if ctx.thorough else {})]
        for mod, over in runs:
            r = t.run(mod, t.cfg(mod + '.cfg', over), workers=8, env=env, timeout=1500, heap='6g')
            ctx.cov['states'] = ctx.cov.get('states', 0) + r.distinct
            ctx.log(f'{mod}: {r.distinct} states, all invariants hold')


def check(ctx):
    laws(ctx)
    n = 5 if ctx.thorough else 1
    lines = generate(ctx, 420 * n, seed=1)
    lines += generate(ctx, 80 * n, dict(Depth=16, MaxSize=24), seed=2)
    # few inputs, larger arrays in between
    lines += generate(ctx, 130 * n, dict(Kinds='<- gKindsW', InputShapes='<- gShapesW', MaxSize=20), seed=3)
    replay_programs(ctx, lines, [0])
    natural(ctx, range(10) if ctx.thorough else [0], [0], what=('x', 'J', 'L'))
