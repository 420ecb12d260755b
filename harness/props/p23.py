from callgen import histories, replay_histories
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/CallHist.tla: TLC explores all short histories of calls served by a machine that keeps compiled programs per call
signature, and checks that every call is served as if it were the first. Random histories of five calls of two transformed
functions and an operator made from one user function (sizes, containers, precisions, weights, modes of evaluation and failing
calls vary from call to call, later calls repeat parts of earlier ones) are executed; every call must return the numbers,
precisions and storage the specification computes from that call alone. Non-trivial: all (two or more calls).'''
ASSUMPTIONS = ['One user function (row sums of weighted squares, products, a total) with integer data.']


def check(ctx):
    n = 1200 if ctx.thorough else 110
    with Tlc() as t:
        r = t.run('CallHist', t.cfg('MCCallHist.cfg', dict(MaxN=6) if ctx.thorough else {}), workers=1, env={'GEN_OUT': '/dev/null'}, timeout=600)
        ctx.cov['states'] = r.distinct
        ctx.log(f'{r.distinct} states, all invariants hold')
    replay_histories(ctx, histories(ctx, n, 23))
