from callgen import histories, replay_histories
from gen import generate, replay_programs

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenR.tla restricted to operations with a sparsity rule; the specification carries
for every threshold whether each intermediate must be stored sparse (and with at most how many columns) or dense, and
which inputs each element may be attributed to. Random histories of spec/CallHist.tla: every call of one transformed function
applies the threshold to its own inputs. Non-trivial: at least two operations on inputs.'''
ASSUMPTIONS = ['The storage model in RepApply of spec/FwdLapl.tla leaves combinations open ("?") where the documented rules do not decide.']


def check(ctx):
    n = 6 if ctx.thorough else 1
    lines = generate(ctx, 240 * n, dict(Kinds='<- gKindsS', UnNames='<- gUnS'), seed=31)
    replay_programs(ctx, lines, lambda i: [[1, 'N'], [2, 0.5], [3, 'N-1'], [4, 0.4]][i % 4], what=('rep',), eff=True)
    replay_histories(ctx, histories(ctx, 50 * n, 32, dict(MaxCalls=4)))
