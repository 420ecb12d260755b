import json

from gen import load, run_tasks
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/RefEnv.tla: TLC enumerates all programs of up to two equations with two results (and three with one) over two
inputs, including calls of programs with unused, repeated and forwarded parameters, and checks that the reference counted
environment never misses a value and keeps exactly what is still read. Random larger programs with nested calls, repeated operands, literals,
dead results and repeated outputs are executed by the implementation without compilation; whenever an operation runs, the
arrays that exist (weak references) must include all that are needed and no others than the specification allows; results are compared.
Non-trivial: at least three operations.'''
ASSUMPTIONS = ['Existence is observed between operations in eager execution; the operands and results of the operation executed last may exist.']


def fmt(P):
    out = []
    for q in P['body']:
        out.append(f'op{tuple(q["a"])}->{q["m"]}' if q['k'] == 'op' else f'call{tuple(q["a"])}[{fmt(q["sub"])}]')
    return f'{P["p"]}: ' + '; '.join(out) + f' => {P["outs"]}'


def check(ctx):
    n = 6000 if ctx.thorough else 700
    env = {'GEN_OUT': '/dev/null'}
    with Tlc() as t:
        overs = [dict(), dict(MaxEqn=3, MaxOut=1, Calls='FALSE')]
        if ctx.thorough:
            overs = [dict(), dict(MaxEqn=3, MaxOut=1), dict(MaxIn=1, MaxEqn=4, MaxOut=1, Calls='FALSE')]
        ctx.cov['states'] = 0
        for o in overs:
            r = t.run('RefEnv', t.cfg('MCRefEnv.cfg', o), workers=8, env=env, timeout=1800, heap='6g')
            ctx.cov['states'] += r.distinct
        ctx.log(f'{ctx.cov["states"]} states, all invariants hold')
        lines, s = t.simulate('RefEnv', t.cfg('SimRefEnv.cfg', {}), n, 120, ctx.seed * 7919 + 13, procs=8)
    ctx.cov['states'] += s
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l]['main'])[:400])
    tasks = [dict(beh=l, consts=[0, 2, 4, 6][i % 4], Ts=[[0, 100], [100], [2, 0.5]][i % 3]) for i, l in enumerate(lines)]
    run_tasks(ctx, 'refenv', 'run', tasks, lambda t: fmt(behs[t['beh']]['main']),
              key=lambda t: json.dumps(behs[t['beh']]['main']) if len(behs[t['beh']]['obs']) > 2 else None)
