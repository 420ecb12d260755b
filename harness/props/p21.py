import json

from gen import load, run_tasks
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/SparseJac.tla: for all small containers (every index pattern with padding and repetition, every number of dense rows), all pairs
of them and all lists of rows TLC checks that the representation-level operations commute with reading the full matrix. Random histories
of six operations (sum, densify, real, imaginary, conjugate, conversions, rows for lists of inputs) on pools of up to nine triples are
replayed on the containers, eagerly and compiled, for several array shapes; after each operation the container, its mask and its dense forms
must read as the specified matrix. Non-trivial: a sparse container and at least two kinds of operations.'''
ASSUMPTIONS = ['Requested inputs are distinct per entry except for padding (as all callers in folx do).', 'Stored values of padding are zero.']


def fmt(b):
    c = lambda j: f'{"dense" if j["dense"] else "sparse"} {j["k"]}x{j["m"]}{" complex" if j["cx"] else ""} {"" if j["dense"] else j["idx"]} {j["d"]}'  # noqa: E731
    o = lambda o: f'{o["o"]}({o["a"]}{"," + str(o["b"]) if "b" in o else ""}{"," + o["f"] if "f" in o else ""}{"," + str(o["l"]) if "l" in o else ""})'  # noqa: E731
    return '; '.join([*map(c, b['pool'][:3]), *map(o, b['ops'])])


def check(ctx):
    n = 6000 if ctx.thorough else 420
    with Tlc() as t:
        env = {'GEN_OUT': '/dev/null'}
        overs = [{}, dict(N=2, Ms='{2}', MaxOps=1)] if not ctx.thorough else [dict(MaxK=3), dict(N=2, Ms='{2}', MaxOps=2), dict(N=4, MaxOps=2, MaxQ=3)]
        ctx.cov['states'] = 0
        for o in overs:
            r = t.run('SparseJac', t.cfg('MCSparseJac.cfg', o), workers=8, env=env, timeout=2400, heap='6g')
            ctx.cov['states'] += r.distinct
        ctx.log(f'{ctx.cov["states"]} states, all invariants hold')
        lines, s = t.simulate('SparseJac', t.cfg('SimSparseJac.cfg', {}), n, 9, ctx.seed * 7919 + 21, procs=8)
    ctx.cov['states'] += s
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l])[:500])
    tasks = [dict(beh=l, i=i, N=4) for i, l in enumerate(lines)]

    def key(t):
        b = behs[t['beh']]
        return json.dumps([b['pool'][:3], b['ops']]) if not all(j['dense'] for j in b['pool']) and len({o['o'] for o in b['ops']}) > 1 else None

    run_tasks(ctx, 'sparsejac', 'run', tasks, lambda t: fmt(behs[t['beh']]), key=key)
