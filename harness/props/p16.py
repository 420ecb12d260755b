import json
from concurrent.futures import ThreadPoolExecutor

from gen import load, run_tasks
from props.p09 import fmt
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/AutoBatch.tla: for all small costs, limits, fractions and batch sizes TLC checks that the machine (query, estimate, choose,
execute chunks) chooses the largest size that fits. Random configurations of BatchVmap.tla are executed with reported limits at, just below and
just above the estimate of k elements, fractions 1, 3/4, 1/2, 1/4, and with devices that report nothing, no limit or fail; results must be
those of the specification. The chunk sizes that are executed (observed with a callback) must be those which TLC derives from the two programs
(MemPeak.tla) and the limit. Non-trivial: at least two elements.'''
ASSUMPTIONS = ['The chunk size is observable up to the number of elements.', 'The device is a stand-in for its statistics only.']


def judge(ctx, tasks, got, describe, width=8):
    flat = [(i, o) for i in sorted(got) for o in got[i]['obs']]
    parts = [flat[w::width] for w in range(width) if flat[w::width]]
    with Tlc() as t:
        def go(w):
            src, out = t.path(f'ab{w}.json'), t.path(f'ab{w}.out')
            open(out, 'w').close()
            with open(src, 'w') as f:
                json.dump([o for _, o in parts[w]], f)
            r = t.run('AutoBatch', t.cfg('GivenAutoBatch.cfg', {}), env={'MEM_IN': src, 'GEN_OUT': out}, timeout=600, heap='3g')
            return r.distinct, [load(l) for l in open(out)]

        with ThreadPoolExecutor(width) as ex:
            res = list(ex.map(go, range(len(parts))))
    n = 0
    for w, (s, ls) in enumerate(res):
        ctx.cov['states'] += s
        assert len(ls) == len(parts[w]), (len(ls), len(parts[w]))
        for d in ls:
            i, o = parts[w][d['i'] - 1]
            n += 1
            if o['used'] != d['used']:
                ctx.violate(f'{o["used"]} of {o["nb"]} elements at once instead of {d["used"]}: limit {o["lim"]}, fraction {o["num"]}/{o["den"]}, '
                            f'one element {d["c1"]}, two {d["c2"]}\n  in {describe(tasks[i])}', dict(mod='autobatch', fn='run', task=tasks[i], want=d))
    ctx.log(f'{n} choices compared')


def check(ctx):
    n = 1500 if ctx.thorough else 150
    with Tlc() as t:
        over = dict(MaxCost=9, MaxLim=40, MaxB=9) if ctx.thorough else {}
        r = t.run('AutoBatch', t.cfg('MCAutoBatch.cfg', over), workers=4, env={'GEN_OUT': '/dev/null', 'MEM_IN': ''})
        ctx.cov['states'] = r.distinct
        ctx.log(f'{r.distinct} states, all invariants hold')
        lines, s = t.simulate('BatchVmap', t.cfg('SimBatchVmap.cfg', dict(MaxB=11)), n, 3, ctx.seed * 7919 + 16, procs=8)
    ctx.cov['states'] += s
    lines = sorted(set(lines))
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l])[:400])
    tasks = [dict(beh=l, i=i, seed=ctx.seed * 1000 + i, n=8 if ctx.thorough else 4) for i, l in enumerate(lines)]

    def key(t):
        b = behs[t['beh']]
        return json.dumps([b['c'], t['i']]) if b['c']['B'] > 1 else None

    got = {}
    describe = lambda t: fmt(behs[t['beh']])  # noqa: E731
    run_tasks(ctx, 'autobatch', 'run', tasks, describe, key=key, collect=got)
    judge(ctx, tasks, got, describe)
