import json

from gen import load, run_tasks
from nattrace import natural_modes
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/BatchVmap.tla: TLC checks the chunked execution for all batch sizes up to 24 and maxima up to 26 (every element
once, in order, chunks bounded). Random configurations (argument and result trees with axes for whole trees or single leaves,
positive and negative, unmapped parts, empty containers, batches of 0-9) are executed with five maxima each; structure, shapes and
entries must be those of the specification and no chunk may exceed the maximum. Transformed recorded functions (natfuns.py,
validated by TraceR) are applied to batches of five points in chunks. Non-trivial: more elements than the maximum.'''
ASSUMPTIONS = ['Functions are linear in their arguments with integer data, so that every entry identifies its source.']


def fmt(b):
    c = b['c']

    def tr(t):
        a = '' if t['ax'] == 98 else '@None' if t['ax'] == 99 else f'@{t["ax"]}'
        return (f'x{t["i"]}' if t['t'] == 'leaf' else t['t'] + '(' + ', '.join(tr(x) for x in t['c']) + ')') + a

    return (f'B={c["B"]} M={c["M"]} args {", ".join(map(tr, c["args"]))}{"" if c["gax"] == 98 else "@%d" % c["gax"]} shapes {b["in"]} '
            f'-> {tr(c["out"])}{"" if c["ogax"] == 98 else "@%d" % c["ogax"]} shapes {[e["sh"] for e in b["exp"]]}')


def check(ctx):
    n = 4000 if ctx.thorough else 360
    with Tlc() as t:
        over = dict(MaxB=60, MaxM=62) if ctx.thorough else {}
        r = t.run('BatchVmap', t.cfg('MCBatchVmap.cfg', over), workers=4, env={'GEN_OUT': '/dev/null'})
        ctx.cov['states'] = r.distinct
        ctx.log(f'{r.distinct} states, all invariants hold')
        lines, s = t.simulate('BatchVmap', t.cfg('SimBatchVmap.cfg', {}), n, 3, ctx.seed * 7919 + 9, procs=8)
    ctx.cov['states'] += s
    lines = sorted(set(lines))
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l])[:400])
    tasks = [dict(beh=l, i=i, as_list=i % 4 == 0, Ms=[2, 3] if i % 2 else [4]) for i, l in enumerate(lines)]

    def key(t):
        b = behs[t['beh']]
        return json.dumps([b['c'], t['i']]) if b['c']['B'] > 1 else None

    natural_modes(ctx, range(900, 908 if ctx.thorough else 901), lambda i: dict(T=['N', 0, 2][i % 3], modes=['batched'], M=[2, 3, 4, 1, 5, 6][i % 6]),
                  None if ctx.thorough else lambda nm, i, s: (i + ctx.seed) % 3 == 0)
    run_tasks(ctx, 'batchvmap', 'run', tasks, lambda t: fmt(behs[t['beh']]), key=key)
