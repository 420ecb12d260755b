import json

from gen import fmt_prog, load, prog_key, run_tasks
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''Random behaviours of spec/GenA.tla: an array program followed by a block, that is a function of up to three
intermediates and constants (repeated or not, in any order) written with operations on trailing axes, together with every
annotation that is true of it (axes it acts on, linear in all / one / the first argument, multiplication, dot product, summation,
reduction, index function with its position arguments, joint derivatives, sparse traces). The block is wrapped with the
annotations, applied to sparse, dense and mixed arguments at several thresholds and compared with the specification, in which
annotations do not exist. Non-trivial: a block with at least one operation whose arguments come out of at least one operation.'''
ASSUMPTIONS = ['Annotated axes are trailing axes of every argument (or reduced ones for summations), as the library documents for its rules.']


def fmt(b):
    loc = '; '.join(f"{o['o']}{':' + o['f'] if o['f'] else ''}{tuple(o['a'])}{o['k'] or ''}" for o in b['blk']['ops'])
    shs = [b['env'][i - 1]['sh'] for i in b['blk']['par']]
    return f'{b["blk"]["cls"]} block of {b["blk"]["par"]} {shs}: {loc} -> {b["outs"]} after {fmt_prog(b)}'


def check(ctx):
    n = 8 if ctx.thorough else 1
    with Tlc() as t:
        lines, states = t.simulate('GenA', t.cfg('GenA.cfg', {}), 460 * n, 15, ctx.seed * 7919 + 22, procs=8)
    ctx.cov['states'] = states
    behs = {l: load(l) for l in lines}
    ctx.log(f'{len(lines)} behaviours ({states} states)')
    for l in lines[:3]:
        ctx.sample(fmt(behs[l])[:400])
    tasks = [dict(beh=l, per=6 if ctx.thorough else 3, seed=i) for i, l in enumerate(lines)]
    run_tasks(ctx, 'annot', 'run', tasks, lambda t: fmt(behs[t['beh']]), key=lambda t: prog_key(behs[t['beh']]) + json.dumps(behs[t['beh']]['blk']))
