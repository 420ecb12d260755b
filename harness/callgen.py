"""Histories of calls (CallHist.tla), shared by the checks that replay them (parent side)."""
from gen import load, run_tasks
from tlc import Tlc


def histories(ctx, num, seed, over=None):
    over = over or {}
    with Tlc() as t:
        lines, s = t.simulate('CallHist', t.cfg('SimCallHist.cfg', over), num, int(over.get('MaxCalls', 5)) + 3, ctx.seed * 7919 + seed, procs=8)
    ctx.cov['states'] = ctx.cov.get('states', 0) + s
    ctx.log(f'{len(lines)} histories of CallHist ({s} states)')
    return sorted(set(lines))


def fmt(b):
    c = b['c']
    thr = [t['num'] if t['den'] == 1 else f"{t['num']}/{t['den']}" for t in c['thr']]
    return f'rows of {c["G"]}, thresholds {thr}: ' + '; '.join(
        f'{["f", "g", "operator"][q["obj"] - 1]}({q["args"]}, {q["mode"]}, weights {q["wform"]} {q["w"]}, precision {q["f4"]})' for q in b['calls'])


def replay_histories(ctx, lines):
    behs = {l: load(l) for l in lines}
    for l in lines[:2]:
        ctx.sample(fmt(behs[l])[:400])
    tasks = [dict(beh=l, i=i) for i, l in enumerate(lines)]
    run_tasks(ctx, 'callhist', 'run', tasks, lambda t: fmt(behs[t['beh']]), key=lambda t: t['beh'])
