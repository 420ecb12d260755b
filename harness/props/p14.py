import json
import logging
import os

from gen import load, run_tasks
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/LogPrefix.tla: TLC explores all interleavings of entering, warning, leaving, failing and recovering of three
threads (nesting depth two; more in the thorough tier) and checks that the logger is restored whenever nothing is being
processed and otherwise shows the most recently entered operation. Random schedules are forced on real threads that
run nested transformations (a registered operation waits for the schedule); after every step the emitted text and, if nothing is
being processed, the configuration of the root logger are compared. The same histories also run unsynchronised with a tiny switch
interval, where the final configuration and one emission per warning are required. Non-trivial: at least two operations overlap.'''
ASSUMPTIONS = ['Schedules switch threads between the steps of the specification; finer interleavings only occur in the unsynchronised runs.']


def fmt(b):
    return ' '.join(f'{h["a"]}{h["t"]}' for h in b['hist'])


def check(ctx):
    n = 1200 if ctx.thorough else 200
    with Tlc() as t:
        over = dict(Threads='{1, 2, 3, 4}') if ctx.thorough else {}
        r = t.run('LogPrefix', t.cfg('MCLogPrefix.cfg', over), workers=4, env={'GEN_OUT': os.devnull}, timeout=1200)
        ctx.log(f'{r.distinct} states, all invariants hold')
        # the specification tells a nested from an interleaved history: saving what is found is not enough
        r2 = t.run('LogPrefix', t.cfg('MCLogPrefix.cfg', dict(Algo='"nested"')), allow=None, env={'GEN_OUT': os.devnull})
        assert r2.violated, 'the specification accepts the algorithm that is known to be wrong'
        ctx.cov['states'] = r.distinct
        d = 24 if ctx.thorough else 14
        lines, s = t.simulate('LogPrefix', t.cfg('SimLogPrefix.cfg', dict(Depth=d)), n, d + 60, ctx.seed * 7919 + 14, procs=4)
        l1, s1 = t.simulate('LogPrefix', t.cfg('SimLogPrefix.cfg', dict(Depth=10, Threads='{1}', MaxDepth=4)), n // 5, 70, ctx.seed * 7919 + 15, procs=4)
    ctx.cov['states'] += s + s1
    lines = [l for l in lines + l1 if l]
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l]))
    LV = [logging.WARNING, logging.INFO, logging.DEBUG, logging.ERROR]
    tasks = []
    for i, l in enumerate(lines):
        for free in ([0, 1] if i % 2 == 0 else [0]):
            tasks.append(dict(beh=l, free=free, jit=i % 3 == 0, T=[0, 2, 0.5][i % 3], norig=[1, 2, 0][i // 2 % 3], level=LV[(i // 3) % 4 if i % 5 == 0 else i % 3]))

    def key(t):
        return json.dumps([t['beh'], t['free']]) if any(len(h['act']) > 1 for h in behs[t['beh']]['hist']) else None

    run_tasks(ctx, 'logprefix', 'run', tasks, lambda t: f'{"free run of " if t["free"] else ""}{fmt(behs[t["beh"]])}', key=key)
