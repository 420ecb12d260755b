import json
import os

from gen import WORKERS, load, run_tasks
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/Registry.tla: TLC explores every reachable registry (all histories of registering and removing 3 rules for 3
function names and a primitive) and checks the invariants (latest rule, locality, restoration, shadowing, undo) on a family
of nested programs. Random histories of registrations, removals, queries and transformations (calls nested in calls and
loops, constant calls, repeated programs) are replayed step by step; every transformed program must have exactly the
factors the specification computes. Non-trivial: the history transforms at least one program while a rule is registered.'''
ASSUMPTIONS = ['Rules of the replayed histories multiply by a constant of their own, so that the result tells which were used.']


def fmt(b):
    def prog(p):
        return ' '.join((h['n'] or h['k']) + (f'[{prog(h["b"])}]' if h['b'] else '') for h in p)

    return '; '.join(f'{h["op"]} ' + (prog(h['p']) if h['op'] == 'transform' else f'{h["n"]} {h["r"]}') for h in b['hist'])


def key(b):
    regd = False
    for h in b['hist']:
        regd = regd or h['op'] == 'register'
        if regd and h['op'] == 'transform':
            return json.dumps(b['hist'], sort_keys=True)
    return None


def check(ctx):
    n = 1500 if ctx.thorough else 110
    with Tlc() as t:
        over = dict(Names='{"fa", "fb", "fc", "fd", "neg"}') if ctx.thorough else {}
        r = t.run('Registry', t.cfg('MCRegistry.cfg', over), workers=4, env={'GEN_OUT': os.devnull}, timeout=900)
        ctx.cov['states'] = r.distinct
        ctx.log(f'{r.distinct} registries, all invariants hold')
        d = 20 if ctx.thorough else 14
        lines, s = t.simulate('Registry', t.cfg('SimRegistry.cfg', dict(Depth=d)), n, d + 2, ctx.seed * 7919 + 8, procs=4)
    ctx.cov['states'] += s
    behs = [load(l) for l in lines]
    for b in behs[:3]:
        ctx.sample(fmt(b))
    keys = {l: key(b) for l, b in zip(lines, behs)}
    run_tasks(ctx, 'registry', 'run', [dict(beh=l) for l in lines], lambda t: fmt(load(t['beh'])), key=lambda t: keys[t['beh']])
