"""Recorded programs (harness/natural.py) validated by spec/TraceR and compared with the
implementation (parent side; never imports jax)."""
import json
import os
from concurrent.futures import ThreadPoolExecutor

from gen import WORKERS, load, run_tasks
from pool import Pool
from tlc import Tlc, TLCError


def collect(mod, fn, tasks, deadline):
    out = [None] * len(tasks)
    for i, st, val in Pool(WORKERS).map(mod, fn, tasks, deadline=deadline):
        if st != 'ok':
            raise TLCError(f'{mod}.{fn}({str(tasks[i])[:200]}): {st} {val}')
        out[i] = val
    return [o for o in out if o is not None]


def validate(recs, module, over=None):
    """what the specification says about the outputs of every record"""
    procs = min(WORKERS, 4)
    with Tlc() as t:
        def go(i):
            part = list(range(i, len(recs), procs))
            if not part:
                return 0
            inp, out = t.path(f'trace{i}'), t.path(f'out{i}')
            with open(inp, 'w') as f:
                json.dump([recs[q]['rec'] for q in part], f)
            open(out, 'w').close()
            r = t.run(module, t.cfg(module + '.cfg', over or {}), env=dict(TRACE_IN=inp, TRACE_OUT=out), timeout=500)
            for l in open(out):
                d = load(l)
                recs[part[d['id'] - 1]].update(at=d['at'], out=d['out'])
            os.remove(out)
            return r.distinct

        with ThreadPoolExecutor(procs) as ex:
            return sum(ex.map(go, range(procs)))


def prepare(ctx, seeds, only, family, over=None, pts=(0,), **kw):
    """records the specification accepts (at every point, if there are several: then 'out' is the list of the outputs)"""
    names = collect('natural', 'names', [family], ctx.deadline)[0]
    tasks = [dict(name=nm, seed=ctx.seed * 1000 + s, pt=p, **kw)
             for s in seeds for i, nm in enumerate(names) if only is None or only(nm, i, s) for p in pts]
    made = collect('natural', 'make', tasks, ctx.deadline)
    recs = [r for r in made if 'rec' in r]
    states = validate(recs, 'Trace' + family, over)
    ok = {}
    for r in recs:
        if r.get('at') == 0:
            ok.setdefault((r['name'], r['seed']), {})[r['pt']] = r
    good = [dict(o[0], out=[o[p]['out'] for p in pts] if len(pts) > 1 else o[0]['out']) for o in ok.values() if len(o) == len(pts)]
    skipped = sum(m.get('no') in ('many inputs', 'reverse') for m in made) // len(pts)
    cases = len(tasks) // len(pts) - skipped
    for k, v in (('states', states), ('recorded_functions', len(good)), ('not_recorded', cases - len(good))):
        ctx.cov[k] = ctx.cov.get(k, 0) + v
    ctx.log(f'{cases} recorded functions, {len(good)} accepted by Trace{family} ({states} states)')
    if len(good) < 0.7 * cases:
        raise TLCError('too few recorded programs are behaviours of the specification')
    return good


def execute(ctx, fn, todo):
    for t in todo:
        t.pop('rec')
    run_tasks(ctx, 'natural', fn, todo, lambda t: f'natfuns.{t["name"]} (parameters {t["seed"]})', key=lambda t: f'{t["name"]}/{t["seed"]}')


def natural(ctx, seeds, Ts, what=('x', 'J', 'L', 'dense', 'rep'), weighted=False, only=None, mode='cap', family='R'):
    """only: predicate on (name, index, seed)"""
    good = prepare(ctx, seeds, only, family, weighted=weighted)
    execute(ctx, 'run', [dict(r, Ts=Ts, what=list(what), mode=mode) for r in good])


def natural_modes(ctx, seeds, per, only=None, family='R'):
    """the same function at two points in several evaluation modes"""
    good = prepare(ctx, seeds, only, family, pts=(0, 1))
    execute(ctx, 'run_modes', [dict(r, **per(i)) for i, r in enumerate(good)])


def natural_operators(ctx, seeds, per, only=None):
    good = prepare(ctx, seeds, only, 'R', pts=(0, 1), scalar=True, reverse=True)
    execute(ctx, 'run_operators', [dict(r, **per(i)) for i, r in enumerate(good)])


def natural_ad(ctx, seeds, only=None, family='R', size=9):
    good = prepare(ctx, seeds, only, family, dict(Full='TRUE'), max=size, reverse=True)
    execute(ctx, 'run_ad', [dict(r, jit=i % 2) for i, r in enumerate(good)])
