"""Model behaviours -> implementation, shared by the checks that replay random
array programs (parent side; never imports jax)."""
import json
import os

from pool import Pool
from tlc import Tlc

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load(line):
    d = json.loads(line)
    return json.loads(d) if isinstance(d, str) else d


def generate(ctx, num, over=None, base='GenR.cfg', module='GenR', seed=0, depth=10, extra=2):
    """num random behaviours of `module`; deterministic in (VERIF_SEED, seed)."""
    over = dict(over or {})
    over.setdefault('Depth', depth)
    with Tlc() as t:
        lines, states = t.simulate(module, t.cfg(base, over), num, int(over['Depth']) + extra, ctx.seed * 7919 + seed, procs=WORKERS, timeout=500)
    ctx.cov['states'] = ctx.cov.get('states', 0) + states
    ctx.log(f'{len(lines)} behaviours of {module} ({states} states)')
    return lines


def fmt_prog(beh):
    """One readable line per operation."""
    out = ['inputs ' + ' '.join(str(s) for s in beh['inp']['shs'])]
    for op in beh['prog']:
        out.append(f"{op['o']}{':' + op['f'] if op['f'] else ''}({','.join(map(str, op['a']))}){op['k'] if op['k'] else ''}")
    return '; '.join(out)


def prog_key(beh):
    return json.dumps([beh['inp']['shs'], [[o['o'], o['f'], o['a'], o['k']] for o in beh['prog']]])


def nontrivial(beh):
    """At least two operations on input-dependent values."""
    return sum(1 for op in beh['prog'] if op['o'] != 'const') >= 2


def run_tasks(ctx, mod, fn, tasks, describe, key=None, collect=None):
    """Runs tasks in worker processes. Each result must be a dict with `bad`
    (complaints), `ran` and `kinds`; describe(task) gives the text and the
    replayable case. Stops early once enough violations are known."""
    done = 0
    for i, st, val in Pool(WORKERS).map(mod, fn, tasks, deadline=ctx.deadline):
        done += 1
        if st != 'ok':
            ctx.violate(f'{st}: {val}\n  in {describe(tasks[i])}', dict(mod=mod, fn=fn, task=tasks[i]))
        else:
            ctx.count(key(tasks[i]) if key else i, val.get('ran', 1))
            for k, n in val.get('kinds', {}).items():
                ctx.cov.setdefault('kinds', {})
                ctx.cov['kinds'][k] = ctx.cov['kinds'].get(k, 0) + n
            if collect is not None:
                collect[i] = val
            if val['bad']:
                ctx.violate('; '.join(val['bad'][:3]) + f'\n  in {describe(tasks[i])}', dict(mod=mod, fn=fn, task=tasks[i]),
                            key=val.get('key'))
        if ctx.enough:
            break
    if done < len(tasks) and not ctx.enough:
        ctx.cov['skipped_for_time'] = ctx.cov.get('skipped_for_time', 0) + len(tasks) - done
    ctx.cov['traces_validated_against_impl'] = ctx.cov.get('traces_validated_against_impl', 0) + done


def replay_programs(ctx, lines, Ts, what=None, mode='cap', weights=False, eff=False, mod='replay', fn='run', per=None, **kw):
    """Ts: thresholds, or a function index -> thresholds."""
    tasks = []
    for i, l in enumerate(lines):
        t = dict(beh=l, Ts=Ts(i) if callable(Ts) else Ts, mode=mode, weights=weights, eff=eff, **kw)
        if per:
            t.update(per(i))
        if what:
            t['what'] = what
        tasks.append(t)
    behs = [load(l) for l in lines]
    for i in range(min(3, len(lines))):
        ctx.sample(fmt_prog(behs[i]))
    keys = {id(t): (prog_key(b) if nontrivial(b) else None) for t, b in zip(tasks, behs)}
    run_tasks(ctx, mod, fn, tasks, lambda t: fmt_prog(load(t['beh'])), key=lambda t: keys[id(t)])
    ops = {}
    for b in behs:
        for o in b['prog']:
            n = o['o'] + (':' + o['f'] if o['o'] in ('un', 'bin') else '')
            ops[n] = ops.get(n, 0) + 1
    ctx.cov.setdefault('operations', {})
    for k, v in ops.items():
        ctx.cov['operations'][k] = ctx.cov['operations'].get(k, 0) + v
