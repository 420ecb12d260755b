"""Comparing automatic batching with AutoBatch.tla (worker side)."""
import random
import warnings

import jax
import numpy as np
import batchvmap
import memest
from batchvmap import compare
from folx import batched_vmap
from folx.experimental.vmap import auto_batched_vmap
from folx.experimental.memory import compute_memory
from gen import load

EXECUTED = []
STATS = [None]


@jax.custom_batching.custom_vmap
def tap(x):
    return x


@tap.def_vmap
def _(axis_size, in_batched, x):
    def record(v):
        EXECUTED.append(axis_size)
        return np.asarray(v)

    if not in_batched[0]:
        return x, False
    return jax.pure_callback(record, jax.ShapeDtypeStruct(x.shape, x.dtype), x), True


def memory_stats(self):
    if isinstance(STATS[0], Exception):
        raise STATS[0]
    return STATS[0]


def run(arg):
    type(jax.devices()[0]).memory_stats = memory_stats
    warnings.simplefilter('ignore')
    b, i = load(arg['beh']), arg['i']
    c = b['c']
    # the number of elements is observed at an argument that results depend on
    at = [q for q, l in enumerate(c['leaves']) if l['ax'] != batchvmap.NOAX and any(o['w'][q] and np.prod(o['esh']) for o in c['outs'])]
    fn, args, in_axes, out_axes, exp = batchvmap.setup(b, i % 4 == 0, tap, at[0] if at else None)
    rnd = random.Random(arg['seed'])
    # a static argument among the others
    static = rnd.randrange(len(args) + 1) if isinstance(in_axes, (tuple, list)) and i % 3 == 0 else None
    kw = {'kw': c['kw']}
    opt = {}
    if static is not None:
        inner = fn

        def fn(*a, kw):
            k = a[static]
            assert isinstance(k, int) and k == 3, k
            return inner(*a[:static], *a[static + 1:], kw=kw)

        args = (*args[:static], 3, *args[static:])
        in_axes = type(in_axes)([*in_axes[:static], None, *in_axes[static:]])
        opt['static_argnums'] = [static, (static,), static - len(args), (static - len(args),)][i // 3 % 4]
    cost = [compute_memory(batched_vmap(fn, n, in_axes, out_axes), *args, **opt, **kw) for n in (1, 2)]
    e = cost[1] - cost[0]
    bad, ran, obs = [], 0, []
    B = c['B']
    lims = []
    for k in {0, 1, rnd.randint(1, max(1, B)), B - 1, B, B + 1}:
        lims += [(cost[0] + (k - 1) * e + d, f) for d in {0, rnd.choice([-1, 1])} for f in [rnd.choice([(1, 1), (1, 2), (3, 4), (1, 4)])]]
    rnd.shuffle(lims)
    # ...of which the fraction is the limit
    lims = [(max(0, -(-l * den // num)), num, den) for l, (num, den) in lims[:arg['n']]]
    nothing = rnd.choice([None, {}, {'bytes_in_use': 7}, NotImplementedError('no statistics')])
    for lim, num, den in [(-1, 1, 2), *lims, (10 ** 8, 1, 4)]:
        STATS[0] = nothing if lim < 0 else {'bytes_limit': lim, 'bytes_in_use': 3}
        f = auto_batched_vmap(fn, in_axes, out_axes, max_fraction=num / den, **opt)
        EXECUTED.clear()
        what = f'limit {lim}, fraction {num}/{den}, costs {cost}, batch {B}'
        if (i + ran) % 5 == 0 and static is None:
            got = jax.jit(lambda *a: f(*a, **kw))(*args)
        else:
            got = f(*args, **kw)
        jax.block_until_ready(got)
        jax.effects_barrier()
        ran += 1
        bad += compare(got, exp, what)
        if at and sum(EXECUTED) != B and B > 0:
            bad.append(f'{what}: executed in chunks {EXECUTED}')
        if at and B > 0 and (e >= 0 or lim < 0):
            obs.append(dict(lim=lim, num=num, den=den, nb=B, used=max(EXECUTED)))
        if bad:
            break
    if obs:
        ex = [memest.extract(jax.make_jaxpr(batched_vmap(fn, n, in_axes, out_axes), **opt)(*args, **kw).jaxpr) for n in (1, 2)]
        obs = [dict(o, p1=ex[0], p2=ex[1]) for o in obs]
    return dict(bad=bad, ran=ran, obs=obs, kinds={f'slope {"+" if e > 0 else "-" if e < 0 else "0"}': 1})
