"""Wrapping the functions of GenA.tla with their true annotations (worker side)."""
import random

import jax
import jax.numpy as jnp
import numpy as np
from folx import forward_laplacian, wrap_forward_laplacian
from folx.api import FunctionFlags
from folxrun import apply_op, build, compare, dec, inputs, is_lapl, load, nvars, tensor
from replay import resolve_T
from stages import captured

WHAT = ('x', 'J', 'L', 'dense', 'dtype', 'rep')


def trailing(op, shs):
    """the operation on trailing axes, so that leading axes may be mapped away"""
    o, k = op['o'], op['k']
    if o in ('sum', 'prod', 'max', 'min'):
        ax = tuple(i - len(shs[0]) for i in k[0])
        f = dict(sum=jnp.sum, prod=jnp.prod, max=jnp.max, min=jnp.min)[o]
        return lambda x: f(x, axis=ax)
    if o in ('cumsum', 'cumprod'):
        ax, rev = k[0][0] - len(shs[0]), bool(k[1][0])
        f = dict(cumsum=jax.lax.cumsum, cumprod=jax.lax.cumprod)[o]
        return lambda x: f(x, axis=ax + jnp.ndim(x), reverse=rev)
    if o == 'bcast':
        n = k[0][-1]
        return lambda x: jnp.broadcast_to(x[..., None], (*x.shape, n))
    if o == 'const':
        v = dec(op['c'][0]).real
        return lambda: v
    return lambda *a: apply_op({**op, 'a': list(range(1, len(a) + 1))}, list(a))[0]


def function(beh):
    """the block as a Python function of its parameters"""
    blk = beh['blk']
    shs = [beh['env'][i - 1]['sh'] for i in blk['par']]
    steps = []
    for j, op in enumerate(blk['ops']):
        steps.append((trailing(op, [shs[i - 1] for i in op['a']]), op['a']))
        shs.append(beh['env'][blk['base'] + j]['sh'])

    def block(*params):
        loc = list(params)
        for f, a in steps:
            loc.append(f(*[loc[i - 1] for i in a]))
        out = [loc[i - 1] for i in beh['outs']]
        return out[0] if len(out) == 1 else tuple(out)

    return block


def blk_par(beh):
    return beh['blk']['par']


def index_function(beh, rng):
    """an index function, its arguments' positions and which of them are static"""
    op = beh['blk']['ops'][0]
    o, k = op['o'], op['k']
    if o == 'bcast':
        return (lambda x: jax.lax.broadcast_in_dim(x, k[0], k[1])), [], rng.choice([None, ()])
    if o == 'take' and rng.random() < 0.6:
        return (lambda x, i: jnp.take(x, i, axis=k[1][0], mode='clip')), [np.array(k[0])], rng.choice([(1,), slice(1, None), None])
    if o == 'select' and rng.random() < 0.6:
        return (lambda x, y, m: jnp.where(m, x, y)), [np.array(k[0]).reshape(beh['env'][blk_par(beh)[0] - 1]['sh']) == 1], rng.choice([(2,), slice(2, None)])
    if o == 'dslice' and rng.random() < 0.6:
        return (lambda x, *s: jax.lax.dynamic_slice(x, s, k[1])), [np.int32(s) for s in k[0]], rng.choice([slice(1, None), None])
    n = len(op['a'])

    def f(*a):
        if o == 'select':
            m = np.array(k[0]).reshape(a[0].shape) == 1
            return jnp.where(m, a[0], a[1])
        return apply_op({**op, 'a': list(range(1, n + 1))}, list(a))[0]

    return f, [], ()


def run(arg):
    beh = load(arg['beh'])
    rng = random.Random(arg['seed'])
    n, xs, blk = nvars(beh), inputs(beh), beh['blk']
    np_ = len(blk['par'])
    pre = beh['prog'][:blk['want']]
    pos = [blk['par'][i - 1] if i <= np_ else blk['base'] + i - np_ for i in beh['outs']]
    exp = [tensor(beh['env'][p - 1]) for p in pos]
    anns = sorted(beh['anns'], key=str)
    special = [a for a in anns if not a['none'] or a['fl']]
    picks = rng.sample(special, min(len(special), arg['per'])) if special else anns[:1]
    bad, ran, kinds = [], 0, {}
    for a in picks:
        T1, T2 = resolve_T(rng.choice(['N', 'N', 2, 0, 0.6]), n), resolve_T(rng.choice(['N', 'N', 1, 2, 3, 0]), n)
        flags = FunctionFlags.GENERAL
        for f in a['fl']:
            flags |= FunctionFlags[f]
        axes = None if a['none'] else a['ax'][0] if len(a['ax']) == 1 and rng.random() < 0.5 else tuple(a['ax'])
        kw = {}
        if blk['cls'] == 'idx':
            fn, more, static = index_function(beh, rng)
            kw['index_static_args'] = static
        else:
            fn, more = function(beh), []
        densify = [rng.random() < arg.get('dense', 0.15) for _ in blk['par']]
        label = f"in_axes={axes} flags={'|'.join(a['fl']) or 'GENERAL'} {kw} thresholds {T1}, {T2} dense {densify}"

        def g(*xs):
            env = forward_laplacian(build(pre), T1, disable_jit=True)(*xs)
            # the constants of the block stay concrete, like the constants of a traced program
            env = [r if is_lapl(r) else c for r, c in zip(env, consts)]
            args = [env[p - 1] for p in blk['par']]
            args = [r.dense if d and is_lapl(r) else r for r, d in zip(args, densify)]
            r = wrap_forward_laplacian(fn, in_axes=axes, flags=flags, **kw)((*args, *more), {}, T2)
            return list(r) if len(exp) > 1 else [r]

        consts = [tensor(t)['x'] for t in beh['env']]
        try:
            res = captured(g, xs)
        except Exception as ex:  # noqa: BLE001
            bad.append(f'{label}: raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        if len(res) != len(exp):
            bad.append(f'{label}: {len(res)} results instead of {len(exp)}')
            continue
        for r, e in zip(res, exp):
            kinds[r.kind] = kinds.get(r.kind, 0) + 1
            c = compare(r, e, n, WHAT)
            if c:
                bad.append(f'{label}: ' + '; '.join(s[:400] for s in c[:3]))
                break
    kinds[blk['cls']] = len(picks)
    return dict(bad=bad, ran=ran, kinds=kinds)
