"""Replaying configurations of BatchVmap.tla (worker side)."""
import jax
import jax.numpy as jnp
import numpy as np
import folxrun  # noqa: F401  (configures jax)
from folx import batched_vmap
from gen import load

NOAX, DESC = 99, 98
SIZES = []


@jax.custom_batching.custom_vmap
def probe(x):
    return x


@probe.def_vmap
def _(axis_size, in_batched, x):
    SIZES.append(axis_size)
    return x, in_batched[0]


def tree(t, leaf):
    if t['t'] == 'leaf':
        return leaf(t['i'])
    c = [tree(x, leaf) for x in t['c']]
    return dict(zip('abcdef', c)) if t['t'] == 'dict' else tuple(c) if t['t'] == 'tuple' else c


def axes(t):
    if t['ax'] != DESC:
        return None if t['ax'] == NOAX else t['ax']
    c = [axes(x) for x in t['c']]
    return dict(zip('abcdef', c)) if t['t'] == 'dict' else tuple(c) if t['t'] == 'tuple' else c


def setup(b, as_list=False, tap=probe, at=None):
    c = b['c']
    xs = [np.array(l['d'], np.int64 if l['int'] else np.float64).reshape(sh) for l, sh in zip(c['leaves'], b['in'])]
    args = tuple(tree(t, lambda i: jnp.asarray(xs[i - 1])) for t in c['args'])
    in_axes = c['gax'] if c['gax'] != DESC else tuple(axes(t) for t in c['args'])
    if as_list and isinstance(in_axes, tuple):
        in_axes = list(in_axes)
    out_axes = c['ogax'] if c['ogax'] != DESC else axes(c['out'])
    mapped = [q for q, l in enumerate(c['leaves']) if l['ax'] != NOAX]

    def fn(*args, kw):
        ls = []
        jax.tree_util.tree_map(ls.append, args)
        ls = jax.tree_util.tree_leaves(args)
        # leaves in the order of the specification (dictionaries are ordered alike)
        red = []
        for q, l in enumerate(ls):
            if q == (mapped[0] if at is None else at):
                l = tap(l)
            red.append(jnp.sum(l.reshape(-1) * np.arange(1, l.size + 1)))

        def out(i):
            o = c['outs'][i - 1]
            s = sum([w * r for w, r in zip(o['w'], red) if w], 0.0) + i
            n = int(np.prod(o['esh'], dtype=int))
            return (s + np.arange(1, n + 1).reshape(o['esh']) * kw) * jnp.ones(o['esh'])

        return tree(c['out'], out)

    exp = tree(c['out'], lambda i: np.array(b['exp'][i - 1]['d'], float).reshape(b['exp'][i - 1]['sh']))
    return fn, args, in_axes, out_axes, exp


def compare(got, exp, what):
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    if tg != te:
        return [f'{what}: structure {tg} instead of {te}']
    for i, (g, e) in enumerate(zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(exp))):
        if g.shape != e.shape:
            return [f'{what}: result {i} has shape {g.shape} instead of {e.shape}']
        if not np.allclose(g, e, rtol=1e-9, atol=1e-9):
            return [f'{what}: result {i} is {np.asarray(g).ravel()[:12]} instead of {e.ravel()[:12]}']
    return []


def run(arg):
    b = load(arg['beh'])
    c = b['c']
    fn, args, in_axes, out_axes, exp = setup(b, arg['as_list'])
    bad, ran = [], 0
    # vectorising at once is what the specification says
    ref = jax.vmap(lambda *a: fn(*a, kw=c['kw']), in_axes=in_axes if not isinstance(in_axes, list) else tuple(in_axes), out_axes=out_axes)(*args)
    m = compare(ref, exp, 'jax.vmap')
    if m:
        raise AssertionError('specification and jax.vmap differ: ' + m[0])
    for M in sorted({c['M'], 1, max(1, c['B'] - 1), c['B'] + 1, *arg['Ms']}):
        SIZES.clear()
        f = batched_vmap(fn, M, in_axes=in_axes, out_axes=out_axes)
        g = (lambda *a: f(*a, kw=c['kw']))
        what = f'max_batch_size={M}, batch {c["B"]}'
        got = (jax.jit(g) if (M + arg['i']) % 3 == 0 else g)(*args)
        ran += 1
        bad += compare(got, exp, what)
        if SIZES and max(SIZES) > M:
            bad.append(f'{what}: applied to {max(SIZES)} elements at once')
        if bad:
            break
    return dict(bad=bad, ran=ran)
