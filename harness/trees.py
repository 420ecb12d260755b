"""Replaying programs behind pytrees, keyword arguments and other dtypes (worker side)."""
from collections import namedtuple

import jax
import jax.numpy as jnp
import numpy as np
from folx import forward_laplacian
from folxrun import apply_op, compare, dec, fmt_op, inputs, load, nvars, op_of, tensor
from replay import resolve_T
from stages import CAP, JIT, captured, obs_jit

Pair = {k: namedtuple(f'Node{k}', [f'f{i}' for i in range(k)]) for k in range(9)}
LPL = lambda r: hasattr(r, 'jacobian')  # noqa: E731


def pack(t, leaf):
    c = [pack(x, leaf) for x in t['c']]
    k = t['t']
    if k == 'leaf':
        return leaf(t['i'])
    if k == 'none':
        return None
    if k == 'tuple':
        return tuple(c)
    if k == 'list':
        return c
    if k == 'dict':
        return dict(zip('abcdefgh', c))
    return Pair[len(c)](*c)


def kwargs_of(beh, conv=lambda v: v):
    out = {}
    for n, q in enumerate(beh['kw']):
        op = beh['prog'][q - 1]
        v = conv(np.array([dec(c).real for c in op['c']]).reshape(op['k'][0]))
        if n % 2:
            out.setdefault('nested', {'z': [], 'a': None})['z'].append(v)
        else:
            out[f'k{n}'] = v
    return out


def make(beh):
    ops, kws = beh['prog'], set(beh['kw'])

    def f(*args, **kw):
        env = jax.tree_util.tree_leaves(args)
        pos, n = 0, 0
        for q, op in enumerate(ops, 1):
            if q in kws:
                v = kw['nested']['z'][n // 2] if n % 2 else kw[f'k{n}']
                n += 1
                env += [v]
            else:
                env += apply_op(op, env)
        return pack_out(beh, env)

    return f


def pack_out(beh, env):
    return [pack(t, lambda i: env[i - 1]) for t in beh['tout']][0 if len(beh['prog']) % 3 else 1] \
        if len(beh['prog']) % 2 else tuple(pack(t, lambda i: env[i - 1]) for t in beh['tout'])


def args_of(beh, conv=lambda v, i: v):
    xs = inputs(beh)
    return tuple(pack(t, lambda i: conv(xs[i - 1], i)) for t in beh['tin'])


def run(arg):
    beh = load(arg['beh'])
    n, exp, ops = nvars(beh), [tensor(t) for t in beh['env']], op_of(beh)
    f = make(beh)
    T = resolve_T(arg['T'], n)
    mode = arg['mode']
    bad, kinds = [], {}
    if mode == 'values':
        args, kw = args_of(beh), kwargs_of(beh)
        want = pack_out(beh, list(range(len(exp))))
        flat, tree = jax.tree_util.tree_flatten(want)
        found = []

        def g(*a):
            r = forward_laplacian(f, T, disable_jit=True)(*a, **kw)
            leaves, t = jax.tree_util.tree_flatten(r, is_leaf=LPL)
            found[:] = [t]
            return leaves

        try:
            if arg['jit']:
                r = forward_laplacian(f, T)(*args, **kw)
                leaves, t = jax.tree_util.tree_flatten(r, is_leaf=LPL)
                found = [t]
                res = [obs_jit(x) for x in leaves]
            else:
                res = captured(g, args)
        except Exception as ex:  # noqa: BLE001
            return dict(bad=[f'threshold {T}: raised {type(ex).__name__}: {str(ex)[:400]}'], ran=1, kinds=kinds)
        if found[0] != tree:
            bad.append(f'result has structure {found[0]} instead of {tree}')
        else:
            for r, i in zip(res, flat):
                kinds[r.kind] = kinds.get(r.kind, 0) + 1
                c = compare(r, exp[i], n, JIT if arg['jit'] else CAP)
                if c:
                    bad.append(f'threshold {T}: output {fmt_op(ops[i], beh)}: ' + '; '.join(s[:300] for s in c[:3]))
        return dict(bad=bad, ran=1, kinds=kinds)

    # dtypes: the function itself says what each output is
    import contextlib
    from jax.experimental import disable_x64

    f32 = np.float32
    conv = {'f32': lambda v, i: v.astype(f32), 'x32': lambda v, i: v.astype(f32),
            'mixed': lambda v, i: v.astype(f32) if i % 2 else v,
            'mixed2': lambda v, i: v if i % 2 else v.astype(f32),
            'f16': lambda v, i: v.astype(np.float16)}[mode]
    kconv = (lambda v: v.astype(f32)) if mode in ('x32', 'f32') else (lambda v: v)
    with disable_x64() if mode == 'x32' else contextlib.nullcontext():
        args, kw = args_of(beh, conv), kwargs_of(beh, kconv)
        try:
            want = jax.eval_shape(f, *args, **kw)
        except Exception:  # noqa: BLE001
            return dict(bad=[], ran=0, kinds={'plain function rejects these dtypes': 1})
        try:
            got = jax.eval_shape(lambda *a: forward_laplacian(f, T, disable_jit=True)(*a, **kw), *args)
        except Exception as ex:  # noqa: BLE001
            return dict(bad=[f'{mode}, threshold {T}: raised {type(ex).__name__}: {str(ex)[:400]}'], ran=1, kinds=kinds)
        want, wt = jax.tree_util.tree_flatten(want)
        got, gt = jax.tree_util.tree_flatten(got, is_leaf=LPL)
        if wt != gt:
            return dict(bad=[f'result has structure {gt} instead of {wt}'], ran=1, kinds=kinds)
        flat = jax.tree_util.tree_leaves(pack_out(beh, list(range(len(exp)))))
        for w, g, i in zip(want, got, flat):
            parts = dict(value=g.x, jacobian=g.jacobian.data, laplacian=g.laplacian) if LPL(g) else dict(value=g)
            kinds[mode] = kinds.get(mode, 0) + 1
            if LPL(g) != exp[i]['dep']:
                bad.append(f'{mode}: {fmt_op(ops[i], beh)}: derivatives {"attached" if LPL(g) else "missing"}')
            for nm, p in parts.items():
                sh = p.shape[1:] if nm == 'jacobian' else p.shape
                if p.dtype != w.dtype or sh != w.shape:
                    bad.append(f'{mode}, threshold {T}: {fmt_op(ops[i], beh)}: {nm} is {p.dtype}{p.shape}, the function returns {w.dtype}{w.shape}')
    return dict(bad=bad[:3], ran=1, kinds=kinds)
