"""Replaying histories of Registry.tla (worker side)."""
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
import folxrun  # noqa: F401  (configures jax)
from folx import deregister_function, forward_laplacian, register_function, wrap_forward_laplacian
from folx.api import FwdLaplArray
from folx.wrapped_functions import get_laplacian, is_registered
from gen import load

N = 4
FACTOR = dict(fa=2.0, fb=3.0, fc=5.0, neg=-1.0, r1=7.0, r2=11.0, r3=13.0)
KEY = dict(fa='fa', fb='fb', fc='fc', neg=lax.neg_p)
NEG = get_laplacian(lax.neg_p)
BUILTIN = [lax.exp_p, lax.dot_general_p, lax.mul_p, lax.reduce_sum_p, 'silu', 'softplus', 'slogdet', 'logaddexp']


def rule(name, r):
    c = FACTOR[r]
    if name == 'fc':
        if r == 'r1':
            one = wrap_forward_laplacian(lambda x: c * x, in_axes=())

            def two(args, kwargs, sparsity_threshold):
                y = one(args[:1], {}, sparsity_threshold=sparsity_threshold)
                return y, y

            return two

        def raw2(args, kwargs, sparsity_threshold):
            x = args[0]
            y = FwdLaplArray(x.x * c, x.jacobian._replace(data=x.jacobian.data * c), x.laplacian * c)
            return [y, y]

        return raw2
    if r == 'r1':
        return wrap_forward_laplacian(lambda x: c * x, in_axes=())
    if r == 'r2':
        return wrap_forward_laplacian(lambda x: c * x)

    def raw(args, kwargs, sparsity_threshold):
        x = args[0]
        return FwdLaplArray(x.x * c, x.jacobian._replace(data=x.jacobian.data * c), x.laplacian * c)

    return raw


def function(n, body):
    if n == 'neg':
        return lax.neg
    if n == 'fc':
        def f(x, c):
            y = FACTOR[n] * program(body)(x)
            return y, y + 0.0 * c
    else:
        def f(x):
            return FACTOR[n] * program(body)(x)
    f.__name__ = f.__qualname__ = n
    f = jax.jit(f)
    if n == 'fc':
        return lambda x: 0.5 * sum(f(x, jnp.arange(float(N))))
    return f


def plain(p):
    """factor of a program without rules"""
    out = 1.0
    for h in p:
        if h['k'] == 'fn':
            out *= FACTOR[h['n']] * plain(h['b'])
        elif h['k'] == 'scan':
            out *= plain(h['b']) ** 2
    return out


def program(p):
    def g(x):
        for h in p:
            if h['k'] == 'fn':
                x = function(h['n'], h['b'])(x)
            elif h['k'] == 'scan':
                b = program(h['b'])
                x = lax.scan(lambda c, _: (b(c), None), x, None, length=2)[0]
            else:
                b = program(h['b'])
                x = x * (b(jnp.arange(1.0, N + 1)) / (plain(h['b']) * np.arange(1.0, N + 1)))
        return x

    return g


def run(arg):
    beh = load(arg['beh'])
    for n, k in KEY.items():
        if n == 'neg':
            register_function(k, NEG)
        elif is_registered(k):
            deregister_function(k)
    known = [is_registered(k) for k in BUILTIN]
    current, bad, ran = {n: None for n in KEY}, [], 0
    current['neg'] = NEG
    x = np.array([0.5, -1.25, 2.0, 0.75])
    kinds = {}
    for i, h in enumerate(beh['hist']):
        kinds[h['op']] = kinds.get(h['op'], 0) + 1
        where = f'step {i} ({h["op"]} {h["n"]} {h["r"]})'
        if h['op'] == 'register':
            current[h['n']] = rule(h['n'], h['r'])
            register_function(KEY[h['n']], current[h['n']])
        elif h['op'] == 'deregister':
            try:
                deregister_function(KEY[h['n']])
                ok = True
            except KeyError:
                ok = False
            if ok != h['ok']:
                bad.append(f'{where}: removal {"succeeded" if ok else "failed"}')
            current[h['n']] = None
        elif h['op'] == 'query':
            if is_registered(KEY[h['n']]) != h['ok']:
                bad.append(f'{where}: is_registered is {not h["ok"]}')
            if get_laplacian(KEY[h['n']]) is not current[h['n']]:
                bad.append(f'{where}: another rule than the latest one is found')
        else:
            F = np.prod([FACTOR[f] ** c for f, c in h['m'].items()])
            p = program(h['p'])
            for T, dj in ((0, i % 2 == 0), (N, i % 2 == 1)) if i % 3 else ((0.5, True),):
                if h['widens']:
                    T = 0
                r = forward_laplacian(lambda x: p(x * x), sparsity_threshold=T, disable_jit=dj)(x)
                ran += 1
                for got, want, w in ((r.x, F * x * x, 'value'), (r.jacobian.dense_array, np.diag(2 * F * x), 'Jacobian'),
                                     (r.laplacian, np.full(N, 2 * F), 'Laplacian')):
                    if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                        bad.append(f'{where}: {w} {np.asarray(got).ravel()[:4]} instead of {want.ravel()[:4]} (threshold {T}) of {h["p"]}')
                        break
        for n, k in KEY.items():
            if is_registered(k) != (current[n] is not None):
                bad.append(f'{where}: {n} is {"" if is_registered(k) else "not "}registered')
    for k in KEY.values():
        if is_registered(k):
            deregister_function(k)
    register_function(lax.neg_p, NEG)
    if [is_registered(k) for k in BUILTIN] != known:
        bad.append('the registrations of built-in operations changed')
    f = lambda x: jnp.sum(jax.nn.silu(-x) * jnp.exp(x)) + jnp.linalg.slogdet(jnp.outer(x, x) + jnp.eye(N))[1]  # noqa: E731
    r = forward_laplacian(f, sparsity_threshold=N if len(bad) % 2 else 0)(x)
    ran += 1
    hess = np.trace(HESS(x))
    if not np.allclose(r.laplacian, hess, rtol=1e-8) or not np.allclose(r.jacobian.dense_array[:, ...].ravel(), GRAD(x).ravel(), rtol=1e-8):
        bad.append('the rules of built-in operations changed')
    return dict(bad=bad, ran=ran, kinds=kinds)


def _f(x):
    return jnp.sum(jax.nn.silu(-x) * jnp.exp(x)) + jnp.linalg.slogdet(jnp.outer(x, x) + jnp.eye(N))[1]


HESS, GRAD = jax.jit(jax.hessian(_f)), jax.jit(jax.grad(_f))
