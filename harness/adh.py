"""Derivative helpers against whole-Hessian behaviours (worker side)."""
import jax
import jax.numpy as jnp
import numpy as np
from folxrun import build, close, dec, load, nvars
from folx import ad


def arr(t, key, n):
    """entries of spec tensor as arrays: v (shape), g (size, n), l (size, n, n)"""
    conv = (lambda z: z) if t['dt'] == 'c' else (lambda z: z.real if isinstance(z, complex) else z)
    dt = np.complex128 if t['dt'] == 'c' else np.float64
    sh = tuple(t['sh'])
    if key == 'g':
        return np.array([[conv(dec(v)) for v in e['g']] for e in t['e']], dt).reshape(*sh, n)
    return np.array([[[conv(dec(v)) for v in row] for row in e['l']] for e in t['e']], dt).reshape(-1, n, n)


def xs_of(beh, cplx):
    out, o = [], 0
    for sh in beh['inp']['shs']:
        m = int(np.prod(sh, dtype=int))
        v = [dec(p) for p in beh['inp']['vals'][o:o + m]]
        o += m
        out.append(np.array([complex(z) if cplx else complex(z).real for z in v]).reshape(sh))
    return out


def run(arg):
    beh = load(arg['beh'])
    n = nvars(beh)
    xs = xs_of(beh, arg['cplx'])
    fs = build(beh['prog'])
    env = beh['env']
    bad, ran, kinds = [], 0, {}
    js = [j for j, t in enumerate(env) if t['dep'] and j >= len(xs)][-arg.get('last', 3):]
    for j in js:
        out = derivatives(lambda *a: fs(*a)[j], env[j], xs, n, arg, dict(bad=bad, ran=ran, kinds=kinds))  # noqa: B023
        bad, ran, kinds = out['bad'], out['ran'], out['kinds']
        if bad:
            break
    return dict(bad=bad, ran=ran, kinds=kinds)


def derivatives(f, t, xs, n, arg, out):
    """one output of f, described by t"""
    bad, kinds = out['bad'], out['kinds']
    J, H = arr(t, 'g', n), arr(t, 'l', n)
    sz = int(np.prod(t['sh'], dtype=int))
    tag = ('C' if arg['cplx'] else 'R') + '->' + ('C' if t['dt'] == 'c' else 'R')
    if arg['jit']:
        f = jax.jit(f)
    out['ran'] += 1
    kinds[tag] = kinds.get(tag, 0) + 1
    try:
        fwd = np.asarray(ad.jacfwd(f)(*xs))
        rev = ad.jacrev(f)(*xs)
        hess = ad.hessian(f)(*xs)
    except Exception as ex:  # noqa: BLE001
        bad.append(f'{tag}: raised {type(ex).__name__}: {str(ex)[:300]}')
        return out
    if fwd.shape != (*t['sh'], n) or not close(fwd, J):
        bad.append(f'{tag} jacfwd of shape {fwd.shape}: {fwd.tolist()} != {J.tolist()}')
    # reverse mode keeps the structure of the arguments behind the flattened output
    parts = [np.asarray(r) for r in ((rev,) if len(xs) == 1 else rev)]
    if len(parts) != len(xs) or any(p.shape != (sz, *x.shape) for p, x in zip(parts, xs)):
        bad.append(f'{tag} jacrev shapes {[p.shape for p in parts]} for inputs {[x.shape for x in xs]} and output {t["sh"]}')
    else:
        r = np.concatenate([p.reshape(sz, -1) for p in parts], 1)
        if not close(r, J.reshape(sz, n)):
            bad.append(f'{tag} jacrev {r.tolist()} != {J.reshape(sz, n).tolist()}')
    # the Hessian: reverse structure, then the flat input
    parts = [np.asarray(h) for h in ((hess,) if len(xs) == 1 else hess)]
    if len(parts) != len(xs) or any(p.shape != (sz, *x.shape, n) for p, x in zip(parts, xs)):
        bad.append(f'{tag} hessian shapes {[p.shape for p in parts]} for inputs {[x.shape for x in xs]} and output {t["sh"]}')
    else:
        h = np.concatenate([p.reshape(sz, -1, n) for p in parts], 1)
        if not close(h, H):
            bad.append(f'{tag} hessian {h.tolist()} != {H.tolist()}')
    # vector-Jacobian product with a vector that tells all outputs apart
    w = (0.5 + np.arange(sz) * 0.25 - 0.3 * (np.arange(sz) % 2)).reshape(t['sh'])
    if t['dt'] == 'c':
        w = w * (1 - 0.7j)
    try:
        g = ad.vjp(f, *xs)(jnp.asarray(w))
        g = np.concatenate([np.asarray(p).reshape(-1) for p in g])
    except Exception as ex:  # noqa: BLE001
        bad.append(f'{tag} vjp: raised {type(ex).__name__}: {str(ex)[:300]}')
        return out
    want = w.reshape(-1) @ J.reshape(sz, n)
    if g.shape != (n,) or not close(g, want):
        bad.append(f'{tag} vjp {g.tolist()} != {want.tolist()}')
    return out
