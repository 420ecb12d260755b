"""Replaying histories of SparseJac.tla on the Jacobian containers (worker side)."""
import warnings

import jax
import jax.numpy as jnp
import numpy as np
import folxrun  # noqa: F401  (configures jax)
from folx.api import FwdJacobian, FwdLaplArray
from gen import load

SHAPES = {1: [(), (1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 4: [(4,), (2, 2)], 6: [(2, 3), (6,), (3, 1, 2)]}


def num(M, sh):
    a = np.array(M, float).reshape(len(M), -1, 2)
    return (a[..., 0] + 1j * a[..., 1]).reshape(len(M), *sh)


def full(j, N, sh):
    """an independent reading of a container"""
    d = np.asarray(j.data)
    out = np.zeros((N, int(np.prod(sh, dtype=int))), complex)
    d = d.reshape(d.shape[0], -1)
    if j.x0_idx is None:
        out[:len(d)] = d
    else:
        ix = np.asarray(j.x0_idx).reshape(len(d), -1)
        for r in range(len(d)):
            for e in range(d.shape[1]):
                if ix[r, e] >= 0:
                    out[ix[r, e], e] += d[r, e]
    return out.reshape(N, *sh)


def run(arg):
    warnings.simplefilter('ignore')
    b, i, N = load(arg['beh']), arg['i'], arg['N']
    m = b['pool'][0]['m']
    sh = SHAPES[m][i % len(SHAPES[m])]
    bad, ran = [], 0

    def make(j):
        d = num(j['d'], sh)
        d = d if j['cx'] else d.real
        x0 = None if j['dense'] else np.array(j['idx'], np.int32).reshape(j['k'], *sh)
        # the value and the Laplacian take part as one row each
        return FwdLaplArray(jnp.asarray(d[0]), FwdJacobian(jnp.asarray(d), x0), jnp.asarray(d[-1] * 2))

    first = [make(j) for j in b['pool'][:3]]
    small = set()

    def play(data):
        pool = [t._replace(jacobian=t.jacobian._replace(data=d)) for t, d in zip(first, data)]
        res, rows = [], []
        for n, o in enumerate(b['ops']):
            a = pool[o['a'] - 1]
            if o['o'] == 'add':
                c = pool[o['b'] - 1]
                r = FwdLaplArray(a.x + c.x, a.jacobian + c.jacobian, a.laplacian + c.laplacian)
            elif o['o'] == 'rows':
                r = a
                L = np.array(o['l'], int).reshape(len(o['l']), *sh)
                if (L == L.reshape(len(L), -1)[:, 0].reshape(-1, *[1] * len(sh))).all() and (a.jacobian.x0_idx is None or i % 3):
                    # one list for all entries
                    L = L[(slice(None), *[slice(1)] * len(sh))]
                    if i % 3 == 1 or a.jacobian.x0_idx is None:
                        L = L.reshape(-1)
                # lists may be known only when the program runs
                rows.append(a.jacobian.construct_jac_for(jnp.asarray(L) if (i + n) % 3 == 0 else L))
            else:
                f = o['f']
                if f == 'dense':
                    r = a.dense
                elif f in ('real', 'imag'):
                    r = getattr(a, f)
                elif f == 'conj':
                    r = a.conj()
                elif f == 'complex':
                    r = a.astype(jnp.complex64 if n in small else jnp.complex128)
                else:
                    r = a.astype(jnp.complex64 if jnp.iscomplexobj(a.x) else jnp.float32)
            pool.append(r)
            res.append(r)
        arrs = [(t.x, t.jacobian.data, t.laplacian, t.dense_jacobian, t.jacobian.as_dense.data, t.jacobian.construct_jac_for(None)) for t in res]
        meta.clear()
        meta.extend(t.jacobian.x0_idx for t in res)
        masks.clear()
        masks.extend(t.jacobian_mask for t in res)
        flags.clear()
        flags.extend((t.is_jacobian_weak, t.shape, t.ndim, t.size, t.jacobian.data_shape, t.jacobian.ndim) for t in res)
        return arrs, rows

    meta, masks, flags = [], [], []
    data = [t.jacobian.data for t in first]
    for jit in ([False, True] if i % 4 == 0 else [i % 2 == 0]):
        arrs, rows = (jax.jit(play) if jit else play)(data)
        ran += 1
        it = iter(rows)
        # expected values and Laplacians
        xs = [(np.asarray(t.x), np.asarray(t.laplacian)) for t in first]
        for n, (o, (x, d, l, *denses)) in enumerate(zip(b['ops'], arrs)):
            what = f'operation {n + 1} {o} ({"jit" if jit else "eager"})'
            f = o.get('f', '')
            p = xs[o['a'] - 1]
            e = {'add': lambda: [u + v for u, v in zip(p, xs[o['b'] - 1])], 'rows': lambda: p,
                 'un': lambda: [getattr(u, f) if f in ('real', 'imag') else u.conj() if f == 'conj' else u for u in p]}[o['o']]()
            xs.append(e)
            want = num(b['full'][3 + n], sh)
            cx = b['pool'][3 + n]['cx']
            wk, shp, nd, sz, dsh, jnd = flags[n]
            if meta[n] is not None and not (isinstance(meta[n], np.ndarray) and meta[n].shape == d.shape):
                bad.append(f'{what}: index array {type(meta[n]).__name__} {np.shape(meta[n])} for data {d.shape}')
                break
            if wk != (meta[n] is not None) or (shp, nd, sz, dsh, jnd) != (sh, len(sh), int(np.prod(sh, dtype=int)), sh, len(sh) + 1):
                bad.append(f'{what}: properties {flags[n]} for shape {sh}')
            if masks[n].shape != d.shape:
                bad.append(f'{what}: mask of shape {masks[n].shape} for data {d.shape}')
            J = FwdJacobian(d, meta[n])
            for name, g in [('the container', full(J, N, sh)), ('its mask', full(FwdJacobian(d, masks[n]), N, sh)),
                            *((f'dense form {q}', full(FwdJacobian(y, None), N, sh)) for q, y in enumerate(denses))]:
                if not np.allclose(g, want, rtol=1e-6):
                    bad.append(f'{what}: {name} reads {g.reshape(N, -1).tolist()} instead of {want.reshape(N, -1).tolist()}')
            for name, g, w in [('value', x, e[0]), ('Laplacian', l, e[1])]:
                if g.shape != sh or not np.allclose(g, w, rtol=1e-6):
                    bad.append(f'{what}: {name} {g} instead of {w}')
            for q, y in enumerate((x, d, l, *denses)):
                if jnp.iscomplexobj(y) != cx:
                    bad.append(f'{what}: array {q} has type {y.dtype}')
            if f == 'single' and d.dtype.itemsize != (8 if cx else 4):
                bad.append(f'{what}: {d.dtype}')
            if o['o'] == 'rows':
                g, w = next(it), num(b['got'][n], sh)
                if g.shape != w.shape or not np.allclose(g, w, rtol=1e-6):
                    bad.append(f'{what}: rows {np.asarray(g).tolist()} instead of {w.tolist()}')
            if bad:
                break
        if bad:
            break
    return dict(bad=bad, ran=ran)
