"""Functions written the way users write them (networks, wave functions, losses, linear
algebra, control flow, transformations inside the function).  FUNS[name](rng) returns
(f, inputs); f returns a tuple of arrays.  Sizes stay small: the specification evaluates
every operation of their traces."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

FUNS = {}
CFUNS = {}    # through complex numbers
nn, la = jax.nn, jnp.linalg


def fun(g):
    FUNS[g.__name__] = g
    return g


def simple(name, shapes, f, lo=-1.0, hi=1.0, table=FUNS):
    def g(rng):
        xs = [rng.uniform(lo, hi, s) for s in shapes]
        p = rng.randn(64)
        return (lambda *a: tuple(np.atleast_1d(0) if v is None else v for v in _tup(f(p, *a)))), xs

    table[name] = g


def _tup(v):
    return v if isinstance(v, (tuple, list)) else (v,)


# ------------------------------------------------------------------ networks
@fun
def mlp(rng):
    W = [rng.randn(3, 5), rng.randn(5, 4), rng.randn(4, 2)]
    b = [rng.randn(5), rng.randn(4), rng.randn(2)]

    def f(x):
        for w, c in zip(W[:-1], b[:-1]):
            x = jnp.tanh(x @ w + c)
        return (x @ W[-1] + b[-1],)

    return f, [rng.uniform(-1, 1, 3)]


@fun
def mlp_batch_scalar(rng):
    W1, W2 = rng.randn(2, 4), rng.randn(4)

    def f(x):
        h = nn.silu(x @ W1)
        return (jnp.sum(h @ W2), h.mean(0))

    return f, [rng.uniform(-1, 1, (3, 2))]


@fun
def residual(rng):
    W = rng.randn(3, 3, 3) * 0.5

    def f(x):
        for w in W:
            x = x + nn.gelu(x @ w)
        return (x,)

    return f, [rng.uniform(-1, 1, (2, 3))]


@fun
def attention(rng):
    Wq, Wk, Wv = rng.randn(3, 2, 3) * 0.7

    def f(x):
        q, k, v = x @ Wq, x @ Wk, x @ Wv
        a = nn.softmax(q @ k.T / np.sqrt(3.0), axis=-1)
        return (a @ v,)

    return f, [rng.uniform(-1, 1, (3, 2))]


@fun
def masked_heads(rng):
    W = rng.randn(3, 2, 2, 2) * 0.7
    mask = np.tril(np.ones((3, 3))) > 0

    def f(x):
        q, k, v = [jnp.einsum('nd,dhe->hne', x, w) for w in W]
        s = jnp.einsum('hne,hme->hnm', q, k)
        s = jnp.where(mask, s, -20.0)
        return (jnp.einsum('hnm,hme->nhe', nn.softmax(s), v).reshape(3, -1),)

    return f, [rng.uniform(-1, 1, (3, 2))]


@fun
def layernorm(rng):
    g, b = rng.randn(4), rng.randn(4)

    def f(x):
        m = x.mean(-1, keepdims=True)
        v = x.var(-1, keepdims=True)
        return ((x - m) * lax.rsqrt(v + 1e-2) * g + b,)

    return f, [rng.uniform(-1, 1, (2, 4))]


@fun
def glu_net(rng):
    W = rng.randn(3, 4)
    return lambda x: (nn.glu(x @ W), nn.softplus(x @ W)), [rng.uniform(-1, 1, (2, 3))]


@fun
def gru(rng):
    W, U = rng.randn(3, 2, 3) * 0.6, rng.randn(3, 3, 3) * 0.6
    ts = rng.randn(4, 2)

    def f(h):
        def cell(h, t):
            z = nn.sigmoid(t @ W[0] + h @ U[0])
            r = nn.sigmoid(t @ W[1] + h @ U[1])
            n = jnp.tanh(t @ W[2] + (r * h) @ U[2])
            h = (1 - z) * n + z * h
            return h, h.sum()

        h, ys = lax.scan(cell, h, ts)
        return h, ys

    return f, [rng.uniform(-1, 1, 3)]


@fun
def gru_unrolled(rng):
    W, U = rng.randn(2, 2, 2), rng.randn(2, 2, 2)

    def f(x, h):
        for t in x:
            z = nn.sigmoid(t @ W[0] + h @ U[0])
            h = (1 - z) * jnp.tanh(t @ W[1] + h @ U[1]) + z * h
        return (h,)

    return f, [rng.uniform(-1, 1, (3, 2)), rng.uniform(-1, 1, 2)]


@fun
def conv1d(rng):
    k = rng.randn(2, 1, 3)

    def f(x):
        y = lax.conv_general_dilated(x[None, None, :], k, (1,), 'SAME')
        return (jnp.tanh(y[0]).sum(1), y[0, :, ::2])

    return f, [rng.uniform(-1, 1, 6)]


@fun
def mixture(rng):
    mu, sg, pi = rng.randn(3, 2), rng.uniform(0.6, 1.5, 3), rng.rand(3)

    def f(x):
        lp = -0.5 * jnp.sum((x - mu) ** 2, -1) / sg**2 - 2 * jnp.log(sg) + jnp.log(pi)
        return jax.scipy.special.logsumexp(lp), nn.softmax(lp)

    return f, [rng.uniform(-1, 1, 2)]


@fun
def kernel_regression(rng):
    X, a = rng.randn(4, 3), rng.randn(4)

    def f(x):
        d = jnp.sum((x[:, None] - X) ** 2, -1)
        k = jnp.exp(-d)
        return (k @ a, (1 + jnp.sqrt(d + 0.1)) @ a)

    return f, [rng.uniform(-1, 1, (2, 3))]


# ------------------------------------------------------------------ wave functions
def _electrons(rng, n):
    return [rng.randn(n, 3)]


@fun
def distances(rng):
    nuc = rng.randn(2, 3)

    def f(r):
        d = la.norm(r[:, None] - nuc, axis=-1)
        i, j = np.triu_indices(3, 1)
        ee = la.norm(r[i] - r[j], axis=-1)
        return d, ee

    return f, _electrons(rng, 3)


@fun
def distance_matrix(rng):
    def f(r):
        n = r.shape[0]
        diff = r[:, None] - r
        d = la.norm(diff + jnp.eye(n)[..., None], axis=-1) * (1 - jnp.eye(n))
        return (d, jnp.triu(d).sum())

    return f, _electrons(rng, 3)


@fun
def jastrow(rng):
    a = abs(rng.randn(2)) + 0.5

    def f(r):
        i, j = np.triu_indices(3, 1)
        d = jnp.sqrt(jnp.sum((r[i] - r[j]) ** 2, -1) + 1e-2)
        return (jnp.exp(-jnp.sum(a[0] / (1 + a[1] * d))),)

    return f, _electrons(rng, 3)


@fun
def slater(rng):
    nuc, W, e = rng.randn(2, 3), rng.randn(2, 2), rng.uniform(0.3, 1, (2, 2))

    def f(r):
        d = la.norm(r[:, None] - nuc, axis=-1)
        orb = jnp.tanh(d) @ W * jnp.exp(-d @ e)
        return la.slogdet(orb + jnp.eye(2))

    return f, _electrons(rng, 2)


@fun
def slater_multi(rng):
    W = rng.randn(3, 2, 2)
    c = rng.randn(2)

    def f(r):
        orb = jnp.einsum('id,dkm->kim', jnp.tanh(r), W) + 1.5 * jnp.eye(2)
        s, l = la.slogdet(orb)
        m = lax.stop_gradient(l.max())
        psi = jnp.sum(s * jnp.exp(l - m) * c)
        return (jnp.log(jnp.abs(psi)) + m,)

    return f, _electrons(rng, 2)


@fun
def spin_determinants(rng):
    W = rng.randn(2, 3, 2)

    def f(r):
        up, dn = jnp.split(r, 2)
        dets = [la.slogdet(jnp.sin(x @ w) + jnp.eye(2) * 1.5)[1] for x, w in zip((up, dn), W)]
        return (dets[0] + dets[1],)

    return f, _electrons(rng, 4)


@fun
def ferminet_layer(rng):
    W1, W2, V = rng.randn(9, 2) * 0.5, rng.randn(1, 2), rng.randn(2)

    def f(r):
        n = r.shape[0]
        h2 = jnp.sqrt(jnp.sum((r[:, None] - r + 0.3) ** 2, -1, keepdims=True))
        g1 = jnp.broadcast_to(r.mean(0), r.shape)
        g2 = jnp.tile(h2.mean(1), (1, 3))
        h = jnp.tanh(jnp.concatenate([r, g1, g2], -1) @ W1)
        h2 = jnp.tanh(h2 @ W2)
        return (h + h2.mean(0), h @ V, jnp.reshape(h2, (n * n, 2))[1::2])

    return f, _electrons(rng, 2)


@fun
def envelope(rng):
    nuc, s, p = rng.randn(2, 3), rng.uniform(0.3, 1, (2, 3)), rng.randn(2, 3)

    def f(r):
        d = r[:, None] - nuc
        r_ae = la.norm(d, axis=-1)
        return (jnp.sum(p * jnp.exp(-jax.nn.softplus(s) * r_ae[..., None]), 1),)

    return f, _electrons(rng, 2)


@fun
def angular(rng):
    def f(r):
        x, y, z = r.T
        rr = jnp.sum(r**2, -1)
        return jnp.arctan2(y, x + 3), z / jnp.sqrt(rr + 0.1), (3 * z**2 - rr) * x * y

    return f, _electrons(rng, 2)


@fun
def periodic(rng):
    def f(r):
        d = (r[:, None] - r)[np.triu_indices(3, 1)]
        s = jnp.concatenate([jnp.sin(d), jnp.cos(d)], -1)
        return (s.sum(), jnp.sqrt(jnp.sum((1 - jnp.cos(d)) ** 2 + 0.1, -1)))

    return f, _electrons(rng, 3)


@fun
def hermite(rng):
    def f(x):
        h0, h1 = jnp.ones_like(x), 2 * x
        hs = [h0, h1]
        for n in range(1, 4):
            hs.append(2 * x * hs[-1] - 2 * n * hs[-2])
        m = jnp.stack(hs[:3]) * jnp.exp(-0.5 * x**2)
        return (m.T, la.det(m))

    return f, [rng.uniform(-1.5, 1.5, 3)]


# ------------------------------------------------------------------ linear algebra
simple('inverse', [(3, 3)], lambda p, A: la.inv(A + 3 * jnp.eye(3)))
simple('solve_both', [(2, 2), (2,)], lambda p, A, b: la.solve(A + 2 * jnp.eye(2), b))
simple('solve_matrix', [(2, 2)], lambda p, A: la.solve(A + 2 * jnp.eye(2), p[:6].reshape(2, 3)))
simple('solve_rhs', [(3,)], lambda p, b: la.solve(p[:9].reshape(3, 3) + 4 * np.eye(3), b))
simple('determinants', [(2, 2), (3, 3)], lambda p, A, B: (la.det(A), la.det(B), la.det(B[:2, 1:])))
simple('det_batch', [(3, 2, 2)], lambda p, A: la.det(A))
simple('slogdet4', [(4, 2)], lambda p, A: la.slogdet(jnp.concatenate([A, jnp.sin(A)], 1) + 2 * jnp.eye(4))[1])
simple('cholesky', [(3, 3)], lambda p, A: la.cholesky(A @ A.T + jnp.eye(3)))
simple('gauss_logpdf', [(2,), (2, 2)], lambda p, x, A: (lambda L: -0.5 * jnp.sum(jax.scipy.linalg.solve_triangular(L, x, lower=True) ** 2)
                                                        - jnp.log(jnp.diagonal(L)).sum())(la.cholesky(A @ A.T + jnp.eye(2))))
simple('tri_transposed', [(3, 3)], lambda p, A: jax.scipy.linalg.solve_triangular(A + 2 * jnp.eye(3), p[:3], lower=False, trans=1))
simple('matrix_power', [(2, 2)], lambda p, A: (la.matrix_power(A, 3), jnp.trace(A @ A)))
simple('quadratic', [(3,), (3,)], lambda p, x, y: (x @ p[:9].reshape(3, 3) @ y, jnp.outer(x, y), jnp.vdot(x, y)))
simple('einsum3', [(2, 3), (3, 2)], lambda p, A, B: (jnp.einsum('ij,ji->', A, B), jnp.einsum('ij,jk,kl->il', A, B, A), jnp.einsum('ij,jk->k', A, B)))
simple('kron_cross', [(2, 3)], lambda p, A: (jnp.kron(A[0], A[1]), jnp.cross(A[0], A[1]), jnp.tensordot(A, A, 2)))
simple('norms', [(2, 3)], lambda p, A: (la.norm(A), la.norm(A, axis=0), jnp.sum(jnp.abs(A + 2), 1), jnp.max(A + p[:6].reshape(2, 3), 0)))

# ------------------------------------------------------------------ reductions, order, indexing
simple('statistics', [(2, 4)], lambda p, x: (x.mean(), x.var(1), x.std(0), jnp.average(x, 1, weights=abs(p[:4]) + 0.1)))
simple('products', [(4,)], lambda p, x: (jnp.prod(x), jnp.cumprod(x), jnp.cumsum(x[::-1]), jnp.prod(jnp.stack([x, x[::-1], 1 + x]), 0)))
simple('sorting', [(5,)], lambda p, x: (jnp.sort(x), x[jnp.argsort(jnp.sin(x))], lax.top_k(x, 2)[0], jnp.median(x)))
simple('extrema', [(2, 3)], lambda p, x: (x.max(1), x.min(), jnp.maximum(x, 0.3), jnp.clip(x, -0.4, 0.4), x[:, jnp.argmax(x[0])]))
simple('where_mask', [(3, 3)], lambda p, x: (jnp.where(x > 0.1, x**2, jnp.sin(x)), jnp.tril(x).sum(0), jnp.triu(x, 1) @ x))
simple('fancy', [(3, 4)], lambda p, x: (x[np.array([2, 0, 2]), np.array([1, 1, 3])], x[::2, 1:].sum(1), x[np.array([True, False, True])], x[-1, ::-1]))
simple('updates', [(4,), (2,)], lambda p, x, y: (x.at[np.array([1, 3])].set(y), x.at[np.array([0, 0])].add(y**2), x.at[1:3].multiply(2.0), jnp.zeros(5).at[2:4].set(y)))
simple('segments', [(6,)], lambda p, x: (jax.ops.segment_sum(x**2, np.array([0, 1, 0, 2, 1, 0]), 3), jnp.zeros(4).at[np.array([0, 1, 0])].add(jnp.sin(x[:3]))))
simple('windows', [(6,)], lambda p, x: (jnp.convolve(x, p[:3], mode='valid'), jnp.diff(x), jnp.roll(x, 2) * x, jnp.pad(x, (1, 2), constant_values=0.5)[1::2]))
simple('stacking', [(2, 2), (2,)], lambda p, A, b: (jnp.vstack([A, b]), jnp.hstack([A, b[:, None]]), jnp.repeat(b, 3), jnp.tile(A, (1, 2)), jnp.block([[A, A.T]])))
simple('mesh', [(2,), (3,)], lambda p, x, y: (jnp.add(*jnp.meshgrid(x, y)), x[:, None] * y, jnp.stack([x, x * y[0]]).sum(0)))
simple('scalar', [(), ()], lambda p, a, b: (a * b, jnp.sin(a) / (2 + b), jnp.hypot(a, b + 2), jnp.power(2 + a, b)))
simple('literal_sides', [(3,)], lambda p, x: (1 / (2 + x), 2.0 ** x, (2 + x) ** 2.5, 3 - x, jnp.float64(2) * x, -x, x - 1, x / 4))
simple('integer_powers', [(3,)], lambda p, x: (x**2, x**3, (x + 3) ** -2, (x + 3) ** 0.5, x**4 - x))
simple('special', [(4,)], lambda p, x: (jax.scipy.special.erf(x), jnp.log1p(x**2), jnp.expm1(x), jnp.sinc(x + 2), jnp.logaddexp(x, x[::-1] * 2), jnp.cbrt(2 + x)))
simple('hyperbolic', [(3,)], lambda p, x: (jnp.sinh(x), jnp.cosh(x), jnp.arcsin(x / 2), jnp.arctan(x), jnp.log(jnp.cosh(x)), jnp.tan(x), jnp.exp2(x)))
simple('activations', [(4,)], lambda p, x: (nn.elu(x), nn.selu(x), nn.gelu(x, approximate=False), nn.leaky_relu(x), nn.soft_sign(x), nn.log_softmax(x), nn.relu(x)))
simple('rank_zero', [(1,), (1, 1)], lambda p, x, y: (x[0] * y[0, 0], jnp.squeeze(y) + x, x.reshape(()), jnp.sum(y * p[:5])))
simple('wide_bottleneck', [()], lambda p, t: (jnp.prod(jnp.cos(t * p[:8])), jnp.sum(jnp.exp(-(t - p[:8]) ** 2)), jnp.cumsum(jnp.sin(t + p[:4]))))

# ------------------------------------------------------------------ control flow and transformations
simple('branches', [(3,)], lambda p, x: (lax.cond(True, jnp.sin, jnp.cos, x), lax.switch(1, [jnp.sin, jnp.square, jnp.cos], x)))
simple('fori', [(3,)], lambda p, x: lax.fori_loop(0, 3, lambda i, v: jnp.sin(v) + p[0] * v[::-1], x))
simple('scan_carry', [(2,)], lambda p, x: lax.scan(lambda c, w: (jnp.tanh(c * w + c[::-1]), c.sum()), x, p[:6].reshape(3, 2)))
simple('scan_reverse', [(2,)], lambda p, x: lax.scan(lambda c, w: (c * w[0] + jnp.sin(c), c * w[1]), x, p[:8].reshape(4, 2), reverse=True))
simple('scan_xs', [(2,)], lambda p, x: jax.jit(lambda z: lax.scan(lambda c, _: (jnp.cos(c) * z, None), z, None, length=3)[0])(x))
simple('jitted', [(3,)], lambda p, x: jax.jit(lambda z: jax.jit(jnp.sin)(z) * jnp.flip(z))(x))
simple('remat', [(3,)], lambda p, x: jax.checkpoint(lambda z: jnp.sin(z) @ jnp.exp(z))(x))
simple('vmapped', [(3, 2)], lambda p, x: (jax.vmap(lambda r: jnp.sin(r) @ r)(x), jax.vmap(lambda a, b: a * b, (0, None))(x, x[0]), jax.vmap(jnp.outer)(x, x**2)))
simple('inner_grad', [(3,)], lambda p, x: jax.grad(lambda z: jnp.sum(jnp.sin(z) * z[::-1]))(x))
simple('inner_jvp', [(3,)], lambda p, x: jax.jvp(lambda z: jnp.tanh(z) * z.sum(), (x,), (x**2,)))
simple('inner_hessian', [(2,)], lambda p, x: jax.hessian(lambda z: jnp.prod(jnp.sin(z)))(x))
simple('score', [(2, 2)], lambda p, x: jax.vmap(jax.grad(lambda z: jax.scipy.special.logsumexp(-jnp.sum((z - p[:6].reshape(3, 2)) ** 2, -1))))(x))
simple('stopped', [(3,)], lambda p, x: (x * lax.stop_gradient(x), lax.stop_gradient(x.sum()) + x, jnp.sign(x) * x**2, jnp.floor(3 * x + 0.01) * x))
simple('associative', [(4,)], lambda p, x: lax.associative_scan(jnp.multiply, x))
simple('newton', [(3,)], lambda p, x: functools.reduce(lambda z, _: z - (z**2 - (2 + x)) / (2 * z), range(3), 1.4 + 0 * x))
simple('polynomial', [(3,)], lambda p, x: functools.reduce(lambda a, c: a * x + c, p[:5], jnp.zeros(3)))
simple('ode_step', [(4,)], lambda p, y: (lambda k1: y + 0.1 * (lambda k2: (k1 + k2) / 2)(jnp.stack([y[1], -jnp.sin(y[0]), y[3], -y[2]]) + k1))(jnp.array([1.0, 2.0, 0.5, -1.0]) * y))
simple('tree', [(2,), (3,)], lambda p, a, b: jax.tree_util.tree_map(jnp.sin, (a, b, a.sum() * b)))
simple('bitonic', [(4,)], lambda p, x: (lambda lo, hi: (lo, hi, jnp.concatenate([lo, hi]).sum()))(jnp.minimum(x[:2], x[2:]), jnp.maximum(x[:2], x[2:])))
simple('dyn', [(5,)], lambda p, x: (lax.dynamic_slice(x, (2,), (2,)), lax.dynamic_index_in_dim(x, 1), lax.dynamic_update_slice(x, x[:2] ** 2, (3,)), jnp.take(x, jnp.array([4, 0]))))

# ------------------------------------------------------------------ arrays without entries
simple('empties', [(4,)], lambda p, x: (x[:0], jnp.sum(x[2:2]) + x, jnp.concatenate([x[:0], jnp.sin(x)]), jnp.pad(jnp.sin(x[4:]), 2), x.at[np.zeros(0, int)].add(x[:0] * 2)))
simple('empty_axes', [(2, 2)], lambda p, x: (x[:, :0].sum(1) * x[0], jnp.prod(x[:0], 0), jnp.zeros((3, 0)) @ x[:0], jnp.cumsum(x[:, 1:1], 0), x[:0].reshape(2, 0) + 1))
simple('empty_input', [(0,), (3,)], lambda p, e, x: (jnp.sin(e), e.sum() + x, jnp.concatenate([e, x**2]), jnp.outer(e, x)))


# ------------------------------------------------------------------ complex numbers
def csimple(name, shapes, f):
    simple(name, shapes, f, table=CFUNS)


def cw(p, *sh):
    """complex parameters"""
    n = int(np.prod(sh))
    return (p[:n] + 1j * p[n:2 * n]).reshape(sh)


csimple('plane_waves', [(2, 3)], lambda p, r: (lambda w: (w, w.sum(0), jnp.abs(w.sum(0))))(jnp.exp(1j * (r @ p[:6].reshape(3, 2)))))
csimple('structure_factor', [(3, 2)], lambda p, r: (lambda s: (jnp.real(s * jnp.conj(s)), s))(jnp.sum(jnp.exp(2j * (r @ p[:4].reshape(2, 2))), 0)))
csimple('complex_mlp', [(3,)], lambda p, x: (lambda h: (h @ cw(p[20:], 4), h.real.sum(), h.imag))(jnp.tanh(0.4 * (x @ cw(p, 3, 4)))))
csimple('log_psi', [(3,)], lambda p, x: (lambda psi: (jnp.log(psi), jnp.log(jnp.abs(psi)), jnp.arctan2(psi.imag, psi.real)))(jnp.prod(jnp.exp(0.3j * x) * (x + 2.1))))
csimple('angle', [(3,)], lambda p, x: (jnp.angle((x + 2) * jnp.exp(0.4j * x)), jnp.abs(jnp.exp((1 + 1j) * x))))
csimple('harmonics', [(2, 3)], lambda p, r: (lambda x, y, z: (x + 1j * y, z * (x + 1j * y), (x + 1j * y) ** 2, (x - 1j * y) ** 3))(*r.T))
csimple('complex_det', [(2, 2)], lambda p, x: la.slogdet(jnp.exp(1j * x) + 1.5 * jnp.eye(2)))
csimple('bloch_det', [(3, 2)], lambda p, r: la.slogdet(jnp.exp(1j * r @ p[:6].reshape(2, 3)) * (1.3 + jnp.cos(r).sum(1, keepdims=True)) + 2 * jnp.eye(3)))
csimple('det_batched_complex', [(2, 2, 2)], lambda p, x: (lambda s, l: (s * jnp.exp(l), l))(*la.slogdet(x * cw(p, 2, 2) + 2 * jnp.eye(2))))
csimple('dft', [(4,)], lambda p, x: (lambda F: (F, (F * jnp.conj(F)).real, jnp.real(F @ cw(p, 4))))(x @ np.exp(-2j * np.pi * np.outer(range(4), range(4)) / 4)))
csimple('overlap', [(3,), (3,)], lambda p, a, b: (lambda u, v: (jnp.vdot(u, v), jnp.sum(jnp.conj(u) * v).real, u * v, u / (v + 4)))(a + 1j * b, b - 0.5j * a**2))
csimple('wave_packet', [(2,)], lambda p, x: (lambda w: (w, w[0] * jnp.conj(w[1]), jnp.abs(w)))(jnp.exp(-((x - 0.2) ** 2) + 1j * (3 * x + x**2))))
csimple('squeezed', [(2, 2)], lambda p, x: (jnp.sqrt(3 + x + 1j * x.T), 1 / (2 + x * 1j), jnp.square(x * (1 + 2j)), lax.rsqrt(3 + 1j * x)))
csimple('complex_layer', [(2, 3)], lambda p, x: (lambda z: (z - z.mean(1, keepdims=True), jnp.cumsum(z, 1), jnp.concatenate([z, jnp.conj(z)], 1)[:, ::2]))(lax.complex(jnp.sin(x), jnp.cos(x))))
csimple('complex_where', [(4,)], lambda p, x: (jnp.where(x > 0.1, jnp.exp(1j * x), x**2), jnp.where(jnp.array([True, False, True, False]), 1j * x, 2.0), (x + 1j).at[1].set(x[0] * 2j)))
csimple('complex_scan', [(2,)], lambda p, x: lax.fori_loop(0, 3, lambda i, z: z * (0.8 + 0.3j) + x * jnp.conj(z), jnp.sin(x) + 0j))
csimple('complex_hyper', [(3,)], lambda p, x: (jnp.sinh(x * 1j + 0.3), jnp.cosh(1j * x), jnp.log1p(0.5j * x), jnp.expm1(x + 1j * x), nn.sigmoid(x * (1 + 0.5j))))
csimple('complex_poly', [(3,)], lambda p, x: functools.reduce(lambda a, c: a * (x + 0.5j * x[::-1]) + c, list(cw(p, 4)), 0j))
csimple('complex_einsum', [(2, 2), (2, 2)], lambda p, a, b: (jnp.einsum('ij,jk->ik', a * 1j, b), (a + 1j * b).conj().T @ (b + 1j), jnp.trace((a + 1j) @ b)))
csimple('real_of_complex', [(3,)], lambda p, x: (jnp.real(x), jnp.imag(x * 1j + x), jnp.abs(x + 2), jnp.conj(x), (x + 1j * x).real.max()))
csimple('complex_vmapped', [(3, 2)], lambda p, x: jax.vmap(lambda r: jnp.prod(jnp.exp(1j * r) + r))(x))
