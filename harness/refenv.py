"""Replaying programs of RefEnv.tla and observing which intermediates exist (worker side)."""
import gc
import weakref

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
import folxrun  # noqa: F401  (configures jax)
from folx import forward_laplacian, register_function
from folx.api import FwdJacobian, FwdLaplArray
from gen import load

node_p = core.Primitive('node')
node_p.multiple_results = True
node_p.def_abstract_eval(lambda *a, m: [core.ShapedArray((2,), np.float64)] * m)
RUN = None


def sign(i, j):
    return -1.0 if (i + j) % 3 == 0 else 1.0


class Run:
    def __init__(self, obs, n):
        self.obs, self.n, self.k, self.alive, self.nvals = obs, n, 0, {}, n
        self.bad = []

    def observe(self):
        gc.collect()
        have = {i for i, r in self.alive.items() if r() is not None}
        k, self.k = self.k, self.k + 1
        if k >= len(self.obs):
            self.bad.append('more operations are executed than the program has')
            return
        o = self.obs[k]
        must, may = set(o['must']) - set(range(1, self.n + 1)), set(o['may'])
        if must - have:
            self.bad.append(f'operation {k + 1}: values {sorted(must - have)} are gone although they are needed')
        if have - may:
            self.bad.append(f'operation {k + 1}: values {sorted(have - may)} still exist, needed are {sorted(must)}')

    def born(self, arrs):
        for a in arrs:
            self.nvals += 1
            self.alive[self.nvals] = weakref.ref(a)


def combine(xs, m):
    return [jnp.asarray(np.array(sum(sign(i, j) * np.asarray(x) for i, x in enumerate(xs, 1)) + np.zeros(2)).copy()) for j in range(1, m + 1)]


def impl(*xs, m):
    RUN.observe()
    out = combine(xs, m)
    RUN.born(out)
    return out


def rule(args, kwargs, sparsity_threshold):
    RUN.observe()
    m, N = kwargs['m'], RUN.N
    xs = combine([a.x if isinstance(a, FwdLaplArray) else a for a in args], m)
    jacs = []
    for a in args:
        if isinstance(a, FwdLaplArray):
            d = np.asarray(a.jacobian.dense_array)
            jacs.append(np.concatenate([d, np.zeros((N - d.shape[0], 2))]))
        else:
            jacs.append(np.zeros((N, 2)))
    laps = [np.asarray(a.laplacian) if isinstance(a, FwdLaplArray) else np.zeros(2) for a in args]
    RUN.born(xs)
    return [FwdLaplArray(x, FwdJacobian.from_dense(jnp.asarray(sum(sign(i, j) * v for i, v in enumerate(jacs, 1)))),
                         jnp.asarray(sum(sign(i, j) * v for i, v in enumerate(laps, 1)))) for j, x in enumerate(xs, 1)]


node_p.def_impl(impl)
register_function(node_p, rule)


def evaluate(P, args):
    env = list(args)
    for q in P['body']:
        a = [1.0 if v == 0 else env[v - 1] for v in q['a']]
        if q['k'] == 'op':
            env += node_p.bind(*a, m=q['m'])
        else:
            env += jax.jit(lambda *xs, S=q['sub']: evaluate(S, xs))(*a)
    return [env[v - 1] for v in P['outs']]


def dependent(P, dep):
    """(results that depend on inputs, a call has only constant operands)"""
    env, flag = list(dep), False
    for q in P['body']:
        a = [v > 0 and env[v - 1] for v in q['a']]
        if q['k'] == 'op':
            env += [any(a)] * q['m']
        else:
            d, f = dependent(q['sub'], a)
            flag = flag or f or not any(a)
            env += d
    return [env[v - 1] for v in P['outs']], flag


def run(arg):
    global RUN
    b = load(arg['beh'])
    P, n = b['main'], b['main']['p']
    const = {i for i in range(1, n) if arg['consts'] >> i & 1}
    if dependent(P, [i not in const for i in range(n)])[1]:
        const = set()
    deps = [i for i in range(n) if i not in const]
    ins = [np.array([1.0 + 2 * i, -0.5 - i]) for i in range(n)]
    bad, ran = [], 0
    gc.collect()
    gc.freeze()
    for T in arg['Ts']:
        RUN = Run(b['obs'], n)
        RUN.N = 2 * len(deps)
        carr = {i: jnp.asarray(ins[i]) for i in const}

        def f(*xs):
            it = iter(xs)
            return evaluate(P, [carr[i] if i in const else next(it) for i in range(n)])

        out = forward_laplacian(f, sparsity_threshold=T, disable_jit=True)(*[jnp.asarray(ins[i]) for i in deps])
        ran += 1
        bad += RUN.bad
        if RUN.k != len(b['obs']) and not bad:
            bad.append(f'{RUN.k} operations are executed instead of {len(b["obs"])}')
        for o, v in zip(out, b['res']):
            lin = b['vals'][v - 1]
            x = sum(c * i for c, i in zip(lin, ins)) + lin[-1]
            lap = isinstance(o, FwdLaplArray)
            if not np.allclose(o.x if lap else o, x):
                bad.append(f'value {o.x if lap else o} instead of {x}')
            if lap:
                J = np.concatenate([lin[i] * np.eye(2) for i in deps])
                d = np.asarray(o.jacobian.dense_array)
                d = np.concatenate([d, np.zeros((len(J) - len(d), 2))])
                if not np.allclose(d, J) or np.any(o.laplacian):
                    bad.append(f'Jacobian {d.tolist()} instead of {J.tolist()}')
        o = lap = d = out = None
        gc.collect()
        left = [i for i, r in RUN.alive.items() if r() is not None]
        if left:
            bad.append(f'values {left} still exist after the transformation')
        if bad:
            bad = [f'threshold {T}, constants {sorted(const)}: {m}' for m in bad]
            break
    gc.unfreeze()
    return dict(bad=bad, ran=ran)
