"""Replaying behaviours in stages and in different evaluation modes (worker side)."""
import jax
import numpy as np
from folx import batched_vmap, forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray
from folxrun import Obs, build, compare, fmt_op, inputs, is_lapl, load, nvars, op_of, refused, tensor
from replay import resolve_T

CAP = ('x', 'J', 'L', 'dense', 'dtype', 'struct', 'rep')
JIT = ('x', 'J', 'L', 'dense', 'dtype', 'struct')


def judge(res, exp, n, what, ops, beh, label):
    if len(res) != len(exp):
        return [f'{label}: {len(res)} outputs instead of {len(exp)}']
    for i, (r, e) in enumerate(zip(res, exp)):
        c = compare(r, e, n, what)
        if c:
            return [f'{label}: {fmt_op(ops[i], beh)}: ' + '; '.join(s[:400] for s in c[:3])]
    return []


def captured(g, xs):
    """[Obs] of a function returning a list of plain arrays and triples, compiled as a whole"""
    idx = []

    def parts(*xs):
        idx.clear()
        out = []
        for r in g(*xs):
            lap = is_lapl(r)
            idx.append(r.jacobian.x0_idx if lap else None)
            out.append((r.x, r.jacobian.data, r.laplacian, r.jacobian.dense_array) if lap else r)
        return out

    res = jax.jit(parts)(*xs)
    out = []
    for r, ix in zip(res, idx):
        o = Obs(FwdLaplArray(r[0], FwdJacobian(r[1], ix), r[2]), r[3]) if isinstance(r, tuple) else Obs(r)
        out.append(o.numpy())
    return out


def convert(r, how):
    """another representation of the same stage result"""
    if not is_lapl(r) or how == 0:
        return r
    return r.dense


def run_stages(arg):
    """beh, cuts (fractions of the program), Ts (one threshold per stage), dense
    (positions handed over densely), compiled (stages compiled on their own)"""
    beh = load(arg['beh'])
    n, exp, ops, xs = nvars(beh), [tensor(t) for t in beh['env']], op_of(beh), inputs(beh)
    prog = beh['prog']
    bad, ran, kinds = [], 0, {}
    cuts = [0] + [max(1, min(len(prog) - 1, int(c * len(prog)))) for c in arg['cuts']] + [len(prog)]
    bounds = list(zip(cuts[:-1], cuts[1:]))
    for var in arg['vars']:
        Ts = [resolve_T(t, n) for t in var['Ts']]
        label = f'stages {bounds} thresholds {Ts}'

        def g(*xs):
            env = list(xs)
            for (a, b), T in zip(bounds, Ts):
                env = [convert(r, (i * 7 + 3) % 3 == 0 and var.get('dense')) for i, r in enumerate(env)]
                env = forward_laplacian(build(prog, a, b), T, disable_jit=not var.get('compiled'))(*env)
            return env

        try:
            if var.get('compiled'):
                res = [Obs(r, r.jacobian.dense_array if is_lapl(r) else None).numpy() for r in g(*xs)]
            else:
                res = captured(g, xs)
        except Exception as ex:  # noqa: BLE001
            bad.append(f'{label}: raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        for r in res:
            kinds[r.kind] = kinds.get(r.kind, 0) + 1
        bad += judge(res, exp, n, JIT if var.get('compiled') else CAP, ops, beh, label)
    return dict(bad=bad, ran=ran, kinds=kinds)


def obs_jit(r):
    """Obs of a result whose index array is a JAX array"""
    if is_lapl(r):
        idx = r.jacobian.x0_idx
        r = FwdLaplArray(r.x, FwdJacobian(r.jacobian.data, None if idx is None else np.asarray(idx)), r.laplacian)
        return Obs(r, r.jacobian.dense_array).numpy()
    return Obs(r).numpy()


def run_modes(arg):
    """beh generated with two points; every evaluation mode must return what the spec says at both"""
    beh = load(arg['beh'])
    n, ops = nvars(beh), op_of(beh)
    exp = [[tensor(t) for t in beh[k]] for k in ('env', 'env2')]
    pts = [inputs(beh), inputs(beh, 'vals2')]
    return modes(build(beh['prog']), pts, exp, n, arg, lambda res, e, label: judge(res, e, n, JIT, ops, beh, label))


def modes(f, pts, exp, n, arg, judge):
    bad, ran, kinds = [], 0, {}

    def take(tree, b):
        return jax.tree_util.tree_map(lambda a: np.asarray(a)[b], tree)

    for mode in arg['modes']:
        T = resolve_T(arg['T'], n)
        try:
            if mode == 'eager':
                fn = forward_laplacian(f, T, disable_jit=True)
                got = [(0, [obs_jit(r) for r in fn(*pts[0])])]
            elif mode == 'repeat':
                fn = forward_laplacian(f, T)
                got = [(k, [obs_jit(r) for r in fn(*pts[k])]) for k in (0, 1, 0)]
            elif mode == 'outer':
                fn = jax.jit(lambda *xs: forward_laplacian(f, T)(*xs))
                got = [(k, [obs_jit(r) for r in fn(*pts[k])]) for k in (1, 0)]
            elif mode in ('vmap', 'vmapjit', 'jitvmap'):
                fn = jax.vmap(forward_laplacian(f, T, disable_jit=mode == 'jitvmap'))
                fn = jax.jit(fn) if mode == 'jitvmap' else fn
                stacked = [np.stack(p) for p in zip(pts[0], pts[1], pts[0])]
                res = fn(*stacked)
                got = [(k, [obs_jit(r) for r in take(res, b)]) for b, k in ((0, 0), (1, 1), (2, 0))]
            elif mode == 'batched':      # chunks of unequal size
                order = [0, 1, 1, 0, 1]
                fn = batched_vmap(forward_laplacian(f, T), arg.get('M', 2))
                res = fn(*[np.stack([pts[k][i] for k in order]) for i in range(len(pts[0]))])
                got = [(k, [obs_jit(r) for r in take(res, b)]) for b, k in enumerate(order)]
            elif mode == 'checkpoint':
                fn = jax.jit(jax.checkpoint(lambda *xs: forward_laplacian(f, T, disable_jit=True)(*xs)))
                got = [(k, [obs_jit(r) for r in fn(*pts[k])]) for k in (0, 1)]
            else:
                raise ValueError(mode)
        except Exception as ex:  # noqa: BLE001
            if arg.get('loops') and refused(ex, T):
                continue
            bad.append(f'{mode}, threshold {T}: raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        for k, res in got:
            for r in res:
                kinds[r.kind] = kinds.get(r.kind, 0) + 1
            bad += judge(res, exp[k], f'{mode}, threshold {T}, point {k}')
            if bad:
                break
    return dict(bad=bad, ran=ran, kinds=kinds)


def run_operators(arg):
    """All operators on a scalar function made from a behaviour with one input array."""
    import jax.numpy as jnp

    beh = load(arg['beh'])
    n = nvars(beh)
    exp = [[tensor(t) for t in beh[k]] for k in ('env', 'env2')]
    pts = [inputs(beh)[0], inputs(beh, 'vals2')[0]]
    sel = [i for i, t in enumerate(exp[0]) if t['dt'] == 'f']
    how = arg['how']
    if how != 'all':
        sel = sel[-1:]
    g = build(beh['prog'])

    def f(x):
        env = g(x)
        if how == 'elem':
            return env[sel[0]].reshape(-1)[0]
        out = 0.0
        for k, i in enumerate(sel):
            out = out + (1 + k % 3) * jnp.sum(env[i])
        return out

    want = []
    for e in exp:
        if how == 'elem':
            want.append((e[sel[0]]['L'].reshape(-1)[0], e[sel[0]]['J'].reshape(n, -1)[:, 0]))
        else:
            want.append((sum((1 + k % 3) * e[i]['L'].sum() for k, i in enumerate(sel)),
                         sum((1 + k % 3) * e[i]['J'].reshape(n, -1).sum(1) for k, i in enumerate(sel))))
    return operators(f, pts, want, arg)


def operators(f, pts, want, arg):
    from folx import ForwardLaplacianOperator, LoopLaplacianOperator, ParallelLaplacianOperator
    from folxrun import close

    n = pts[0].size
    bad, ran, kinds = [], 0, {}
    mk = dict(loop=lambda: LoopLaplacianOperator(), parallel=lambda: ParallelLaplacianOperator())
    for name in arg['ops']:
        op = mk[name]() if name in mk else ForwardLaplacianOperator(resolve_T(name, n))
        try:
            lap = op(f)
            if arg['outer'] == 'jit':
                lap = jax.jit(lap)
            if arg['outer'] == 'vmap':
                r = jax.vmap(lap)(np.stack(pts))
                got = [(r[0][b], r[1][b]) for b in (0, 1)]
            elif arg['outer'] == 'scan':
                r = jax.lax.scan(lambda c, x: (c, lap(x)), 0, np.stack(pts))[1]
                got = [(r[0][b], r[1][b]) for b in (0, 1)]
            else:
                got = [lap(p) for p in pts]
        except Exception as ex:  # noqa: BLE001
            if arg.get('loops') and refused(ex, name):
                continue
            bad.append(f'operator {name}: raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        kinds[str(name)] = 1
        for b, (r, w) in enumerate(zip(got, want)):
            l, j = np.asarray(r[0]), np.asarray(r[1])
            if l.shape != () or j.shape != (n,):
                bad.append(f'operator {name} ({arg["outer"]}): shapes {l.shape}, {j.shape} for {n} inputs')
            elif l.dtype != np.float64 or j.dtype != np.float64:
                bad.append(f'operator {name}: dtypes {l.dtype}, {j.dtype}')
            elif not close(l, w[0]):
                bad.append(f'operator {name} ({arg["outer"]}), point {b}: Laplacian {l} != {w[0]}')
            elif not close(j, w[1]):
                bad.append(f'operator {name} ({arg["outer"]}), point {b}: gradient {j.tolist()} != {w[1].tolist()}')
    return dict(bad=bad, ran=ran, kinds=kinds)
