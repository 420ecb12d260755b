"""Comparing the memory estimate with MemEst.tla (worker side)."""
import contextlib
import io

import jax
import jax.numpy as jnp
import numpy as np
from jax import core
import folxrun  # noqa: F401  (configures jax)
from folx.experimental.memory import compute_memory
from gen import load
from natfuns import CFUNS, FUNS

EXECUTED = []
blob_p = core.Primitive('blob')
blob_p.multiple_results = True
KEY = jax.random.key(0).dtype


def dtype(n):
    return KEY if n == 'key' else jnp.dtype(getattr(jnp, 'bool_' if n == 'bool' else n))


@blob_p.def_abstract_eval
def _(*a, ts):
    return [core.ShapedArray(s, dtype(d)) for s, d in ts]


@blob_p.def_impl
def _(*a, ts):
    EXECUTED.append(1)
    return [array(s, d) for s, d in ts]


def array(s, d, fill=0):
    if d == 'key':
        k = jax.random.key(fill)
        n = int(np.prod(s, dtype=int))
        return jax.random.split(k, n).reshape(s)
    return jnp.full(s, fill % 2, dtype(d))


def evaluate(P, args):
    env = list(args)
    for q in P['body']:
        a = [1.0 if v == 0 else env[v - 1] for v in q['a']]
        if q['k'] == 'op':
            env += blob_p.bind(*a, ts=tuple((tuple(t['sh']), t['dt']) for t in q['ts']))
        elif q['k'] == 'call':
            env += jax.jit(lambda *xs, S=q['sub']: evaluate(S, xs))(*a)
        else:
            nc, nk, S = q['nc'], q['nk'], q['sub']

            def body(c, x, nc=nc, nk=nk, S=S, consts=a[:nc]):
                r = evaluate(S, [*consts, *c, *x])
                return tuple(r[:nk]), tuple(r[nk:])

            c, y = jax.lax.scan(body, tuple(a[nc:nc + nk]), tuple(a[nc + nk:]), length=q['len'], reverse=len(a) % 2 == 1, unroll=1)
            env += [*c, *y]
    return [1.0 if v == 0 else env[v - 1] for v in P['outs']]


def extract(jaxpr, nid=None):
    """a jaxpr as a program of the specification"""
    num, types = {}, []

    def ty(v):
        d = v.aval.dtype
        n = 'key' if d == KEY else str(d)
        return dict(sh=list(v.aval.shape), dt=n, w=d.itemsize)

    def new(vs):
        for v in vs:
            types.append(v)
            if not isinstance(v, core.DropVar):
                num[v] = len(types)

    def ref(v):
        return 0 if isinstance(v, core.Literal) else num[v]

    ins = [*jaxpr.invars, *jaxpr.constvars]
    new(ins)
    body = []
    for e in jaxpr.eqns:
        a = [ref(v) for v in e.invars]
        if e.primitive.name == 'pjit':
            q = dict(k='call', a=a, sub=extract(e.params['jaxpr'].jaxpr))
        elif e.primitive.name == 'scan':
            q = dict(k='scan', a=a, nc=e.params['num_consts'], nk=e.params['num_carry'], len=e.params['length'], sub=extract(e.params['jaxpr'].jaxpr))
        else:
            q = dict(k='op', a=a)
        q['ts'] = [ty(v) for v in e.outvars]
        new(e.outvars)
        body.append(q)
    return dict(ps=[ty(v) for v in ins], body=body, outs=[ref(v) for v in jaxpr.outvars], lt=[ty(v) for v in jaxpr.outvars], id=nid or 0)


def run(arg):
    b = load(arg['beh'])
    P, i = b['main'], arg['i']
    n = len(P['ps'])
    bad = []
    # inputs come as arguments (some in containers), keyword arguments, static arguments and constants
    how = [(arg['how'] >> 2 * k) % 4 for k in range(n)]
    how = [h if h < 3 else (3 if P['ps'][k]['sh'] and P['ps'][k]['dt'] != 'key' else 0) for k, h in enumerate(how)]
    est = []
    for fill in (0, 1):
        xs = [array(tuple(t['sh']), t['dt'], fill) for t in P['ps']]
        pos = [k for k in range(n) if how[k] in (0, 1)]
        kw = {f'k{k}': xs[k] for k in range(n) if how[k] == 2}
        # pairs of arguments in containers
        args, groups = [], []
        k = 0
        while k < len(pos):
            if how[pos[k]] == 1:
                g = pos[k:k + 2]
                args.append({'a': xs[g[0]], 'b': (xs[g[1]] if len(g) > 1 else None, [])})
            else:
                g = pos[k:k + 1]
                args.append(xs[g[0]])
            groups.append(g)
            k += len(g)
        static = [s for s in range(len(args) + 1) if arg['static'] >> s & 1]
        full, statics, it = [], [], iter(args)
        for s in range(len(args) + 1):
            if s in static:
                statics.append(len(full))
                full.append(('static', s))
            if s < len(args):
                full.append(next(it))
        marks = {len(full) and j for j in statics}

        def f(*a, **kws):
            EXECUTED.extend(1 for x in jax.tree_util.tree_leaves([v for j, v in enumerate(a) if j not in marks])
                            if not isinstance(x, core.Tracer))
            assert [a[j] for j in statics] == [full[j] for j in statics]
            env = {}
            flow = [v for j, v in enumerate(a) if j not in marks]
            for g, v in zip(groups, flow):
                if isinstance(v, dict):
                    env[g[0]] = v['a']
                    if len(g) > 1:
                        env[g[1]] = v['b'][0]
                else:
                    env[g[0]] = v
            for k in range(n):
                if how[k] == 2:
                    env[k] = kws[f'k{k}']
                elif how[k] == 3:
                    env[k] = np.asarray(xs[k])
            r = evaluate(P, [env[k] if how[k] != 3 else env[k] for k in range(n)])
            return {'r': r, 'n': None}

        sn = tuple(statics) if i % 3 else tuple(s - len(full) for s in statics)
        if len(sn) == 1 and i % 2:
            sn = sn[0]
        buf = io.StringIO()
        EXECUTED.clear()
        with contextlib.redirect_stdout(buf):
            est.append(compute_memory(f, *full, static_argnums=sn, **kw))
        prog = extract(jax.make_jaxpr(f, static_argnums=sn)(*full, **kw).jaxpr, i + 1)
        if buf.getvalue():
            bad.append(f'{buf.getvalue()!r} was printed')
        if EXECUTED:
            bad.append('the program was executed')
    if est[0] != est[1]:
        bad.append(f'the estimate depends on the values: {est}')
    return dict(bad=bad, ran=2, est=est[0], prog=prog)


def natnames(_):
    return sorted({**FUNS, **CFUNS})


def natural(arg):
    """programs people write"""
    i = arg['i']
    if arg.get('name'):
        from folx import forward_laplacian
        f, args = {**FUNS, **CFUNS}[arg['name']](np.random.RandomState(i))
        if arg['T'] is not None:
            g = f
            f = forward_laplacian(lambda *a: list(g(*a)), arg['T'], disable_jit=bool(i % 2))
    else:
        f, args = NATURAL[i % len(NATURAL)](2 + i // len(NATURAL))
    EXECUTED.clear()
    try:
        prog = extract(jax.make_jaxpr(f)(*args).jaxpr, arg['id'] + 1)
    except Exception as ex:  # noqa: BLE001
        if folxrun.refused(ex, arg.get('T')):
            return dict(bad=[], ran=0, est=None)
        raise
    if size(prog) > arg.get('max', 10 ** 6):     # too large for TLC in the time of a quick run
        return dict(bad=[], ran=0, est=None)
    return dict(bad=[], ran=1, est=compute_memory(f, *args), prog=prog)


def size(P):
    return sum(1 + (size(q['sub']) if 'sub' in q else 0) for q in P['body'])


def _mlp(n):
    def f(x, ws):
        for w in ws:
            x = jnp.tanh(x @ w)
        return jax.nn.logsumexp(x)
    return f, (jnp.ones((n, 5)), [jnp.ones((5, 5))] * 3)


def _rnn(n):
    def f(h, xs):
        return jax.lax.scan(lambda c, x: (jax.nn.softmax(c * x), jnp.outer(c, x)), h, xs)
    return f, (jnp.ones(4), jnp.ones((n, 4)))


def _fold(n):
    from folx import forward_laplacian
    def f(x):
        return forward_laplacian(lambda y: jnp.sum(jnp.tanh(y @ y.T)), sparsity_threshold=[0, 6][n % 2])(x).laplacian
    return f, (jnp.ones((n, 3)),)


def _det(n):
    return lambda x: jnp.linalg.slogdet(x @ x.T + jnp.eye(n)), (jnp.ones((n, n + 1)),)


def _bv(n):
    from folx import batched_vmap
    return batched_vmap(lambda x, k: jnp.sin(x).sum() + jax.random.normal(k, (2,)), 2), (jnp.ones((n, 3)), jax.random.split(jax.random.key(0), n))


def _grad(n):
    return jax.grad(lambda x: jnp.sum(jax.nn.relu(x) ** 2 * jnp.arange(n))), (jnp.ones(n, jnp.float32),)


def _mixed(n):
    def f(x, y):
        m = jnp.argsort(x)
        return jnp.where(y[m] > 0, x.astype(jnp.float32), 1.0), jax.lax.cond(n > 3, jnp.sin, jnp.cos, y), jax.lax.while_loop(lambda c: c[0] < 3, lambda c: (c[0] + 1, c[1] * 2), (0, x))
    return f, (jnp.ones(n), jnp.ones(n))


NATURAL = [_mlp, _rnn, _fold, _det, _bv, _grad, _mixed]
