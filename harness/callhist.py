"""Histories of calls of the same transformed functions against CallHist.tla (worker side)."""
import jax
import jax.numpy as jnp
import numpy as np
from folx import ForwardLaplacianOperator, forward_laplacian
from folxrun import Obs, is_lapl, load
from stages import obs_jit

f32, f64 = np.float32, np.float64


def threshold(t):
    return t['num'] if t['den'] == 1 else t['num'] / t['den']


def group(vals, args, cont):
    """one value per array -> the positional arguments"""
    out, o = [], 0
    for i, a in enumerate(args):
        v, o = vals[o:o + len(a)], o + len(a)
        if len(a) == 1 and (cont + i) % 2 == 0:
            out.append(v[0])
        else:
            out.append([list(v), tuple(v), dict(zip('xyz', v))][cont])
    return out


def arrays(q, which='x'):
    sizes = [s for a in q['args'] for s in a]
    x, o, out = q[which], 0, []
    for i, s in enumerate(sizes):
        dt = {0: f64, 1: f32, 2: (f32, f64)[i % 2], 3: (f64, f32)[i % 2]}[q['f4']]
        out.append(np.array(x[o:o + s], dt))
        o += s
    return out


def weights_of(q):
    w = [float(v) for v in q['w']]
    k = q['wform']
    if k == 'none':
        return None
    if k == 'num':
        return w[0]
    if k == 'arg':
        out, o = [], 0
        for a in q['args']:
            out.append(w[o])
            o += len(a)
        return tuple(out)
    if k == 'leaf' and len(w) != len(q['args']):
        return tuple(w)
    return tuple(group(w, q['args'], q['cont']))


def check_tensor(r, exp, st, n, dt, rep):
    if not is_lapl(r) and not hasattr(r, 'kind'):
        return 'a plain array was returned'
    o = obs_jit(r)
    x = np.array([e['v'] for e in exp], float)
    L = np.array([e['l'] for e in exp], float)
    J = np.array([e['g'] for e in exp], float).T.reshape(n, len(exp))
    if o.x.dtype != dt or np.asarray(r.laplacian).dtype != dt or r.jacobian.data.dtype != dt:
        return f'dtypes {o.x.dtype}, {r.jacobian.data.dtype}, {np.asarray(r.laplacian).dtype} instead of {np.dtype(dt)}'
    for name, a, b in (('value', o.x, x), ('Laplacian', r.laplacian, L), ('Jacobian', r.jacobian.dense_array, J)):
        a = np.asarray(a).reshape(b.shape) if np.asarray(a).size == b.size else np.asarray(a)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-5, atol=1e-5):
            return f'{name} {a.tolist()} instead of {b.tolist()}'
    if rep:
        idx = r.jacobian.x0_idx
        if st == 0 and idx is not None:
            return f'stored sparse with {r.jacobian.data.shape[0]} columns, should be dense'
        if st and idx is None:
            return f'stored dense, should be sparse with {st} columns'
        if st and r.jacobian.data.shape[0] != st:
            return f'stored with {r.jacobian.data.shape[0]} columns instead of {st}'
    return None


def run(arg):
    b = load(arg['beh'])
    c, G = b['c'], b['c']['G']
    reps = arg.get('rep', True)

    def f(*args, s):
        v = jnp.concatenate(jax.tree_util.tree_leaves(args))
        r = v.reshape(-1, G) if v.size else v.reshape(0, G)
        rows = s * jnp.sum(np.arange(1, G + 1, dtype=f32) * r * r, axis=1)
        return {'rows': rows, 'pair': r[:, 0] * r[:, G - 1], 'total': jnp.sum(rows).reshape(1)}

    objs = [forward_laplacian(f, threshold(t), disable_jit=bool(arg['i'] >> k & 1)) for k, t in enumerate(c['thr'][:2])]
    op = ForwardLaplacianOperator(threshold(c['thr'][2]))
    lap = op(lambda x: f(x, s=np.float32(1))['total'][0])
    outer = [jax.jit(lambda args, w, s, fn=fn: fn(*args, weights=w, s=s)) for fn in objs]
    bad, ran = [], 0
    for i, (q, e) in enumerate(zip(b['calls'], b['exp'])):
        what = f'call {i + 1} ({q["mode"]}, object {q["obj"]}, threshold {threshold(c["thr"][q["obj"] - 1])}, sizes {q["args"]}, weights {q["wform"]} {q["w"]})'
        n = sum(s for a in q['args'] for s in a)
        args, w = group(arrays(q), q['args'], q['cont']), weights_of(q)
        dt = np.result_type(*[a.dtype for a in arrays(q)])
        s = np.float32(q['s'])
        try:
            if q['obj'] == 3:
                res = lap(arrays(q)[0])
            elif q['mode'] == 'direct':
                kw = {} if w is None and i % 2 else dict(weights=1.0 if w is None else w)
                res = objs[q['obj'] - 1](*args, s=s, **kw)
            elif q['mode'] == 'jit':
                res = outer[q['obj'] - 1](args, w, s)
            else:
                st = jax.tree_util.tree_map(lambda a, b: np.stack([a, b]), args, group(arrays(q, 'x2'), q['args'], q['cont']))
                res = jax.vmap(lambda *a: objs[q['obj'] - 1](*a, s=s, weights=w))(*st)
        except Exception as ex:  # noqa: BLE001
            if not e['fails']:
                bad.append(f'{what}: raised {type(ex).__name__}: {str(ex)[:300]}')
                break
            ran += 1
            continue
        ran += 1
        if e['fails']:
            bad.append(f'{what}: returned instead of failing')
            break
        if q['obj'] == 3:
            t = e['res']['total'][0]
            # the operator ignores weights and the keyword argument
            got = (float(res[0]), np.asarray(res[1]).tolist())
            want = (t['l'] / q['s'], [v / q['s'] for v in t['g']])
            if not (np.allclose(got[0], want[0]) and np.asarray(res[1]).shape == (n,) and np.allclose(got[1], want[1])):
                bad.append(f'{what}: operator gives {got} instead of {want}')
            continue
        for k in ('rows', 'pair', 'total'):
            if q['mode'] == 'vmap':
                for p, name in ((0, 'res'), (1, 'res2')):
                    m = check_tensor(jax.tree_util.tree_map(lambda a: np.asarray(a)[p], res[k]), e[name][k], e['st'][k], n, dt, False)
                    if m:
                        break
            else:
                m = check_tensor(res[k], e['res'][k], e['st'][k], n, dt, reps)
            if m:
                bad.append(f'{what}: {k}: {m[:400]}')
        if bad:
            break
    return dict(bad=bad, ran=ran)
