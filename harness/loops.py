"""Replaying programs with loops and sub-functions (worker side)."""
import json

import jax
import jax.numpy as jnp
import numpy as np
from folx import forward_laplacian
from folxrun import LOOP, apply_op, compare, dec, inputs, load, nvars, tensor
from jax import lax
from replay import resolve_T
from stages import CAP, captured

REFUSALS = (*LOOP, 'Type mismatch in scan', 'Scan does not support scanning over input')


def run_ops(prog, env, opt):
    for op in prog:
        if op['o'] == 'scan':
            env = env + scan(op, env, opt)
        elif op['o'] == 'call':
            env = env + call(op, env, opt)
        else:
            env = env + apply_op(op, env)
    return env


def arr(vs):
    return [jnp.asarray(v) for v in vs]


def scan(op, env, opt):
    nc, nk, length, rev, xkind = op['k'][0]
    a = [env[i - 1] for i in op['a']]
    consts, carry = a[:nc], a[nc:nc + nk]
    xs = None
    if xkind == 1:
        xs = np.array([dec(c) for c in op['c']]).reshape(length, *op['k'][3])
    elif xkind == 2:
        xs = a[-1]
    cout, ys = op['k'][1], op['k'][2]

    def body(c, x):
        e = run_ops(op['b'], list(consts) + list(c) + ([] if xkind == 0 else [x]), opt)
        return tuple(arr(e[p - 1] for p in cout)), tuple(arr(e[p - 1] for p in ys))

    init = tuple(arr(carry))
    if opt['fori'] and not ys and xkind == 0:
        return list(lax.fori_loop(0, length, lambda i, c: body(c, None)[0], init))
    if opt['fori'] and nk == 0 and xkind == 1 and not rev:
        return list(lax.map(lambda x: body((), x)[1], xs))
    c, y = lax.scan(body, init, xs, length=length, reverse=bool(rev), unroll=opt['unroll'])
    return list(c) + list(y)


@jax.custom_jvp
def shield(x):
    return x


def call(op, env, opt):
    a = [env[i - 1] for i in op['a']]

    def body(*a):
        e = run_ops(op['b'], list(a), opt)
        return [jnp.asarray(e[p - 1]) for p in op['k'][0]]

    if op['f'] == 'jit':
        return list(jax.jit(body)(*a))
    if op['f'] == 'remat':
        return list(jax.checkpoint(body)(*a))
    if op['f'] == 'cond':
        return list(lax.cond(np.array(True), body, lambda *a: [0 * v if v.dtype.kind in 'fc' else v for v in body(*a)], *a))
    named = jax.jit(jax.named_call(body, name=f'part{len(op["b"])}'))
    return list(named(*a))


def run(arg):
    beh = load(arg['beh'])
    n, exp, xs = nvars(beh), [tensor(t) for t in beh['env']], inputs(beh)
    opt = arg['opt']
    lvl = min([c['s'] for c in beh['ctl']] + [2])
    bad, ran, kinds = [], 0, {}

    def f(*xs):
        return [jnp.asarray(v) for v in run_ops(beh['prog'], list(xs), opt)]

    # calls without a rule of their own may attach zero derivatives
    what = CAP if not any(f'"{k}"' in json.dumps(beh['prog']) for k in ('remat', 'cond')) else tuple(w for w in CAP if w != 'struct')
    names = []
    for op in beh['prog']:
        names += [f'{op["o"]}:{op["f"]} k={op["k"]} b={[q["o"] for q in op.get("b", [])]}'] * (
            len(op['k'][1]) + len(op['k'][2]) if op['o'] == 'scan' else len(op['k'][0]) if op['o'] == 'call' else 2 if op['o'] == 'slogdet' else 1)
    for T in arg['Ts']:
        T = resolve_T(T, n)
        t = int(T * n) if 0 < T < 1 else T
        try:
            res = captured(forward_laplacian(f, T, disable_jit=True), xs)
        except Exception as ex:  # noqa: BLE001
            if any(s in str(ex) for s in REFUSALS) and (lvl == 0 or (lvl == 1 and t > 0)):
                kinds['refused'] = kinds.get('refused', 0) + 1
                continue
            bad.append(f'threshold {T} (stability {lvl}): raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        kinds[f'accepted {lvl}'] = kinds.get(f'accepted {lvl}', 0) + 1
        if len(res) != len(exp):
            bad.append(f'threshold {T}: {len(res)} outputs instead of {len(exp)}')
            continue
        for i, (r, e) in enumerate(zip(res, exp)):
            c = compare(r, e, n, what)
            if c:
                k = i - len(xs)
                bad.append(f'threshold {T}: {names[k] if k >= 0 else "input"}: ' + '; '.join(s[:400] for s in c[:3]))
                break
    return dict(bad=bad, ran=ran, kinds=kinds)
