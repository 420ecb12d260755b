"""Binding between FwdLapl behaviours and the implementation.

A behaviour (JSON written by Gen.tla / validated by the trace specs) is a list of
operation records.  `build` turns it into an ordinary JAX function, `observe` runs
folx on it, `compare` checks every observable against what the spec computed.
"""
import json
import logging
import os
import struct

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
import jax  # noqa: E402

jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from jax import lax  # noqa: E402

logging.disable(logging.CRITICAL)

import folx  # noqa: E402
from folx import forward_laplacian  # noqa: E402
from folx.api import FwdJacobian, FwdLaplArray  # noqa: E402

RTOL = 1e-7


# ---------------------------------------------------------------- numbers
def dec(p):
    if isinstance(p[0], (list, tuple)):
        return complex(dec(p[0]), dec(p[1]))
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def enc(x):
    return list(struct.unpack('>ii', struct.pack('>d', float(x))))


def encc(z):
    z = complex(z)
    return [enc(z.real), enc(z.imag)]


def load(line):
    d = json.loads(line)
    if isinstance(d, str):
        d = json.loads(d)
    return d


def tensor(t):
    """spec tensor -> dict of numpy arrays"""
    sh = tuple(t['sh'])
    cplx = t['dt'] == 'c'
    conv = (lambda z: z) if cplx else (lambda z: z.real if isinstance(z, complex) else z)
    dt = np.complex128 if cplx else np.float64
    n = len(t['e'][0]['g']) if t['e'] else 0
    x = np.array([conv(dec(e['v'])) for e in t['e']], dt).reshape(sh)
    g = np.array([[conv(dec(v)) for v in e['g']] for e in t['e']], dt).reshape(*sh, n)
    l = np.array([conv(dec(e['l'])) for e in t['e']], dt).reshape(sh)
    return dict(x=x, J=np.moveaxis(g, -1, 0), L=l, dep=t['dep'], dt=t['dt'], sh=sh)


def inputs(beh, which='vals'):
    out, o = [], 0
    for sh in beh['inp']['shs']:
        n = int(np.prod(sh, dtype=int))
        v = [dec(p) for p in beh['inp'][which][o:o + n]]
        out.append(np.array([z.real if isinstance(z, complex) else z for z in v]).reshape(sh))
        o += n
    return out


# ---------------------------------------------------------------- programs
@jax.custom_jvp
def custom_fn(x):
    return x * jnp.sin(x)


@custom_fn.defjvp
def _custom_fn_jvp(p, t):
    (x,), (dx,) = p, t
    return custom_fn(x), (jnp.sin(x) + x * jnp.cos(x)) * dx


UN = dict(
    neg=lax.neg, exp=lax.exp, exp2=lax.exp2, expm1=lax.expm1, log=lax.log, log1p=lax.log1p,
    sin=lax.sin, cos=lax.cos, tan=lax.tan, tanh=lax.tanh, sinh=lax.sinh, cosh=lax.cosh,
    logistic=lax.logistic, sigmoid=jax.nn.sigmoid, softplus=jax.nn.softplus, silu=jax.nn.silu,
    sqrt=lax.sqrt, rsqrt=lax.rsqrt, cbrt=lax.cbrt, square=jnp.square, asin=lax.asin,
    acos=lax.acos, atan=lax.atan, abs=lax.abs, relu=jax.nn.relu,
    clip=lambda x: jnp.clip(x, -0.5, 0.5), sign=lax.sign, stop=lax.stop_gradient,
    floor=lax.floor, erf=lax.erf, custom=custom_fn, gt0=lambda x: x > 0,
    toint=lambda x: x.astype(jnp.int32), id=lambda x: x, recip=lambda x: 1.0 / x,
)
BIN = dict(add=jnp.add, sub=jnp.subtract, mul=jnp.multiply, div=jnp.divide, pow=jnp.power,
           atan2=jnp.arctan2, max=jnp.maximum, min=jnp.minimum, logaddexp=jnp.logaddexp)
RED = dict(sum=jnp.sum, prod=jnp.prod, max=jnp.max, min=jnp.min)
CUM = dict(cumsum=lax.cumsum, cumprod=lax.cumprod, cummax=lax.cummax, cummin=lax.cummin)


def promote(x, y):
    x = jnp.asarray(x)
    dt = jnp.result_type(x, y)
    return x if x.dtype == dt else x.astype(dt)


def promote2(x, y):
    return promote(x, y), promote(y, x)


def starts(s):
    # Python numbers and arrays take different routes
    return [np.int32(v) for v in s] if sum(s) % 3 else s


CMP = dict(lt=lax.lt, le=lax.le, gt=lax.gt, ge=lax.ge, eq=lax.eq, ne=lax.ne)
LOGIC = {'and': jnp.logical_and, 'or': jnp.logical_or, 'xor': jnp.logical_xor, 'not': jnp.logical_not}


def apply_op(op, env):
    """Execute one operation record on JAX values; returns the list it appends."""
    o, f, k = op['o'], op['f'], op['k']
    a = [env[i - 1] for i in op['a']]
    x = a[0] if a else None
    if o == 'const':
        v = [dec(c) for c in op['c']]
        if f != 'c':
            v = [z.real for z in v]
        if f == 'lit':
            return [v[0]]
        return [np.array(v).reshape(k[0])]
    if o == 'un':
        return [UN[f](x)]
    if o == 'ipow':
        return [lax.integer_pow(x, k[0][0])]
    if o == 'bin':
        return [BIN[f](a[0], a[1])]
    if o == 'where':
        return [jnp.where(a[0] > 0, a[1], a[2])]
    if o in RED:
        return [RED[o](x, axis=tuple(k[0]))]
    if o in CUM:
        return [CUM[o](x, axis=k[0][0], reverse=bool(k[1][0]))]
    if o == 'reshape':
        return [jnp.reshape(x, k[0])]
    if o == 'transpose':
        return [jnp.transpose(x, k[0])]
    if o == 'rev':
        return [lax.rev(x, tuple(k[0]))]
    if o == 'slice':
        return [lax.slice(x, k[0], k[1], k[2])]
    if o == 'bcast':
        return [lax.broadcast_in_dim(x, k[0], k[1])]
    if o == 'concat':
        return [jnp.concatenate(a, axis=k[0][0])]
    if o == 'take':
        return [jnp.take(x, np.array(k[0]), axis=k[1][0], mode='clip')]
    if o == 'dslice':
        return [lax.dynamic_slice(x, starts(k[0]), k[1])]
    if o == 'dus':
        return [lax.dynamic_update_slice(a[0], jnp.asarray(a[1]), starts(k[0]))]
    if o == 'pad':
        return [lax.pad(x, np.asarray(dec(op['c'][0]).real).astype(x.dtype), [(l, h, 0) for l, h in zip(k[0], k[1])])]
    if o == 'select':
        m = np.array(k[0]).reshape(x.shape) == 1
        return [lax.select_n(m, a[1], a[0]) if isinstance(a[1], jax.Array) and a[0].dtype == a[1].dtype and sum(k[0]) % 2 else jnp.where(m, a[0], a[1])]
    if o == 'scatset':
        return [promote(a[0], a[1]).at[np.array(k[0])].set(a[1])]
    if o in ('scatadd', 'scatmul', 'scatmax', 'scatmin'):
        ref = promote(a[0], a[1]).at[np.array(k[0])]
        kw = {'unique_indices': True} if o == 'scatmul' else {}
        return [getattr(ref, {'scatadd': 'add', 'scatmul': 'multiply', 'scatmax': 'max', 'scatmin': 'min'}[o])(a[1], **kw)]
    if o in ('ddslice', 'ddtake', 'ddus'):
        s = jnp.reshape(a[-1], (-1,))[0].astype(jnp.int32)
        if o == 'ddtake':
            return [jnp.take(x, s, axis=0, mode='clip')]
        st = (s,) + (np.int32(0),) * (x.ndim - 1)
        if o == 'ddslice':
            return [lax.dynamic_slice(x, st, k[0])]
        return [lax.dynamic_update_slice(a[0], jnp.asarray(a[1]), st)]
    if o == 'sortby':
        return [x[jnp.argsort(a[1])]]
    if o == 'ddarg':
        return [x[getattr(jnp, 'arg' + f)(a[1])]]
    if o == 'sort':
        return [lax.top_k(x, k[1][0])[0] if f == 'top' else jnp.sort(x, axis=k[0][0])]
    if o == 'dot':
        return [lax.dot_general(a[0], a[1], ((k[0], k[1]), (k[2], k[3])))]
    if o == 'slogdet':
        s, l = jnp.linalg.slogdet(x)
        return [s, l]
    if o == 'cmp':
        return [CMP[f](*map(jnp.asarray, jnp.broadcast_arrays(*promote2(a[0], a[1]))))]
    if o == 'logic':
        return [LOGIC[f](*a)]
    if o == 'arg':
        return [dict(max=lax.argmax, min=lax.argmin)[f](jnp.asarray(x), k[0][0], jnp.int32)]
    if o == 'lin':
        return [dict(conj=jnp.conj, re=jnp.real, im=jnp.imag)[f](x)]
    if o == 'cabs':
        return [jnp.abs(x)]
    if o == 'cplx':
        return [lax.complex(a[0], a[1])]
    raise ValueError(o)


def build(prog, first=0, last=None):
    """All intermediates are outputs, in env order (inputs included)."""

    def f(*xs):
        env = list(xs)
        for op in prog[first:last]:
            env += apply_op(op, env)
        return [jnp.asarray(v) for v in env]

    return f


# ---------------------------------------------------------------- observables
def is_lapl(r):
    return isinstance(r, FwdLaplArray)


class Obs:
    """What folx returned for one output."""

    def __init__(self, r, dense=None):
        self.lapl = is_lapl(r)
        if self.lapl:
            self.x, self.data, self.idx, self.L = r.x, r.jacobian.data, r.jacobian.x0_idx, r.laplacian
            self.dense = dense
        else:
            self.x = r

    def numpy(self):
        for k in ('x', 'data', 'L', 'dense'):
            if getattr(self, k, None) is not None:
                setattr(self, k, np.asarray(getattr(self, k)))
        return self

    @property
    def kind(self):
        return 'plain' if not self.lapl else 'dense' if self.idx is None else 'sparse'


def observe_at(f, points, T, kw=None, dense=True):
    """One compiled transformation evaluated at several points."""
    idx, traces = [], []
    kw = kw or {}

    def g(*xs):
        idx.clear()
        traces.append(1)
        out = []
        for r in forward_laplacian(f, T, disable_jit=True)(*xs, **kw):
            if is_lapl(r):
                idx.append(r.jacobian.x0_idx)
                out.append((r.x, r.jacobian.data, r.laplacian, r.jacobian.dense_array if dense else None))
            else:
                idx.append(None)
                out.append(r)
        return out

    gj = jax.jit(g)
    all_res = []
    for xs in points:
        res = []
        for r, ix in zip(gj(*xs), idx):
            if isinstance(r, tuple):
                o = Obs(FwdLaplArray(r[0], FwdJacobian(r[1], ix), r[2]), r[3])
            else:
                o = Obs(r)
            res.append(o.numpy())
        all_res.append(res)
    assert len(traces) == 1
    return all_res


def observe(f, xs, T, mode='cap', weights=None, dense=True, kwargs=None, jit_name=False):
    """Run forward_laplacian(f, T)(*xs); returns [Obs]. f returns a list.
    cap    inside our own jax.jit, the index arrays are captured at trace time
    eager  disable_jit=True on concrete arrays
    jit    the default (jitted) transformation"""
    kw = dict(kwargs or {})
    if weights is not None:
        kw['weights'] = weights
    if mode == 'cap':
        return observe_at(f, [xs], T, kw, dense)[0]
    r = forward_laplacian(f, T, disable_jit=mode == 'eager')(*xs, **kw)
    return [Obs(q, q.jacobian.dense_array if dense and is_lapl(q) else None).numpy() for q in r]


def dense_of(data, idx, n):
    """Documented meaning of a sparse Jacobian: data[c] is the derivative with
    respect to input idx[c]; -1 is padding; repeated indices add up."""
    data = np.asarray(data)
    out = np.zeros((n, *data.shape[1:]), data.dtype)
    if idx is None:
        out[:data.shape[0]] = data
        return out
    pos = np.indices(data.shape[1:])
    for c in range(data.shape[0]):
        m = idx[c] >= 0
        np.add.at(out, (idx[c][m], *[p[m] for p in pos]), data[c][m])
    return out


# what a loop whose carries change their sparsity pattern may be refused with
LOOP = ('Jacobian sparsity mismatch in scan', 'scan body function carry input and carry output must have equal types')


def refused(ex, T):
    return T != 0 and any(s in str(ex) for s in LOOP)


def close(a, b, rtol=RTOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= rtol * scale)


KIND = dict(f=np.float64, c=np.complex128, b=np.bool_, i=np.int32)
ALL = ('x', 'J', 'L', 'dense', 'dtype', 'struct', 'rep')


def compare(r, e, n, what=ALL, rtol=RTOL, kind=KIND):
    """r: Obs, e: expected tensor dict -> list of complaints.
    x, J, L   numbers (J via the documented meaning of the index array)
    dense     the library's own densification
    dtype     dtypes of all parts
    struct    plain iff the spec says the output carries no derivatives
    rep       the stored Jacobian is well formed: index array is a static integer
              array of the data's shape with entries in -1..n-1, and every input
              the output really depends on is listed"""
    bad = []
    J0 = np.any(np.abs(e['J']) > 1e-9) or np.any(np.abs(e['L']) > 1e-9)
    if not r.lapl:
        if e['dep'] and ('struct' in what or (J0 and ('J' in what or 'L' in what))):
            return ['a plain array was returned for an output that depends on the inputs']
        if 'x' in what and not close(r.x.astype(e['x'].dtype), e['x'], rtol):
            bad.append(f'value {r.x.tolist()} != {e["x"].tolist()}')
        if 'dtype' in what and r.x.dtype != kind[e['dt']]:
            bad.append(f'dtype {r.x.dtype} instead of {kind[e["dt"]].__name__}')
        return bad
    if not e['dep'] and 'struct' in what:
        return ['derivatives attached to an output that carries none']
    if 'x' in what and not close(r.x, e['x'], rtol):
        bad.append(f'value {r.x.tolist()} != {e["x"].tolist()}')
    if r.x.shape != e['sh'] or r.L.shape != e['sh'] or r.data.shape[1:] != e['sh']:
        return bad + [f'shapes x{r.x.shape} J{r.data.shape} L{r.L.shape} for output shape {e["sh"]}']
    if 'dtype' in what:
        for nm, v in (('value', r.x), ('jacobian', r.data), ('laplacian', r.L)):
            if v.dtype != kind[e['dt']]:
                bad.append(f'{nm} dtype {v.dtype} instead of {kind[e["dt"]].__name__}')
    idx = r.idx
    if idx is not None:
        if 'rep' in what:
            if not isinstance(idx, np.ndarray):
                return bad + [f'index array is not static: {type(idx).__name__}']
            if idx.shape != r.data.shape or idx.dtype.kind != 'i':
                return bad + [f'index array {idx.dtype}{idx.shape} for data {r.data.shape}']
            if idx.size and (idx.min() < -1 or idx.max() >= n):
                return bad + [f'index out of range [{idx.min()}, {idx.max()}] for {n} inputs']
            nz = np.abs(e['J']) > 1e-12
            for i in range(n):
                miss = nz[i] & ~np.any(idx == i, axis=0)
                if np.any(miss):
                    bad.append(f'input {i} missing from the index array of output element {np.argwhere(miss)[0].tolist()}')
                    break
        idx = np.broadcast_to(np.asarray(idx), r.data.shape)
    elif r.data.shape[0] > n:
        return bad + [f'dense jacobian has {r.data.shape[0]} rows for {n} inputs']
    if 'J' in what:
        J = dense_of(r.data, idx, n)
        if not close(J, e['J'], rtol):
            bad.append(f'jacobian {J.tolist()} != {e["J"].tolist()}')
    if 'dense' in what and r.dense is not None:
        d = r.dense
        if d.shape[0] > n or d.shape[1:] != e['sh']:
            bad.append(f'densified jacobian has shape {d.shape}')
        else:
            p = np.zeros((n, *e['sh']), d.dtype)
            p[:d.shape[0]] = d
            if not close(p, e['J'], rtol):
                bad.append(f'densified jacobian {p.tolist()} != {e["J"].tolist()}')
    if 'L' in what and not close(r.L, e['L'], rtol):
        bad.append(f'laplacian {r.L.tolist()} != {e["L"].tolist()}')
    return bad


def op_of(beh):
    """env position (0-based) -> operation record that produced it, or None."""
    out = [None] * len(beh['inp']['shs'])
    for op in beh['prog']:
        out += [op] * (2 if op['o'] == 'slogdet' else 1)
    return out


def fmt_op(op, beh):
    if op is None:
        return 'input'
    shs = [beh['env'][i - 1]['sh'] for i in op['a']]
    return f"{op['o']}{':' + op['f'] if op['f'] else ''} k={op['k']} of shapes {shs}"


def nvars(beh):
    return sum(int(np.prod(s, dtype=int)) for s in beh['inp']['shs'])


def wtuple(beh):
    """weights in the spec's record, or None when all are one"""
    ws = [dec(w) for w in beh['inp']['ws']]
    ws = [w.real if isinstance(w, complex) else w for w in ws]
    return None if all(w == 1 for w in ws) else tuple(ws)
