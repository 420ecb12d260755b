"""Recording what ordinary JAX functions execute, as operation records of
spec/FwdLapl (worker side; the records are validated by spec/TraceR).

record(f, xs) walks the trace of f at the concrete inputs xs.  Values that do not
carry derivatives stay concrete and enter as constants; control flow is followed;
every rearrangement of entries (reshape, gather, select, sort, max, ...) becomes one
`index` record, found by running the operation on labels instead of numbers."""
import random

import jax
import jax.extend as jex
import jax.numpy as jnp
import numpy as np

from folxrun import compare, enc, encc, observe, refused, tensor
from adh import derivatives
from natfuns import CFUNS, FUNS
from stages import JIT, modes, operators

Literal = jex.core.Literal


class Unsupported(Exception):
    pass


UN = dict(neg='neg', exp='exp', exp2='exp2', expm1='expm1', log='log', log1p='log1p', sin='sin', cos='cos', tan='tan', tanh='tanh',
          sinh='sinh', cosh='cosh', logistic='logistic', sqrt='sqrt', rsqrt='rsqrt', cbrt='cbrt', asin='asin', acos='acos', atan='atan',
          abs='abs', erf='erf', square='square')
BIN = dict(add='add', sub='sub', mul='mul', div='div', pow='pow', atan2='atan2', add_any='add')
CONST = {'sign', 'floor', 'ceil', 'round', 'stop_gradient', 'is_finite', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'argmax', 'argmin', 'nextafter'}
# data operands of the rearranging primitives
MOVE = dict(broadcast_in_dim=[0], reshape=[0], squeeze=[0], expand_dims=[0], transpose=[0], rev=[0], slice=[0], dynamic_slice=[0],
            dynamic_update_slice=[0, 1], gather=[0], concatenate=None, pad=[0, 1], scatter=[0, 2], copy=[0], copy_p=[0],
            convert_element_type=[0], reduce_precision=[0])


class Rec:
    cplx = False      # numbers of the specification are complex

    def __init__(self, xs):
        self.ops, self.n = [], len(xs)

    def emit(self, o, f, a, k, c=(), outs=1):
        self.ops.append(dict(o=o, f=f, a=list(a), k=k, c=list(c)))
        self.n += outs
        return self.n - outs + 1

    def const(self, v):
        v = np.asarray(v)
        c = np.iscomplexobj(v)
        if c and not Rec.cplx:
            raise Unsupported('complex')
        return self.emit('const', 'c' if c else 'f', [], [list(v.shape)], [(encc if Rec.cplx else enc)(x) for x in v.ravel()])


class Val:
    """concrete value and, if it carries derivatives, its position in env"""

    def __init__(self, v, ref=0):
        self.v, self.ref = np.asarray(v), ref


def pos(rec, x):
    return x.ref or rec.const(x.v)


def index(rec, ops, labels, out):
    """out: concrete value; labels: for every entry of out its number in the
    concatenation of the operands ops"""
    labels = np.asarray(labels).astype(int).ravel()
    off = np.cumsum([0] + [o.v.size for o in ops])
    if labels.size and (labels.min() < 0 or labels.max() >= off[-1]):
        raise Unsupported('fill value')
    arg = np.searchsorted(off, labels, side='right') - 1
    used = sorted(set(arg.tolist()))
    if all(not ops[i].ref for i in used):
        return Val(out)
    refs = [pos(rec, ops[i]) for i in used]
    out = np.asarray(out)
    k = [list(out.shape), [used.index(a) + 1 for a in arg], [int(l - off[a]) + 1 for a, l in zip(arg, labels)]]
    r = rec.emit('index', '', refs, k)
    return Val(out, r)


def labels_of(ops):
    out, o = [], 0
    for x in ops:
        out.append(np.arange(o, o + x.v.size, dtype=np.int32).reshape(x.v.shape))
        o += x.v.size
    return out


def bind(eqn, vals, **over):
    sub, params = eqn.primitive.get_bind_params({**eqn.params, **over})
    out = eqn.primitive.bind(*sub, *[jnp.asarray(v) for v in vals], **params)
    return [np.asarray(o) for o in out] if eqn.primitive.multiple_results else [np.asarray(out)]


def linear(rec, eqn, vals, i):    # real operands only
    """eqn as a linear function of operand i alone, the others concrete"""
    x = vals[i]

    def g(v):
        a = [jnp.asarray(u.v) for u in vals]
        a[i] = v.reshape(x.v.shape)
        return eqn.primitive.bind(*a, **eqn.params).ravel()

    z = np.asarray(g(jnp.zeros(x.v.size)))
    if np.any(z):
        raise Unsupported('affine')
    m = np.asarray(jax.vmap(g)(jnp.eye(x.v.size)))       # [in, out]
    flat = rec.emit('index', '', [x.ref], [[x.v.size], [1] * x.v.size, list(range(1, x.v.size + 1))])
    d = rec.emit('dot', '', [flat, rec.const(m)], [[0], [0], [], []])
    out = bind(eqn, [u.v for u in vals])[0]
    return Val(out, rec.emit('index', '', [d], [list(out.shape), [1] * out.size, list(range(1, out.size + 1))]))


def choose(rec, ops, pick, out, cand):
    """pick: labels; cand: for every entry the concrete candidates (the choice must
    not be a near tie)"""
    for c in cand:
        s = np.sort(np.unique(np.round(np.asarray(c, float), 12)))
        if s.size > 1 and np.min(np.diff(s)) < 1e-3:
            raise Unsupported('near tie')
    return index(rec, ops, pick, out)


def walk(rec, jaxpr, consts, args):
    env = {}

    def read(v):
        return Val(v.val) if isinstance(v, Literal) else env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c if isinstance(c, Val) else Val(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        for v, o in zip(eqn.outvars, step(rec, eqn, [read(v) for v in eqn.invars])):
            env[v] = o if o.v.size else Val(o.v)     # an array without entries has no derivatives
    return [read(v) for v in jaxpr.outvars]


def step(rec, eqn, vals):
    p, par = eqn.primitive.name, eqn.params
    dep = [v.ref != 0 for v in vals]
    if not any(dep) or p in CONST:
        return [Val(o) for o in bind(eqn, [v.v for v in vals])]
    if p == 'pjit':
        nm, j = par['name'], par['jaxpr']
        if nm in ('det', 'inv', 'slogdet') and len(vals) == 1:
            out = walk(Rec([0]), j.jaxpr, j.consts, [Val(v.v) for v in vals])
            r = rec.emit(nm, '', [vals[0].ref], [], outs=len(out))
            if nm == 'slogdet':
                return [Val(out[0].v, r if np.iscomplexobj(out[0].v) else 0), Val(out[1].v, r + 1)]
            return [Val(out[0].v, r)]
        if nm == 'solve' and len(vals) == 2:
            out = walk(Rec([0]), j.jaxpr, j.consts, [Val(v.v) for v in vals])[0].v
            a, b = vals
            if a.v.ndim != 2:
                raise Unsupported('batched solve')
            ia = rec.emit('inv', '', [pos(rec, a)], [])
            return [Val(out, rec.emit('dot', '', [ia, pos(rec, b)], [[1], [0], [], []]))]
        return walk(rec, j.jaxpr, j.consts, vals)
    if p in ('custom_jvp_call', 'closed_call', 'core_call'):
        j = par.get('call_jaxpr')
        return walk(rec, j.jaxpr, j.consts, vals)
    if p == 'custom_vjp_call_jaxpr':
        j = par['fun_jaxpr']
        return walk(rec, j.jaxpr, j.consts, vals)
    if p in ('remat', 'remat2', 'checkpoint'):
        return walk(rec, par['jaxpr'], [], vals)
    if p == 'cond':
        j = par['branches'][int(np.clip(int(vals[0].v), 0, len(par['branches']) - 1))]
        return walk(rec, j.jaxpr, j.consts, vals[1:])
    if p == 'while':
        cn, bn = par['cond_nconsts'], par['body_nconsts']
        cc, bc, c = vals[:cn], vals[cn:cn + bn], vals[cn + bn:]
        for _ in range(100):
            t = walk(Rec([0]), par['cond_jaxpr'].jaxpr, par['cond_jaxpr'].consts, [Val(v.v) for v in cc + c])[0]
            if not t.v:
                return c
            c = walk(rec, par['body_jaxpr'].jaxpr, par['body_jaxpr'].consts, bc + c)
        raise Unsupported('long while')
    if p == 'scan':
        nc, nk, j = par['num_consts'], par['num_carry'], par['jaxpr']
        cs, k, xs = vals[:nc], vals[nc:nc + nk], vals[nc + nk:]
        ys = [None] * par['length']
        order = range(par['length'])
        for i in (reversed(order) if par['reverse'] else order):
            sl = [index(rec, [x], np.arange(x.v.size).reshape(x.v.shape)[i], x.v[i]) for x in xs]
            out = walk(rec, j.jaxpr, j.consts, cs + k + sl)
            k, ys[i] = out[:nk], out[nk:]
        res = []
        for q in range(len(j.jaxpr.outvars) - nk):
            col = [y[q] for y in ys]
            res.append(index(rec, col, np.stack(labels_of(col)), np.stack([c.v for c in col])))
        return k + res
    out = bind(eqn, [v.v for v in vals])
    if Rec.cplx and p == 'abs':
        return [Val(out[0], rec.emit('cabs', '', [vals[0].ref], []))]
    if p in ('real', 'imag', 'conj'):
        return [Val(out[0], rec.emit('lin', dict(real='re', imag='im', conj='conj')[p], [vals[0].ref], []))]
    if p == 'complex' or p == 'convert_element_type' and np.iscomplexobj(out[0]) and not np.iscomplexobj(vals[0].v):
        im = pos(rec, vals[1]) if p == 'complex' else rec.const(np.zeros(out[0].shape))
        return [Val(out[0], rec.emit('cplx', '', [pos(rec, vals[0]), im], []))]
    if p in UN:
        return [Val(out[0], rec.emit('un', UN[p], [vals[0].ref], []))]
    if p == 'integer_pow':
        return [Val(out[0], rec.emit('ipow', '', [vals[0].ref], [[int(par['y'])]]))]
    if p in BIN:
        return [Val(out[0], rec.emit('bin', BIN[p], [pos(rec, v) for v in vals], []))]
    if p in ('max', 'min'):
        a, b = vals
        first = (a.v >= b.v) if p == 'max' else (a.v <= b.v)
        bc = [np.broadcast_to(l, out[0].shape) for l in labels_of(vals)]
        pick = np.where(np.broadcast_to(first, out[0].shape), *bc)
        return [choose(rec, vals, pick, out[0], list(zip(np.broadcast_to(a.v, out[0].shape).ravel(), np.broadcast_to(b.v, out[0].shape).ravel())))]
    if p == 'clamp':
        lo, x, hi = vals
        l = [np.broadcast_to(q, out[0].shape) for q in labels_of(vals)]
        pick = np.where(x.v < lo.v, l[0], np.where(x.v > hi.v, l[2], l[1]))
        return [choose(rec, vals, pick, out[0], list(zip(x.v.ravel(), np.broadcast_to(lo.v, x.v.shape).ravel(), np.broadcast_to(hi.v, x.v.shape).ravel())))]
    if p in ('reduce_sum', 'reduce_prod'):
        if not par['axes']:
            return [Val(out[0], vals[0].ref)]
        return [Val(out[0], rec.emit(p[7:], '', [vals[0].ref], [sorted(map(int, par['axes']))]))]
    if p in ('reduce_max', 'reduce_min'):
        ax = sorted(map(int, par['axes']))
        x = vals[0].v
        keep = [d for d in range(x.ndim) if d not in ax]
        flat = np.transpose(x, keep + ax).reshape(out[0].size, -1)
        lab = np.transpose(labels_of(vals)[0], keep + ax).reshape(out[0].size, -1)
        w = (np.argmax if p == 'reduce_max' else np.argmin)(flat, axis=1)
        return [choose(rec, vals, lab[np.arange(len(w)), w], out[0], flat)]
    if p in ('cumsum', 'cumprod'):
        return [Val(out[0], rec.emit(p, '', [vals[0].ref], [[int(par['axis'])], [int(par['reverse'])]]))]
    if p == 'dot_general':
        (lc, rc), (lb, rb) = par['dimension_numbers']
        k = [list(map(int, q)) for q in (lc, rc, lb, rb)]
        return [Val(out[0], rec.emit('dot', '', [pos(rec, v) for v in vals], k))]
    if p == 'select_n':
        lab = labels_of(vals[1:])
        return [index(rec, vals[1:], np.choose(np.broadcast_to(vals[0].v.astype(int), lab[0].shape), lab), out[0])]
    if p == 'sort':
        lab = labels_of(vals)
        nk = par['num_keys']
        keys = [np.sort(np.unique(np.round(v.v.astype(float), 12))) for v in vals[:nk]]
        if any(k.size > 1 and np.min(np.diff(k)) < 1e-3 for k in keys):
            raise Unsupported('near tie')
        full = eqn.primitive.bind(*[jnp.asarray(v.v) for v in vals], *map(jnp.asarray, lab), **par)
        return [index(rec, vals, l, o) if np.issubdtype(o.dtype, np.floating) else Val(o) for o, l in zip(out, full[len(vals):])]
    if p == 'top_k':
        l = np.take_along_axis(labels_of(vals)[0], out[1], -1)
        return [index(rec, vals, l, out[0]), Val(out[1])]
    if p == 'cholesky':
        return [Val(out[0], rec.emit('chol', '', [vals[0].ref], []))]
    if p == 'triangular_solve':
        a, b = vals
        if not par['left_side'] or par['unit_diagonal'] or par['conjugate_a'] or a.v.ndim != 2:
            raise Unsupported(p)
        z = Val(np.zeros(1))
        n = a.v.shape[0]
        lab = labels_of([a, z])
        tri = np.tril if par['lower'] else np.triu
        m = index(rec, [a, z], np.where(tri(np.ones((n, n))) > 0, lab[0], lab[1]), tri(a.v))
        ia = rec.emit('inv', '', [pos(rec, m)], [])
        return [Val(out[0], rec.emit('dot', '', [ia, pos(rec, b)], [[0 if par['transpose_a'] else 1], [0], [], []]))]
    if p in MOVE:
        data = MOVE[p] if MOVE[p] is not None else list(range(len(vals)))
        if not np.issubdtype(out[0].dtype, np.inexact):
            return [Val(out[0])]
        ops = [vals[i] for i in data]
        lab = labels_of(ops)
        a = [v.v for v in vals]
        for i, l in zip(data, lab):
            a[i] = l
        over = dict(new_dtype=np.dtype('int32')) if p == 'convert_element_type' else {}
        l = lab[0] if p in ('convert_element_type', 'reduce_precision', 'copy', 'copy_p') else bind(eqn, a, **over)[0]
        return [index(rec, ops, l, out[0])]
    if p == 'scatter-add':
        base, ids, upd = vals
        res = base
        if upd.ref:
            zero = Val(np.zeros(base.v.shape))
            res = linear(rec, eqn, [zero, ids, upd], 2)
            if np.any(base.v) or base.ref:
                res = Val(out[0], rec.emit('bin', 'add', [res.ref, pos(rec, base)], []))
            return [res]
        extra = bind(eqn, [np.zeros(base.v.shape), ids.v, upd.v])[0]
        return [Val(out[0], rec.emit('bin', 'add', [base.ref, rec.const(extra)], []))]
    if p == 'erfc':
        return [Val(out[0], rec.emit('bin', 'sub', [rec.const(1.0), rec.emit('un', 'erf', [vals[0].ref], [])], []))]
    if p == 'scatter-mul' and dep == [True, False, False]:
        return [linear(rec, eqn, vals, 0)]
    if p in ('conv_general_dilated', 'reduce_window_sum', 'real', 'fft') and sum(dep) == 1 and p != 'fft':
        return [linear(rec, eqn, vals, dep.index(True))]
    raise Unsupported(p)


def dce(ops, nin, outs):
    """only the records the outputs need, renumbered"""
    made, q = {}, nin
    for i, o in enumerate(ops):
        w = 2 if o['o'] == 'slogdet' else 1
        for r in range(w):
            made[q + 1 + r] = i
        q += w
    need, todo = set(), [o for o in outs if o > nin]
    while todo:
        i = made[todo.pop()]
        if i not in need:
            need.add(i)
            todo += [a for a in ops[i]['a'] if a > nin]
    new, ren, q, c = [], {i: i for i in range(1, nin + 1)}, nin, nin
    for i, o in enumerate(ops):
        w = 2 if o['o'] == 'slogdet' else 1
        if i in need:
            for r in range(w):
                ren[c + 1 + r] = q + 1 + r
            new.append({**o, 'a': [ren[a] for a in o['a']]})
            q += w
        c += w
    return new, [ren[o] for o in outs]


def record(f, xs, ws, cplx=False):
    e = encc if cplx else enc
    Rec.cplx = cplx
    j = jax.make_jaxpr(f)(*xs)
    rec = Rec(xs)
    outs = walk(rec, j.jaxpr, j.consts, [Val(x, i + 1 if x.size else 0) for i, x in enumerate(xs)])
    refs = [pos(rec, o) for o in outs]
    ops, refs = dce(rec.ops, len(xs), refs)
    return dict(inp=dict(shs=[list(x.shape) for x in xs], vals=[e(v) for x in xs for v in x.ravel()], ws=[e(w) for w in ws]),
                prog=ops, outs=refs)


def setup(name, seed, pt=0):
    """function, inputs (pt 1: other inputs of the same function)"""
    f, xs = {**FUNS, **CFUNS}[name](np.random.RandomState(seed))
    if pt:
        r = np.random.RandomState(seed + 7)
        xs = [x * 0.93 + 0.04 * r.uniform(-1, 1, x.shape) for x in xs]
    return f, xs


def scalar(f, xs):
    """one number of one flat array: weighted sums of the outputs of f"""
    def g(flat):
        out, o = 0.0, 0
        args = []
        for x in xs:
            args.append(flat[o:o + x.size].reshape(x.shape))
            o += x.size
        for k, v in enumerate(f(*args)):
            out = out + (1 + k % 3) * jnp.sum(v * (1 + jnp.arange(v.size).reshape(v.shape) % 2))
        return [out]
    return g, [np.concatenate([x.ravel() for x in xs])]


WS = (1.0, 0.5, 2.0, -1.5, 1.3)


def weights_for(n, seed, weighted):
    r = random.Random(seed)
    return [r.choice(WS) if weighted else 1.0 for _ in range(n)]


def prims(jaxpr):
    return {e.primitive.name for e in jaxpr.eqns}.union(*(prims(j) for j in jax.core.subjaxprs(jaxpr)))


def make(arg):
    """{name, seed, weighted} -> record, or the reason why there is none"""
    f, xs = setup(arg['name'], arg['seed'], arg.get('pt', 0))
    if arg.get('scalar'):
        f, xs = scalar(f, xs)
    if sum(x.size for x in xs) > arg.get('max', 99):
        return dict(name=arg['name'], no='many inputs')
    if arg.get('reverse') and 'while' in prims(jax.make_jaxpr(f)(*xs).jaxpr):
        return dict(name=arg['name'], no='reverse')       # jax refuses
    try:
        r = record(f, xs, weights_for(len(xs), arg['seed'], arg.get('weighted')), arg['name'] in CFUNS)
    except Unsupported as ex:
        return dict(name=arg['name'], no=str(ex))
    return dict(rec=r, **arg)


def run(arg):
    """the outputs of forward_laplacian against what the specification computed"""
    f, xs = setup(arg['name'], arg['seed'])
    n = int(sum(x.size for x in xs))
    ws = weights_for(len(xs), arg['seed'], arg.get('weighted'))
    exp = [tensor(t) for t in arg['out']]
    bad, ran, kinds = [], 0, {}
    for T in arg['Ts']:
        T = n if T == 'N' else max(1, n // 2) if T == 'N/2' else T
        try:
            res = observe(lambda *a: list(f(*a)), xs, T, arg.get('mode', 'cap'), weights=tuple(ws) if arg.get('weighted') else None)
        except Exception as ex:  # noqa: BLE001
            if refused(ex, T):
                continue
            bad.append(f'threshold {T}: raised {type(ex).__name__}: {str(ex)[:300]}')
            continue
        ran += 1
        for i, (r, e) in enumerate(zip(res, exp)):
            c = compare(r, e, n, tuple(arg['what']))
            kinds[r.kind] = kinds.get(r.kind, 0) + 1
            if c:
                bad.append(f'threshold {T}: output {i}: ' + '; '.join(s[:400] for s in c[:3]))
                break
    return dict(bad=bad, ran=ran, kinds=kinds)


def run_operators(arg):
    """two points of a scalar function under an operator"""
    f, xs = setup(arg['name'], arg['seed'])
    pts = [scalar(f, setup(arg['name'], arg['seed'], k)[1])[1][0] for k in (0, 1)]
    g = scalar(f, xs)[0]
    exp = [[tensor(t) for t in o] for o in arg['out']]
    return operators(lambda x: g(x)[0], pts, [(e[0]['L'].reshape(())[()], e[0]['J'].reshape(-1)) for e in exp], dict(arg, loops=True))


def run_modes(arg):
    f, xs = setup(arg['name'], arg['seed'])
    pts = [xs, setup(arg['name'], arg['seed'], 1)[1]]
    exp = [[tensor(t) for t in o] for o in arg['out']]
    n = int(sum(x.size for x in xs))
    return modes(lambda *a: list(f(*a)), pts, exp, n, dict(arg, loops=True), lambda res, e, label: [
        f'{label}: output {i}: ' + '; '.join(q[:400] for q in c[:3]) for i, (r, t) in enumerate(zip(res, e)) for c in [compare(r, t, n, JIT)] if c][:1])


def run_ad(arg):
    f, xs = setup(arg['name'], arg['seed'])
    n = int(sum(x.size for x in xs))
    out = dict(bad=[], ran=0, kinds={})
    for j, t in enumerate(arg['out']):
        if t['dep']:
            derivatives(lambda *a: f(*a)[j], t, xs, n, dict(cplx=0, jit=arg['jit']), out)  # noqa: B023
    return out


def names(which):
    return sorted(CFUNS if which == 'C' else FUNS)
