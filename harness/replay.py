"""Replaying specification behaviours into the implementation (worker side)."""
from folxrun import *  # noqa: F403
from folxrun import ALL, build, compare, dec, fmt_op, inputs, load, np, nvars, observe, observe_at, op_of, tensor, wtuple  # noqa


def skip_op(beh):
    return False


def run(arg):
    """arg: beh (line), Ts, mode, what. Returns dict(bad=[...], n=..., widths)."""
    beh = load(arg['beh'])
    n = nvars(beh)
    exp = [tensor(t) for t in beh['env']]
    ops = op_of(beh)
    f = build(beh['prog'])
    xs = inputs(beh)
    what = tuple(arg.get('what', ALL))
    bad, ran, kinds = [], 0, {}
    for T in arg['Ts']:
        T = resolve_T(T, n)
        try:
            if arg.get('points'):
                res = observe_at(f, [xs, inputs(beh, 'vals2')], T, dict(weights=wtuple(beh)) if arg.get('weights') else None)
                c = first_bad(res[1], [tensor(t) for t in beh['env2']], n, what, ops, beh)
                if c:
                    bad.append(f'threshold {T}, second point: {c}')
                res = res[0]
            else:
                res = observe(f, xs, T, arg.get('mode', 'cap'), weights=wtuple(beh) if arg.get('weights') else None,
                              dense='dense' in what)
        except Exception as ex:  # noqa: BLE001
            bad.append(f'threshold {T}: raised {type(ex).__name__}: {str(ex)[:300]} [{blame(beh, T, arg)}]')
            continue
        ran += 1
        if len(res) != len(exp):
            bad.append(f'threshold {T}: {len(res)} outputs instead of {len(exp)}')
            continue
        for i, (r, e) in enumerate(zip(res, exp)):
            c = compare(r, e, n, what)
            if not c and arg.get('eff'):
                c = check_eff(r, beh['reps'][i], n, T, e)
            kinds[r.kind] = kinds.get(r.kind, 0) + 1
            if c:
                bad.append(f'threshold {T}: {fmt_op(ops[i], beh)}: ' + '; '.join(s[:400] for s in c[:3]))
                break
    return dict(bad=bad, ran=ran, kinds=kinds)


def first_bad(res, exp, n, what, ops, beh):
    for i, (r, e) in enumerate(zip(res, exp)):
        c = compare(r, e, n, what)
        if c:
            return f'{fmt_op(ops[i], beh)}: ' + '; '.join(s[:400] for s in c[:3])
    return None


def resolve_T(T, n):
    """'N' is the number of inputs, 'N-1' one less; fractions stay as they are"""
    if T == 'N':
        return n
    if T == 'N-1':
        return max(1, n - 1)
    return T


def blame(beh, T, arg):
    """first operation whose inclusion raises"""
    xs = inputs(beh)
    for last in range(1, len(beh['prog']) + 1):
        try:
            observe(build(beh['prog'], 0, last), xs, T, arg.get('mode', 'cap'), dense=False)
        except Exception:  # noqa: BLE001
            return fmt_op(beh['prog'][last - 1], beh)
    return 'densification'


def check_eff(r, rep, n, T, e):
    """Effectiveness of the sparse representation against the spec's model."""
    t = int(T * n) if 0 < T < 1 else int(T)
    t = min(t, n)
    if not e['dep'] or t < 1 or not r.lapl:
        return []
    kw = rep['kw'][t - 1]
    if kw['k'] == 's':
        if r.idx is None:
            return [f'Jacobian is stored dense, the model keeps it sparse with at most {kw["w"]} columns']
        if r.data.shape[0] > kw['w']:
            return [f'sparse Jacobian has {r.data.shape[0]} columns, the model allows {kw["w"]}']
    if kw['k'] == 'd' and r.idx is not None:
        return ['Jacobian is stored sparse where the model says dense']
    if r.idx is not None and isinstance(r.idx, np.ndarray) and r.idx.shape[1:] == e['sh']:
        flat = r.idx.reshape(r.idx.shape[0], -1)
        for j, sup in enumerate(rep['sup']):
            extra = set(flat[:, j].tolist()) - {-1} - {s - 1 for s in sup}
            if extra:
                return [f'element {j} lists inputs {sorted(extra)} it cannot depend on']
    return []
