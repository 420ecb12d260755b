import json
from concurrent.futures import ThreadPoolExecutor

from gen import load, run_tasks
from nattrace import collect
from tlc import Tlc

LEVEL = 'model_checking'
RULE = '''spec/MemEst.tla: for all small programs TLC checks that the accounting evaluator (reference counts, running total) returns the
declarative estimate: the maximum over equations of the bytes of everything alive plus the estimate of the called or looped program.
Random programs (all element types, empty arrays, calls and loops nested in each other, repeated operands, dead results,
literals) are estimated by the implementation with inputs given as arguments, in containers, by keyword, beside static arguments and as
constants, twice with different values. spec/Capture.tla: estimates in several threads and inside of one another while other code
prints; TLC checks all interleavings of three threads (and rejects the algorithm that replaces the standard output), random
schedules are forced on real threads or run freely. Non-trivial: at least three equations or a call or loop.'''
ASSUMPTIONS = ['Conditionals, while loops, rematerialised and custom-derivative functions count as single operations, as in the implementation.']


def fmt(P):
    def ty(t):
        return f'{t["dt"]}{t["sh"]}'

    out = []
    for q in P['body']:
        if q['k'] == 'op':
            out.append(f'op{tuple(q["a"])}->{",".join(map(ty, q["ts"]))}')
        else:
            out.append(q['k'] + (f' {q["nc"]},{q["nk"]},x{q["len"]}' if q['k'] == 'scan' else '') + f'{tuple(q["a"])}[{fmt(q["sub"])}]')
    return ','.join(map(ty, P['ps'])) + ': ' + '; '.join(out) + f' => {P["outs"]}'


def judge(ctx, tasks, got, describe, fn, width=8):
    """the estimates of the specification for the programs the implementation saw"""
    idx = sorted(i for i in got if got[i]['est'] is not None)
    parts = [idx[w::width] for w in range(width) if idx[w::width]]
    want = {}
    with Tlc() as t:
        def go(w):
            src, out = t.path(f'mem{w}.json'), t.path(f'mem{w}.out')
            open(out, 'w').close()
            with open(src, 'w') as f:
                json.dump([got[i]['prog'] for i in parts[w]], f)
            r = t.run('MemEst', t.cfg('GivenMemEst.cfg', {}), env={'MEM_IN': src, 'GEN_OUT': out}, timeout=600, heap='3g')
            return r.distinct, [load(l) for l in open(out)]

        with ThreadPoolExecutor(width) as ex:
            for s, ls in ex.map(go, range(len(parts))):
                ctx.cov['states'] += s
                want.update({d['i'] - 1: d['peak'] for d in ls})
    for i in idx:
        if got[i]['est'] != want[i]:
            ctx.violate(f'{got[i]["est"]} bytes instead of {want[i]}\n  in {describe(tasks[i])}\n  as {fmt(got[i]["prog"])[:1500]}', dict(mod='memest', fn=fn, task=tasks[i], want=want[i]))
    ctx.log(f'{len(idx)} estimates compared')


def concurrent(ctx):
    n = 600 if ctx.thorough else 80
    env = {'GEN_OUT': '/dev/null'}
    with Tlc() as t:
        r = t.run('Capture', t.cfg('MCCapture.cfg', {}), workers=4, env=env)
        r2 = t.run('Capture', t.cfg('MCCapture.cfg', dict(Algo='"swap"')), allow=None, env=env)
        assert r2.violated, 'the specification accepts the algorithm that is known to be wrong'
        lines, s = t.simulate('Capture', t.cfg('SimCapture.cfg', {}), n, 80, ctx.seed * 7919 + 151, procs=4)
    ctx.cov['states'] += r.distinct + s
    lines = sorted(set(lines))
    behs = {l: load(l) for l in lines}
    tasks = [dict(beh=l, free=f) for i, l in enumerate(lines) for f in ([0, 1] if i % 3 == 0 else [0])]
    run_tasks(ctx, 'capture', 'run', tasks, lambda t: ('free run of ' if t['free'] else '') + ' '.join(f'{h["a"]}{h["t"]}' for h in behs[t['beh']]['hist']),
              key=lambda t: json.dumps([t['beh'], t['free']]))
    ctx.log(f'{len(tasks)} schedules of estimates')


def check(ctx):
    n = 6000 if ctx.thorough else 900
    env = {'GEN_OUT': '/dev/null'}
    with Tlc() as t:
        ctx.cov['states'] = 0
        overs = [dict(MaxEqn=2, MaxIn=1), dict(MaxEqn=2, MaxOut=1)] if not ctx.thorough else [dict(), dict(MaxEqn=3, MaxIn=1)]
        for o in overs:
            r = t.run('MemEst', t.cfg('MCMemEst.cfg', o), workers=8, env=env, timeout=2400, heap='6g')
            ctx.cov['states'] += r.distinct
        ctx.log(f'{ctx.cov["states"]} states, all invariants hold')
        lines, s = t.simulate('MemEst', t.cfg('SimMemEst.cfg', {}), n, 400, ctx.seed * 7919 + 15, procs=8)
    ctx.cov['states'] += s
    behs = {l: load(l) for l in lines}
    for l in lines[:3]:
        ctx.sample(fmt(behs[l]['main'])[:400])
    tasks = [dict(beh=l, i=i, how=[0, 0, 0b01001000, 0b10000110, 0b00101101, 0b11100001][i % 6], static=[0, 1, 2, 0, 5][i % 5]) for i, l in enumerate(lines)]

    def key(t):
        P = behs[t['beh']]['main']
        return json.dumps(P) if len(P['body']) > 2 or any(q['k'] != 'op' for q in P['body']) else None

    describe = lambda t: f'{fmt(behs[t["beh"]]["main"])} (arguments {t["how"]}, static {t["static"]})'  # noqa: E731
    got = {}
    run_tasks(ctx, 'memest', 'run', tasks, describe, key=key, collect=got)
    judge(ctx, tasks, got, describe, 'run')
    nat = [dict(i=i, id=i) for i in range(70 if ctx.thorough else 35)]
    # functions of natfuns.py, as they are and transformed
    names = collect('memest', 'natnames', [0], ctx.deadline)[0]
    for k, nm in enumerate(names):
        for T in ([None, 0, 4] if ctx.thorough else [[None, 0], [None, 4], [2]][(k + ctx.seed) % 3]):
            nat.append(dict(i=ctx.seed * 10 + k, id=len(nat), name=nm, T=T, max=600 if ctx.thorough else 200))
    got = {}
    run_tasks(ctx, 'memest', 'natural', nat, lambda t: f'natural program {t["i"]} {t.get("name", "")} {t.get("T", "")}', key=lambda t: f'natural {t["id"]}', collect=got)
    judge(ctx, nat, got, lambda t: f'natural program {t["i"]} {t.get("name", "")} {t.get("T", "")}', 'natural')
    concurrent(ctx)
