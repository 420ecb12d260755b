"""Replaying schedules of LogPrefix.tla with real threads and transformations (worker side)."""
import io
import logging
import queue
import re
import sys
import threading

import jax
import numpy as np
from jax import core
from jax.interpreters import mlir
import folxrun  # noqa: F401  (configures jax)
from folx import forward_laplacian, register_function
from gen import load

probe_p = core.Primitive('probe')
probe_p.def_impl(lambda x, *, key: x)
probe_p.def_abstract_eval(lambda x, *, key: x)


# cannot be evaluated ahead of time, only compiled
late_p = core.Primitive('late')


def _late(x, *, key):
    raise NotImplementedError('late')


late_p.def_impl(_late)
late_p.def_abstract_eval(lambda x, *, key: x)
mlir.register_lowering(late_p, mlir.lower_fun(lambda x, *, key: x * 1.0, multiple_results=False))


class Boom(Exception):
    pass


class Rec(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(self.format(record))


class Err(io.TextIOBase):
    def __init__(self):
        self.lock, self.text = threading.Lock(), ''

    def write(self, s):
        with self.lock:
            self.text += s
        return len(s)


PROGS = {}


def prog(t, d):
    """a program whose only operation has a source location of its own"""
    if (t, d) not in PROGS:
        ns = dict(probe_p=probe_p)
        exec(compile(f'def call(x):\n    return probe_p.bind(x, key=({t}, {d}))', f'/src/probe_{t}_{d}.py', 'exec'), ns)
        PROGS[t, d] = ns['call']
    return PROGS[t, d]


def prog_jvp(t, d):
    """the same with a function with a derivative of its own, whose code runs while it is processed"""
    todo = [1]
    f = jax.custom_jvp(lambda x: x * 1.0)

    @f.defjvp
    def jvp(primals, tangents):
        if todo:
            todo.clear()
            RUN.inside(t, d)
        return primals[0] * 1.0, tangents[0] * 1.0

    ns = dict(f=f)
    exec(compile('def call(x):\n    return f(x)', f'/src/probe_{t}_{d}.py', 'exec'), ns)
    return ns['call']


def prog_late(t, d, k):
    ns = dict(late_p=late_p, c=np.array([2.0, float(k)]))
    exec(compile(f'def call(x):\n    return x * late_p.bind(c, key={k})', f'/src/probe_{t}_{d}.py', 'exec'), ns)
    return ns['call']


RUN = None


def rule(args, kwargs, sparsity_threshold):
    RUN.inside(*kwargs['key'])
    return args[0]


register_function(probe_p, rule)


class Case:
    def __init__(self, beh, free, jit, T):
        self.free, self.jit, self.T = free, jit, T
        self.hist = beh['hist']
        self.cmds = {t: queue.Queue() for t in {h['t'] for h in self.hist}}
        self.acks = {t: queue.Queue() for t in self.cmds}
        self.entered = {}
        self.msg = 0
        self.uncaught = []

    # -------------------------------------------------- in the threads
    def ack(self, t):
        if not self.free:
            self.acks[t].put(1)

    def nested(self, t, d, k):
        x = np.array([0.5, 1.0])
        forward_laplacian(prog_jvp(t, d) if k % 4 == 1 else prog(t, d), sparsity_threshold=self.T, disable_jit=not self.jit)(x)

    def loop(self, t, d):
        while True:
            c = self.cmds[t].get(timeout=60)
            if c is None or c['a'] == 'leave':
                return
            if c['a'] == 'fail':
                raise Boom(f'{t},{d}')
            if c['a'] == 'warn':
                logging.getLogger(*(['some.module'] if c['k'] % 3 == 0 else [])).warning(f'MSG{c["k"]};')
                self.ack(t)
            elif c['a'] == 'report':
                forward_laplacian(prog_late(t, d + 1, c['k']), sparsity_threshold=2)(np.array([0.5, 1.0]))
                self.ack(t)
            elif c['a'] == 'enter':
                try:
                    self.nested(t, d + 1, c['k'])
                    self.ack(t)
                except Boom:
                    self.ack(t)
                    if d:
                        c = self.cmds[t].get(timeout=60)
                        if c['a'] == 'fail':
                            raise
                        assert c['a'] == 'catch', c
                        self.ack(t)

    def inside(self, t, d):
        self.ack(t)
        self.loop(t, d)

    def thread(self, t):
        try:
            self.loop(t, 0)
        except BaseException as e:  # noqa: BLE001
            self.uncaught.append(f'thread {t}: {type(e).__name__}: {e}')
            self.acks[t].put(1)

    # ------------------------------------------------------ the driver
    def run(self, err, origs):
        bad = []
        root = logging.getLogger()
        config = lambda: ([(h, h.formatter, h.level) for h in root.handlers], root.level, list(root.filters), root.disabled)  # noqa: E731
        before = config()
        ths = {t: threading.Thread(target=self.thread, args=(t,), daemon=True) for t in self.cmds}
        for k, h in enumerate(self.hist):
            h['k'] = k
        if self.free:
            for h in self.hist:
                self.cmds[h['t']].put(h)
            for q in self.cmds.values():
                q.put(None)
        for th in ths.values():
            th.start()
        if not self.free:
            for k, h in enumerate(self.hist):
                pos = len(err.text)
                self.cmds[h['t']].put(h)
                self.acks[h['t']].get(timeout=60)
                new = err.text[pos:]
                if self.uncaught:
                    return [f'step {k} ({h["a"]} {h["o"]}): ' + self.uncaught[0]]
                names = ['probe_%d_%d.' % tuple(p) for p in h['pre']]
                if h['a'] == 'warn' and root.level <= logging.WARNING:
                    got = [l for l in new.splitlines() if f'MSG{k};' in l]
                    if len(got) + sum(f'MSG{k};' in l for o in origs for l in o.lines) != 1 or not got:
                        bad.append(f'step {k}: a warning is emitted {len(got)} times with a prefix, '
                                   f'{sum(f"MSG{k};" in l for o in origs for l in o.lines)} times by the original handlers')
                    elif set(re.findall(r'probe_\d+_\d+\.', got[0])) != {names[0]}:
                        bad.append(f'step {k}: the prefix of {got[0]!r} is not {names[0]}')
                for l in new.splitlines():
                    m = re.match(r'(?:WARNING|ERROR):\[folx\].*?(probe_\d+_\d+\.)', l)
                    if m and m.group(1) not in names:
                        bad.append(f'step {k} ({h["a"]} {h["o"]}): report {l[:100]!r} instead of {names}')
                if h['a'] == 'report' and root.level <= logging.WARNING:
                    got = [l for l in new.splitlines() if 'late' in l and names[0] in l]
                    if len(got) != 1 or any('late' in l for o in origs for l in o.lines):
                        bad.append(f'step {k}: a failing evaluation ahead of time is reported as {new[:200]!r} instead of once with {names[0]}')
                if not h['act'] and config() != before:
                    bad.append(f'step {k} ({h["a"]} {h["o"]}): nothing is being processed, but the logger is configured {config()} instead of {before}')
                if bad:
                    break
            for q in self.cmds.values():
                for _ in range(8):
                    q.put(None)
        for th in ths.values():
            th.join(60)
        if bad:
            return bad
        bad += self.uncaught
        if self.free:
            for k, h in enumerate(self.hist):
                if h['a'] == 'warn' and root.level <= logging.WARNING:
                    got = [l for l in err.text.splitlines() if f'MSG{k};' in l]
                    other = sum(f'MSG{k};' in l for o in origs for l in o.lines)
                    if len(got) != 1 or other or 'probe_' not in got[0]:
                        bad.append(f'free run: warning {k} of {h["o"]} is emitted as {got[:2]} and {other} times by the original handlers')
        if config() != before:
            bad.append(f'at the end the logger is configured {config()} instead of {before}')
        for o in origs:
            o.lines.clear()
        pos = len(err.text)
        logging.error('after')
        for o in origs:
            if o.lines != [o.formatter.format(logging.LogRecord('root', logging.ERROR, '', 0, 'after', None, None)) if o.formatter else 'after']:
                bad.append(f'a message after the transformations reads {o.lines}')
        if origs and len(err.text) != pos:
            bad.append('a message after the transformations was also printed')
        return bad


def run(arg):
    """beh, free, jit, T, norig, level"""
    global RUN
    beh = load(arg['beh'])
    root = logging.getLogger()
    old = root.handlers[:], root.level, sys.stderr, logging.root.manager.disable
    err = Err()
    origs = [Rec() for _ in range(arg['norig'])]
    for i, o in enumerate(origs):
        if i % 2 == 0:
            o.setFormatter(logging.Formatter('%(levelname)s %(name)s | %(message)s'))
    si = sys.getswitchinterval()
    try:
        logging.disable(logging.NOTSET)
        root.handlers[:] = origs
        root.setLevel(arg['level'])
        sys.stderr = err
        if arg['free']:
            sys.setswitchinterval(1e-5)
        RUN = Case(beh, arg['free'], arg['jit'], arg['T'])
        bad = RUN.run(err, origs)
    finally:
        sys.setswitchinterval(si)
        sys.stderr = old[2]
        root.handlers[:] = old[0]
        root.setLevel(old[1])
        logging.disable(old[3])
        jax.clear_caches() if arg.get('clear') else None
    kinds = {}
    for h in beh['hist']:
        kinds[h['a']] = kinds.get(h['a'], 0) + 1
    return dict(bad=bad, ran=len(beh['hist']), kinds=kinds)
