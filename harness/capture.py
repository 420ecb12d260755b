"""Replaying schedules of Capture.tla: memory estimates in several threads (worker side)."""
import io
import queue
import sys
import threading

from jax import core
import folxrun  # noqa: F401  (configures jax)
import numpy as np
from folx.experimental.memory import compute_memory
from gen import load

gate_p = core.Primitive('gate')
gate_p.def_impl(lambda x, *, key: x)
SEEN = threading.local()


@gate_p.def_abstract_eval
def _(x, *, key):
    # the first time while the function is traced, the second time during the estimate
    n = SEEN.__dict__.setdefault('n', {})
    n[key] = n.get(key, 0) + 1
    if n[key] % 2 == 0:
        RUN.loop(*key)
    return core.ShapedArray(x.shape, x.dtype)


class Boom(Exception):
    pass


class Out(io.TextIOBase):
    def __init__(self):
        self.lock, self.text = threading.Lock(), ''

    def write(self, s):
        with self.lock:
            self.text += s
        return len(s)


RUN = None


class Case:
    def __init__(self, beh, free):
        self.free, self.hist = free, beh['hist']
        self.cmds = {t: queue.Queue() for t in {h['t'] for h in self.hist}}
        self.acks = {t: queue.Queue() for t in self.cmds}
        self.uncaught, self.bad = [], []

    def ack(self, t):
        if not self.free:
            self.acks[t].put(1)

    def loop(self, t, d):
        if d:
            self.ack(t)
        while True:
            c = self.cmds[t].get(timeout=60)
            if c is None or c['a'] == 'leave':
                return
            if c['a'] == 'fail':
                raise Boom(f'{t},{d}')
            if c['a'] == 'warn':
                print(f'MSG{c["n"]};')
                self.ack(t)
            elif c['a'] == 'enter':
                try:
                    SEEN.__dict__.setdefault('n', {}).pop((t, d + 1), None)
                    got = compute_memory(lambda x: gate_p.bind(x, key=(t, d + 1)), np.zeros(10 * t + d + 1))
                    want = 16 * (10 * t + d + 1)
                    if got != want:
                        self.bad.append(f'estimate {d + 1} of thread {t} is {got} instead of {want}')
                    self.ack(t)
                except Boom:
                    self.ack(t)
                    if d:
                        c = self.cmds[t].get(timeout=60)
                        if c['a'] == 'fail':
                            raise
                        assert c['a'] == 'catch', c
                        self.ack(t)

    def thread(self, t):
        try:
            self.loop(t, 0)
        except BaseException as e:  # noqa: BLE001
            self.uncaught.append(f'thread {t}: {type(e).__name__}: {e}')
            for _ in self.hist:
                self.acks[t].put(1)

    def run(self, out):
        ths = {t: threading.Thread(target=self.thread, args=(t,), daemon=True) for t in self.cmds}
        depth = {t: 0 for t in ths}
        if self.free:
            for h in self.hist:
                self.cmds[h['t']].put(h)
        for th in ths.values():
            th.start()
        said = 0
        if not self.free:
            for k, h in enumerate(self.hist):
                self.cmds[h['t']].put(h)
                self.acks[h['t']].get(timeout=60)
                depth[h['t']] += {'enter': 1, 'leave': -1, 'fail': -1}.get(h['a'], 0)
                said += h['a'] == 'warn'
                if self.uncaught:
                    self.bad.append(f'step {k} ({h["a"]} {h["o"]}): {self.uncaught[0]}')
                if not any(depth.values()) and not self.bad:
                    if sys.stdout is not out:
                        self.bad.append(f'step {k} ({h["a"]} {h["o"]}): no estimate is being made, but the standard output is replaced')
                    lost = [i for i in range(1, said + 1) if out.text.count(f'MSG{i};') != 1]
                    if lost:
                        self.bad.append(f'step {k}: no estimate is being made, but messages {lost} were printed {[out.text.count(f"MSG{i};") for i in lost]} times')
                if self.bad:
                    break
        for q in self.cmds.values():
            for _ in range(8):
                q.put(None)
        for th in ths.values():
            th.join(60)
        self.bad += self.uncaught
        if not self.bad:
            n = sum(h['a'] == 'warn' for h in self.hist)
            if sys.stdout is not out:
                self.bad.append('at the end the standard output is replaced')
            elif sorted(out.text.split()) != sorted(f'MSG{i};' for i in range(1, n + 1)):
                self.bad.append(f'printed: {out.text!r} instead of {n} messages')
        return self.bad


def run(arg):
    """beh, free"""
    global RUN
    beh = load(arg['beh'])
    old, si, out = sys.stdout, sys.getswitchinterval(), Out()
    try:
        sys.stdout = out
        if arg['free']:
            sys.setswitchinterval(1e-5)
        RUN = Case(beh, arg['free'])
        bad = RUN.run(out)
    finally:
        sys.setswitchinterval(si)
        sys.stdout = old
    kinds = {}
    for h in beh['hist']:
        kinds[h['a']] = kinds.get(h['a'], 0) + 1
    return dict(bad=bad[:3], ran=len(beh['hist']), kinds=kinds)
