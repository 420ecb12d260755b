"""Worker processes that survive crashes and hangs of the code under test."""
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))


def _worker(conn, repo):
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)
    # keep the parent's stdout clean
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        mod, fn, arg = msg
        try:
            res = ('ok', getattr(importlib.import_module(mod), fn)(arg))
        except BaseException as e:  # noqa: BLE001
            tb = traceback.format_exc()
            res = ('exc', f'{type(e).__name__}: {e}'[:600] + '\n' + tb[-1800:])
        conn.send(res)


class Pool:
    def __init__(self, n=8, repo=None, task_timeout=240):
        self.ctx = mp.get_context('spawn')
        self.n, self.task_timeout = n, task_timeout
        # VERIF_REPO is for trying planted bugs on copies while developing
        self.repo = repo or os.environ.get('VERIF_REPO', '/repo')

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.repo), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0]

    def map(self, mod, fn, args, deadline=None, on_result=None):
        """Yields (index, status, value) in completion order; status is 'ok',
        'exc' (uncaught exception), 'crash' or 'hang'. Tasks not started before
        `deadline` are skipped."""
        todo = list(enumerate(args))[::-1]
        tries = {}
        ws = []
        try:
            while todo or any(w[2] is not None for w in ws):
                if deadline is not None and time.time() > deadline:
                    todo = []
                while todo and len(ws) < self.n:
                    ws.append(self._spawn())
                for w in ws:
                    if w[2] is None and todo:
                        w[2] = todo.pop()
                        w[3] = time.time()
                        try:
                            w[1].send((mod, fn, w[2][1]))
                        except (BrokenPipeError, OSError):
                            pass
                busy = [w for w in ws if w[2] is not None]
                if not busy:
                    break
                ready = wait([w[1] for w in busy] + [w[0].sentinel for w in busy], timeout=2)
                for w in busy:
                    i, arg = w[2]
                    if w[1] in ready or w[0].sentinel in ready:
                        try:
                            if w[1].poll(0):
                                st, val = w[1].recv()
                                w[2] = None
                                yield i, st, val
                                continue
                        except (EOFError, OSError):
                            pass
                        if w[0].is_alive() and w[0].sentinel not in ready:
                            continue
                        kind = 'crash'
                    elif time.time() - w[3] > self.task_timeout:
                        kind = 'hang'
                    else:
                        continue
                    w[0].kill()
                    w[0].join()
                    ws.remove(w)
                    tries[i] = tries.get(i, 0) + 1
                    if tries[i] < 2:
                        todo.append((i, arg))
                    else:
                        yield i, kind, f'worker {kind} twice on this case (exit code {w[0].exitcode})'
        finally:
            for w in ws:
                try:
                    w[1].send(None)
                except Exception:  # noqa: BLE001
                    pass
            for w in ws:
                w[0].join(1)
                if w[0].is_alive():
                    w[0].kill()
