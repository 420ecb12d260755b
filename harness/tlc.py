"""Running TLC on the specifications in /verif/spec."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (
            tuple(int(v.replace(',', '')) for v in m[-1]) if m else (0, 0)
        )
        if not m:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            self.generated = int(m[-1].replace(',', '')) if m else 0
            self.distinct = self.generated
        self.ok = rc == 0
        # 12 = safety violation, 13 = liveness
        self.violated = rc in (12, 13)
        t = re.findall(r'^\s*(?:Error|Invariant|Action property).*$', out, re.M)
        self.message = ' / '.join(x.strip() for x in t[:4])


class Tlc:
    """One scratch directory, removed on close."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='folxtlc')
        self.n = 0
        r = subprocess.run(
            ['javac', '-cp', JARS, '-d', self.dir, os.path.join(SPEC, 'R64.java')],
            capture_output=True, text=True, timeout=200,
        )
        if r.returncode:
            raise TLCError('javac: ' + r.stderr[-500:])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def path(self, name):
        return os.path.join(self.dir, name)

    def cfg(self, base, over):
        """A configuration: file `base` with constants replaced by `over`
        (values starting with '<-' are definition overrides)."""
        lines = open(os.path.join(SPEC, base)).read().splitlines()
        out, done = [], set()
        for l in lines:
            m = re.match(r'\s*(\w+)\s*(<-|=)', l)
            if m and m.group(1) in over:
                v = str(over[m.group(1)])
                out.append(f' {m.group(1)} {v if v.startswith("<-") else "= " + v}')
                done.add(m.group(1))
            else:
                out.append(l)
        missing = set(over) - done
        if missing:
            raise TLCError(f'no constants {missing} in {base}')
        self.n += 1
        p = self.path(f'c{self.n}_{base}')
        open(p, 'w').write('\n'.join(out) + '\n')
        return p

    def run(self, module, cfg, args=(), env=None, timeout=600, workers=1, heap='2g', allow=(0,), dfs=False):
        self.n += 1
        meta = self.path(f'm{self.n}')
        cmd = [
            'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m',
            *(['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if dfs else []),
            '-cp', f'{self.dir}:{JARS}', 'tlc2.TLC',
            '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), *args,
            '-config', cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg),
            os.path.join(SPEC, module + '.tla'),
        ]
        try:
            r = subprocess.run(
                cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout,
                env={**os.environ, **{k: str(v) for k, v in (env or {}).items()}},
            )
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        res = Result(r.stdout + r.stderr, r.returncode)
        if workers > 1 and 'unexpected exception' in res.out:
            # TLC normalises shared records lazily and not thread-safely
            return self.run(module, cfg, args, env, timeout, 1, heap, allow, dfs)
        if allow is not None and r.returncode not in allow:
            raise TLCError(f'{module}: TLC exit {r.returncode}\n' + res.out[-3000:])
        return res

    def simulate(self, module, cfg, num, depth, seed, procs=4, env=None, timeout=600):
        """Random behaviours; returns the list of JSON lines they wrote, in a
        deterministic order, and the number of states generated."""
        per = [num // procs + (i < num % procs) for i in range(procs)]
        outs = [self.path(f'gen{self.n}_{i}') for i in range(procs)]
        self.n += 1

        def go(i):
            if not per[i]:
                return 0
            open(outs[i], 'w').close()
            return self.run(
                module, cfg, ['-simulate', f'num={per[i]}', '-depth', str(depth), '-seed', str(seed * 1000003 + i)],
                env={**(env or {}), 'GEN_OUT': outs[i]}, timeout=timeout,
            ).generated

        # metadir names use self.n, so start the runs one after another
        with ThreadPoolExecutor(procs) as ex:
            states = list(ex.map(go, range(procs)))
        lines = []
        for p in outs:
            if os.path.exists(p):
                lines += [l for l in open(p) if l.strip()]
                os.remove(p)
        return lines, sum(states)
