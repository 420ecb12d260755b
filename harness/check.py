"""check.py PID [--replay FILE]: decides one property. Exit 0: held on
everything explored; 1: VIOLATION lines were printed; 2: the check itself broke."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
from core import Ctx, main_exit  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('props.' + pid.lower())
    ctx = Ctx(pid, mod.LEVEL)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        from gen import run_tasks
        case = json.load(open(sys.argv[3]))['case']
        run_tasks(ctx, case['mod'], case['fn'], [case['task']], lambda t: json.dumps(t)[:500])
        for what, _ in ctx.violations:
            print(what)
        return 1 if ctx.violations else 0
    mod.check(ctx)
    ctx.cov['rule'] = ' '.join(mod.RULE.split())
    ctx.assumptions += [' '.join(a.split()) for a in getattr(mod, 'ASSUMPTIONS', [])]
    return ctx.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    main_exit(rc)
