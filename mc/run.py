import importlib
import os
import sys
import traceback

from mc import core
from mc.registry import CHECKS


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    modname, fn, level = CHECKS[pid]
    ctx = core.Context(pid, tier, level, seed)
    sys.setrecursionlimit(3000)
    core._limits()
    try:
        mod = importlib.import_module('mc.checks.' + modname)
        getattr(mod, fn)(ctx)
    except BaseException as e:      # noqa
        tb = traceback.format_exc()
        if core.touches_repo(tb) and not isinstance(e, KeyboardInterrupt):
            ctx.stats.count('evaluations')
            ctx.stats.fail('crash:%s' % type(e).__name__,
                           'the code under test raised %s: %s\n%s' % (type(e).__name__, e, tb[-2000:]))
        else:
            ctx.errors.append(tb)
    rc = ctx.finish()
    sys.stdout.flush()
    os._exit(rc)


main()
