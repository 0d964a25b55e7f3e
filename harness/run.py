"""python run.py C05 [--tier quick|thorough] [--seed N] : decide one property on /repo's working tree."""
import argparse
import importlib
import os
import shutil
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    if 'C04' in sys.argv:
        # file encodings must not depend on the locale: run under one whose encoding is not UTF-8
        os.environ.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8')
    os.execv(sys.executable, [sys.executable, *sys.argv])

from vf import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    sys.path.insert(0, str(core.REPO))
    import jschon
    if not os.path.realpath(jschon.__file__).startswith(os.path.realpath(core.REPO)):
        print('jschon is not imported from', core.REPO)
        return 2
    ctx = core.Ctx(a.pid, a.tier, a.seed)
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(f'vf.drivers.{a.pid.lower()}')
    try:
        try:
            mod.run(ctx)
        except core.TlcError as e:
            if not ctx.violations:
                print('CHECK ERROR:', e)
                return 2
        except Exception as e:
            if not core.through_repo(e.__traceback__):
                traceback.print_exc()
                if not ctx.violations:
                    return 2
            else:
                ctx.fail('unexpected-exception', traceback=traceback.format_exc()[-3000:])
        return core.finish(ctx, assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        for p in core._children:
            if p.poll() is None:
                p.kill()


sys.exit(main())
