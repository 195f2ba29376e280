import argparse, importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
import warnings
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import core
    # Keep chatter of the code under test out of the verdict stream
    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    out = os.fdopen(real, 'w')
    os.dup2(devnull, 1)
    import numpy as np
    np.seterr(all='ignore')
    try:
        mod = importlib.import_module('props.' + a.prop.lower())
    except ImportError as e:
        if 'props' in str(e):
            print('unknown property', a.prop, file=sys.stderr)
            return 2
        raise
    import builtins
    def p(*args, **kw):
        kw.setdefault('file', out)
        builtins.__print__(*args, **kw)
        out.flush()
    builtins.__print__ = print
    core.print = p
    rc = core.run(mod, a.prop.upper(), a.tier, seed, a.cases, a.replay, a.jobs)
    out.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
