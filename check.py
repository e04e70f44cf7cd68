"""check.py <property> [--replay FILE] [--tier quick|thorough] [--seed N]

Decides one property by deterministic simulation with fault injection."""
import argparse
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYGAME_HIDE_SUPPORT_PROMPT', '1')


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--replay')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = parser.parse_args()

    import importlib
    from sim import seams
    seams.install()
    from sim import runner
    prop = importlib.import_module(f'props.{args.property.lower()}')
    if args.replay:
        return runner.run_replay(prop, args.replay)
    return runner.run_check(prop, args.tier, args.seed)


if __name__ == '__main__':
    try:
        status = main()
    except Exception:
        import traceback
        traceback.print_exc()
        status = 2
    sys.stdout.flush()
    sys.exit(status)
