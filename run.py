"""python run.py <property> [quick|thorough]  - decide one property on the current tree of /repo"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import vt
    mod = importlib.import_module('checks.' + prop)
    return vt.Check(prop, tier, seed, mod).run()


if __name__ == '__main__':
    sys.exit(main())
