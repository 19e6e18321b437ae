#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [--root DIR]"""
import importlib
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def main():
    args = sys.argv[1:]
    root = '/repo'
    if '--root' in args:
        k = args.index('--root')
        root = args[k + 1]
        del args[k:k + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        from dsa import explore
        mod = importlib.import_module('dsa.checks.%s' % prop.lower())
    except Exception:
        traceback.print_exc()
        os._exit(4)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(
        explore.main(prop, mod, tier, root)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 4)


if __name__ == '__main__':
    main()
