import importlib
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'checks')]
sys.setrecursionlimit(20000)
import frame

if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        frame.exporter()
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(frame.main(pid, tier, importlib.import_module(pid.lower())))
